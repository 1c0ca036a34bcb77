//! C14–C18, C28, C30: mesh data.
use crate::explore::*;
use crate::meshref::*;
use crate::samples::attr;
use crate::util::*;
use crate::{ensure, Check};
use ssbh_data::mesh_data::*;
use ssbh_lib::formats::mesh::*;
use std::io::Cursor;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C14", level: "exploration", rule: "one case = one mesh data value written and read back (twice); distinct by version and value", assumptions: &["finite values, indices and counts within the bound"], scenarios: c14, hang_s: 60 },
        Check { id: "C15", level: "exploration", rule: "one case = one mesh data value whose raw file is checked for layout and decoded by an independent decoder; distinct by version and value", assumptions: &["the independent decoder is trusted"], scenarios: c15, hang_s: 120 },
        Check { id: "C16", level: "exploration", rule: "one case = one mesh data value with up to two (thorough: three) edits, compared against an independent predicate of the defects present", assumptions: &[], scenarios: c16, hang_s: 60 },
        Check { id: "C17", level: "exploration", rule: "one case = one assignment of influences to objects, written and read back and compared with the raw groups", assumptions: &["at most 65536 vertices are weighted"], scenarios: c17, hang_s: 60 },
        Check { id: "C18", level: "exploration", rule: "one case = one multiset of points under one scaling and one distribution over objects; distinct by points and distribution", assumptions: &["coordinate magnitudes up to 1e18; containment up to float rounding"], scenarios: c18, hang_s: 60 },
        Check { id: "C28", level: "exploration", rule: "one case = one input of one helper compared against a double precision computation; distinct by input", assumptions: &["vertex indices are in range; degenerate cases only need unit or zero vectors"], scenarios: c28, hang_s: 60 },
        Check { id: "C30", level: "exploration", rule: "one case = one raw mesh file assembled by hand and read, compared with an independent decoder; distinct by file", assumptions: &["the independent decoder is trusted"], scenarios: c30, hang_s: 60 },
    ]
}

// ---------------------------------------------------------------------------------------------
// generation

const SPECIAL: [f32; 15] = [0.0, -0.0, 1.0, -1.0, 0.1, 0.49803922, 65504.0, 65519.0, 70000.0, 6.0e-8, 1.0e-30, 2049.0, -3.0e10, f32::MAX, 1.1754944e-38];

/// Distinct small values, exact as half floats, inside 0..1.
fn base(n: usize, comps: usize, seed: usize, special: Option<f32>) -> VectorData {
    let mut k = 0usize;
    let total = n * comps;
    let mut f = || {
        let v = match special {
            Some(x) if k == 0 || k + 1 == total => x,
            _ => ((seed * 17 + k * 5 + 3) % 128) as f32 / 128.0,
        };
        k += 1;
        v
    };
    match comps {
        2 => VectorData::Vector2((0..n).map(|_| [f(), f()]).collect()),
        3 => VectorData::Vector3((0..n).map(|_| [f(), f(), f()]).collect()),
        _ => VectorData::Vector4((0..n).map(|_| [f(), f(), f(), f()]).collect()),
    }
}

fn rows(d: &VectorData) -> Vec<Vec<f32>> {
    match d {
        VectorData::Vector2(v) => v.iter().map(|x| x.to_vec()).collect(),
        VectorData::Vector3(v) => v.iter().map(|x| x.to_vec()).collect(),
        VectorData::Vector4(v) => v.iter().map(|x| x.to_vec()).collect(),
    }
}
fn comps(d: &VectorData) -> usize {
    match d {
        VectorData::Vector2(_) => 2,
        VectorData::Vector3(_) => 3,
        VectorData::Vector4(_) => 4,
    }
}

fn list(o: &MeshObjectData, u: usize) -> &Vec<AttributeData> {
    match u {
        0 => &o.positions,
        1 => &o.normals,
        2 => &o.binormals,
        3 => &o.tangents,
        4 => &o.texture_coordinates,
        _ => &o.color_sets,
    }
}
pub(super) fn list_mut(o: &mut MeshObjectData, u: usize) -> &mut Vec<AttributeData> {
    match u {
        0 => &mut o.positions,
        1 => &mut o.normals,
        2 => &mut o.binormals,
        3 => &mut o.tangents,
        4 => &mut o.texture_coordinates,
        _ => &mut o.color_sets,
    }
}

const NAMES: [&str; 7] = ["", "a", "é", "Position0", "longer_than_eight_bytes", "map1", "colorSet1"];

fn pick<T: Clone>(ctx: &mut Ctx, v: &[T]) -> T {
    v[ctx.choose(v.len())].clone()
}

fn gen_object(ctx: &mut Ctx, i: usize) -> MeshObjectData {
    let n = pick(ctx, &[3usize, 0, 1, 2, 4, 7, 33]);
    let mut o = MeshObjectData {
        name: match ctx.choose(5) {
            0 => format!("obj{i}"),
            1 => String::new(),
            2 => "obj0".into(),
            3 => "é_VIS_O_OBJShape".into(),
            _ => "z".into(),
        },
        subindex: pick(ctx, &[i as u64, 7, u64::MAX, 1 << 32]),
        parent_bone_name: pick(ctx, &["", "Trans", "é"]).into(),
        sort_bias: pick(ctx, &[0, 1, -1, i32::MAX, i32::MIN]),
        disable_depth_write: ctx.choose(2) == 1,
        disable_depth_test: ctx.choose(2) == 1,
        ..Default::default()
    };
    let base_counts = [1usize, 1, 0, 1, 1, 1];
    let base_comps = [3usize, 3, 3, 4, 2, 4];
    for u in 0..6 {
        let c = ctx.choose(4);
        let count = if c == 0 { base_counts[u] } else { [0, 1, 2, 3].iter().copied().filter(|x| *x != base_counts[u]).nth(c - 1).unwrap() };
        for k in 0..count {
            let t = ctx.choose(3);
            let cs = if t == 0 { base_comps[u] } else { [2, 3, 4].iter().copied().filter(|x| *x != base_comps[u]).nth(t - 1).unwrap() };
            let sp = ctx.choose(SPECIAL.len() + 1);
            let name = match ctx.choose(NAMES.len() + 1) {
                0 => format!("{}{k}", USAGES[u]),
                j => NAMES[j - 1].to_string(),
            };
            list_mut(&mut o, u).push(attr(&name, base(n, cs, i * 7 + u * 3 + k, if sp == 0 { None } else { Some(SPECIAL[sp - 1]) })));
        }
    }
    let n = o.vertex_count().unwrap_or(0) as u32;
    let last = n.max(1) - 1;
    o.vertex_indices = match ctx.choose(5) {
        _ if n == 0 => vec![],
        0 => (0..n / 3 * 3).collect(),
        1 => vec![],
        2 => vec![0; 3],
        3 => (0..9).map(|k| (last + 9 * n - k) % n).collect(),
        _ => vec![last; 6],
    };
    if ctx.choose(2) == 1 {
        o.bone_influences = vec![BoneInfluence { bone_name: format!("b{i}"), vertex_weights: vec![VertexWeight { vertex_index: i as u32, vertex_weight: 0.5 }] }];
    }
    o
}

pub(super) fn distinct(d: &MeshData) -> bool {
    (0..d.objects.len()).all(|i| (0..i).all(|j| (&d.objects[i].name, d.objects[i].subindex) != (&d.objects[j].name, d.objects[j].subindex)))
}

const MINORS: [u16; 3] = [10, 9, 8];

pub(super) fn gen_mesh(ctx: &mut Ctx) -> MeshData {
    let minor_version = MINORS[ctx.free(3)];
    let n = pick(ctx, &[1usize, 2, 0, 3]);
    let objects = (0..n).map(|i| gen_object(ctx, i)).collect();
    MeshData { major_version: 1, minor_version, objects }
}

fn write(d: &MeshData) -> Result<Vec<u8>, Failure> {
    let mut c = Cursor::new(vec![]);
    d.write(&mut c).or_fail("write")?;
    Ok(c.into_inner())
}
fn read(b: &[u8]) -> Result<MeshData, Failure> {
    MeshData::read(&mut Cursor::new(b)).or_fail("read")
}
fn raw(b: &[u8]) -> Result<RMesh, Failure> {
    Ok(normalize(&Mesh::read(&mut Cursor::new(b)).or_fail("read-raw")?))
}
fn hash(ctx: &mut Ctx, d: &MeshData) {
    let s = format!("{d:?}");
    ctx.hash_bytes(s.as_bytes());
    ctx.note(|| {
        let mut s = s.clone();
        let mut k = s.len().min(4000);
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s
    });
}

// ---------------------------------------------------------------------------------------------
// C14

/// What version 1.8 calls an attribute.
fn name8(u: usize, k: usize) -> String {
    format!("{}{k}", USAGES[u])
}

/// The storage types a list may use so that its documented precision and component count hold.
fn may_store(u: usize, minor: u16, c: usize, dt: Dt) -> bool {
    dt.comps() == c && (u != 0 || dt.width() == 4) && (u == 5 || dt != Dt::B4) && (minor == 10 || dt != Dt::H2)
}

fn same_influences(a: &[BoneInfluence], b: &[BoneInfluence]) -> bool {
    let f = |x: &[BoneInfluence]| x.iter().map(|i| (i.bone_name.clone(), i.vertex_weights.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect::<Vec<_>>())).collect::<Vec<_>>();
    f(a) == f(b)
}

fn roundtrip(ctx: &mut Ctx, d: &MeshData) -> Result<(), Failure> {
    ctx.step();
    let b = write(d)?;
    let m = raw(&b)?;
    let r = read(&b)?;
    ensure!((r.major_version, r.minor_version) == (1, d.minor_version), "version", "{}.{}", r.major_version, r.minor_version);
    ensure!(r.objects.len() == d.objects.len(), "objects", "{} objects instead of {}", r.objects.len(), d.objects.len());
    for (i, (o, p)) in d.objects.iter().zip(&r.objects).enumerate() {
        ensure!((&o.name, o.subindex, &o.parent_bone_name) == (&p.name, p.subindex, &p.parent_bone_name), "names", "object {i}: {:?} {} {:?} came back as {:?} {} {:?}", o.name, o.subindex, o.parent_bone_name, p.name, p.subindex, p.parent_bone_name);
        ensure!(o.sort_bias == p.sort_bias, "sort_bias", "object {i}: {} came back as {}", o.sort_bias, p.sort_bias);
        ensure!((o.disable_depth_write, o.disable_depth_test) == (p.disable_depth_write, p.disable_depth_test), "depth", "object {i}");
        ensure!(o.vertex_indices == p.vertex_indices, "indices", "object {i}: {:?} came back as {:?}", o.vertex_indices, p.vertex_indices);
        ensure!(same_influences(&o.bone_influences, &p.bone_influences), "influences", "object {i}: {:?} came back as {:?}", o.bone_influences, p.bone_influences);
        for u in 0..6 {
            let (x, y) = (list(o, u), list(p, u));
            if u == 2 && d.minor_version == 8 {
                ensure!(y.is_empty(), "binormals", "object {i}: version 1.8 has binormals");
                continue;
            }
            ensure!(x.len() == y.len(), format!("count:{}", USAGES[u]), "object {i}: {} lists instead of {}", y.len(), x.len());
            for (k, (s, t)) in x.iter().zip(y).enumerate() {
                let want = if d.minor_version == 8 { name8(u, k) } else { s.name.clone() };
                ensure!(t.name == want, format!("name:{}", USAGES[u]), "object {i} list {k}: {:?} came back as {:?}", s.name, t.name);
                let c = comps(&s.data);
                ensure!(comps(&t.data) == c, format!("components:{}", USAGES[u]), "object {i} list {k}: {c} components became {}", comps(&t.data));
                let Some(a) = m.objs[i].attrs.iter().filter(|a| a.usage == u).nth(k) else { return fail("attribute", "missing in the raw file") };
                ensure!(may_store(u, d.minor_version, c, a.dt), format!("type:{}", USAGES[u]), "object {i} list {k}: {c} components of {} stored as {:?}", USAGES[u], a.dt);
                let (v, w) = (rows(&s.data), rows(&t.data));
                ensure!(v.len() == w.len(), format!("length:{}", USAGES[u]), "object {i} list {k}: {} values became {}", v.len(), w.len());
                for (e, (f, g)) in v.iter().zip(&w).enumerate() {
                    for (q, (f, g)) in f.iter().zip(g).enumerate() {
                        ensure!(nearest(a.dt, *f, *g), format!("value:{}:{:?}", USAGES[u], a.dt), "object {i} list {k} element {e} component {q}: {f:?} came back as {g:?}");
                    }
                }
            }
        }
    }
    // what was read is reproduced exactly from then on
    let b2 = write(&r)?;
    if d.minor_version != 8 || d.objects.iter().all(|o| o.binormals.is_empty()) {
        if let Some(x) = bytes_diff(&b, &b2) {
            return fail("second-generation", x);
        }
    }
    if let Some(x) = bytes_diff(&b, &write(d)?) {
        return fail("deterministic", x);
    }
    let r2 = read(&b2)?;
    ensure!(format!("{r:?}") == format!("{r2:?}"), "second-read", "{r:?} became {r2:?}");
    Ok(())
}

fn c14(thorough: bool) -> Vec<Scenario> {
    let k = if thorough { 3 } else { 2 };
    let mut out = vec![];
    out.push(scenario("lists", k, |ctx: &mut Ctx| {
        let d = gen_mesh(ctx);
        if !distinct(&d) {
            return Ok(false);
        }
        hash(ctx, &d);
        roundtrip(ctx, &d)?;
        Ok(!d.objects.is_empty())
    }));
    // every number of lists of every usage together, every component type of one usage
    out.push(scenario("list-counts", 0, move |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let n = 2;
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        let max = if thorough { 4 } else { 3 };
        for u in 0..6 {
            let c = ctx.free(max);
            for j in 0..c {
                list_mut(&mut o, u).push(attr(&format!("n{u}{j}"), base(n, 2 + (u + 2 * j + c) % 3, u * 5 + j, None)));
            }
        }
        let mut p = o.clone();
        p.subindex = 1;
        p.normals.clear();
        let d = MeshData { major_version: 1, minor_version: minor, objects: vec![o, p] };
        hash(ctx, &d);
        roundtrip(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("halves", 0, move |ctx: &mut Ctx| {
        // every half float, and every midpoint between neighbours and the values next to it
        let minor = MINORS[ctx.free(3)];
        let u = [1, 3, 4, 5][ctx.free(4)];
        let kind = ctx.free(4);
        let cs = [4, 2][ctx.free(2)];
        let mut v: Vec<f32> = (0..0x7c00u16).flat_map(|h| [half(h) as f32, half(h | 0x8000) as f32]).collect();
        if kind > 0 {
            v = (0..0x7c00u16)
                .flat_map(|h| {
                    let next = if h == 0x7bff { 65536.0 } else { half(h + 1) };
                    let m = ((half(h) + next) / 2.0) as f32;
                    let x = match kind {
                        1 => m,
                        2 => f32::from_bits(m.to_bits() + 1),
                        _ => f32::from_bits(m.to_bits() - 1),
                    };
                    [x, -x]
                })
                .collect();
        }
        while v.len() % cs != 0 {
            v.push(0.0);
        }
        let data = if cs == 4 { VectorData::Vector4(v.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect()) } else { VectorData::Vector2(v.chunks(2).map(|c| [c[0], c[1]]).collect()) };
        ctx.cases += v.len() as u64;
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        list_mut(&mut o, u).push(attr("x", data));
        ctx.hash_bytes(&[minor as u8, u as u8, kind as u8, cs as u8]);
        ctx.note(|| format!("version 1.{minor}, usage {u}, kind {kind}, {cs} components"));
        roundtrip(ctx, &MeshData { major_version: 1, minor_version: minor, objects: vec![o] })?;
        Ok(true)
    }));
    out.push(scenario("bytes", 0, move |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let kind = ctx.free(3);
        let mut v: Vec<f32> = match kind {
            0 => (0..=255).map(|k| k as f32 / 255.0).collect(),
            1 => (-300..=600).map(|k| k as f32 / 255.0 + 0.4 / 255.0).collect(),
            _ => (-300..=600).map(|k| k as f32 / 255.0 - 0.4 / 255.0).collect(),
        };
        v.extend([f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, 1.0, 0.99999994, 1.0000001]);
        while v.len() % 4 != 0 {
            v.push(0.0);
        }
        ctx.cases += v.len() as u64;
        let o = MeshObjectData { name: "o".into(), color_sets: vec![attr("colorSet1", VectorData::Vector4(v.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect()))], ..Default::default() };
        ctx.hash_bytes(&[minor as u8, kind as u8]);
        roundtrip(ctx, &MeshData { major_version: 1, minor_version: minor, objects: vec![o] })?;
        Ok(true)
    }));
    out.push(scenario("indices", 0, |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let d = big(ctx, minor);
        ctx.hash_bytes(format!("{minor}{:?}", d.objects.iter().map(|o| &o.vertex_indices).collect::<Vec<_>>()).as_bytes());
        roundtrip(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("many", 0, |ctx: &mut Ctx| {
        let d = many(ctx);
        roundtrip(ctx, &d)?;
        Ok(true)
    }));
    out
}

/// Many objects, or many lists of one object.
fn many(ctx: &mut Ctx) -> MeshData {
    let minor = MINORS[ctx.free(3)];
    let n = [127usize, 128, 129, 255, 256, 257, 300, 700][ctx.free(8)];
    let shape = ctx.free(9);
    let objects = if shape < 3 {
        // equal names, different names, or blocks of names; the subindices tell the others apart
        (0..n)
            .map(|i| {
                let v = 3 + i % 3;
                let mut o = MeshObjectData { name: [format!("o{i}"), "o".into(), format!("o{}", i / 100)][shape].clone(), subindex: i as u64, ..Default::default() };
                o.positions.push(attr("Position0", base(v, 3, i, None)));
                if i % 2 == 0 {
                    o.texture_coordinates.push(attr("map1", base(v, 2, i + 1, None)));
                }
                o.vertex_indices = (0..3 * (1 + i as u32 % 2)).map(|k| (k + i as u32) % v as u32).collect();
                o.bone_influences.push(BoneInfluence { bone_name: format!("b{}", i % 7), vertex_weights: vec![VertexWeight { vertex_index: i as u32 % 3, vertex_weight: i as f32 }] });
                o
            })
            .collect()
    } else {
        let u = shape - 3;
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        for j in 0..n {
            list_mut(&mut o, u).push(attr(&format!("x{j}"), base(3, 2 + j % 3, j, None)));
        }
        o.positions.push(attr("Position0", base(3, 3, 1, None)));
        vec![o.clone(), MeshObjectData { subindex: 1, ..o }]
    };
    ctx.hash_bytes(format!("{minor} {n} {shape}").as_bytes());
    ctx.note(|| format!("version 1.{minor}, {n}, shape {shape}"));
    MeshData { major_version: 1, minor_version: minor, objects }
}

/// Objects around the limit of two-byte indices, in all orders.
fn big(ctx: &mut Ctx, minor: u16) -> MeshData {
    let counts = [65535usize, 65536, 65537, 3];
    let n = 1 + ctx.free(2);
    let mut objects = vec![];
    for i in 0..n {
        let c = counts[ctx.free(4)];
        let last = c as u32 - 1;
        let idx = match ctx.free(4) {
            0 => vec![last, 0, 1],
            1 => vec![0, 1, 2],
            2 => vec![0, 1, last, last, 1, 0, last.min(65535), 0, 256.min(last)],
            _ => vec![],
        };
        objects.push(MeshObjectData { name: "o".into(), subindex: i as u64, vertex_indices: idx, positions: vec![attr("Position0", VectorData::Vector3((0..c).map(|k| [k as f32, 1.0, -(k as f32)]).collect()))], ..Default::default() });
    }
    ctx.note(|| format!("version 1.{minor}, vertex counts {:?}, indices {:?}", objects.iter().map(|o| o.positions[0].data.len()).collect::<Vec<_>>(), objects.iter().map(|o| &o.vertex_indices).collect::<Vec<_>>()));
    MeshData { major_version: 1, minor_version: minor, objects }
}

// ---------------------------------------------------------------------------------------------
// C15

fn disjoint(key: &str, mut r: Vec<(usize, usize, String)>) -> Result<(), Failure> {
    r.retain(|x| x.0 < x.1);
    r.sort();
    for w in r.windows(2) {
        ensure!(w[0].1 <= w[1].0, key, "{} at {}..{} overlaps {} at {}..{}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1);
    }
    Ok(())
}

fn layout(ctx: &mut Ctx, d: &MeshData) -> Result<(), Failure> {
    ctx.step();
    let b = write(d)?;
    let m = raw(&b)?;
    let direct = normalize(&Mesh::try_from(d).or_fail("convert")?);
    ensure!(format!("{m:?}") == format!("{direct:?}"), "converted", "the converted mesh differs from the written one");
    ensure!(m.minor == d.minor_version, "version", "{}", m.minor);
    ensure!(m.bufs.len() >= 4, "buffers", "{} buffers", m.bufs.len());
    ensure!(m.sizes.len() == m.bufs.len() && m.sizes.iter().zip(&m.bufs).all(|(s, b)| *s as usize == b.len()), "sizes", "{:?} for buffers of {:?}", m.sizes, m.bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
    ensure!(m.index_size as usize == m.index.len(), "index-size", "{} for {}", m.index_size, m.index.len());
    ensure!(m.objs.len() == d.objects.len(), "objects", "{}", m.objs.len());
    let mut regions: Vec<Vec<(usize, usize, String)>> = vec![vec![]; 4];
    let mut iregions = vec![];
    for (i, (o, r)) in d.objects.iter().zip(&m.objs).enumerate() {
        let n = o.vertex_count().or_fail("vertex-count")?;
        ensure!(r.vcount == n, "vertex-count", "object {i}: {} instead of {n}", r.vcount);
        ensure!(r.icount == o.vertex_indices.len(), "index-count", "object {i}: {} instead of {}", r.icount, o.vertex_indices.len());
        ensure!(r.u32_indices == o.vertex_indices.iter().any(|x| *x > 65535), "index-type", "object {i}: four-byte indices {} for {:?}", r.u32_indices, o.vertex_indices);
        let w = if r.u32_indices { 4 } else { 2 };
        iregions.push((r.ioff, r.ioff + w * r.icount, format!("object {i}")));
        ensure!(r.ioff + w * r.icount <= m.index.len(), "index-range", "object {i}: {}+{}x{w} of {}", r.ioff, r.icount, m.index.len());
        ensure!(decode_indices(&m, r).as_ref() == Some(&o.vertex_indices), "index-values", "object {i}: {:?} instead of {:?}", decode_indices(&m, r), o.vertex_indices);
        for q in 0..4 {
            if r.stride[q] == 0 {
                continue;
            }
            let end = r.voff[q] as usize + r.stride[q] as usize * n;
            ensure!(end <= m.bufs[q].len(), format!("region:{q}"), "object {i}: {}+{}x{n} of {}", r.voff[q], r.stride[q], m.bufs[q].len());
            regions[q].push((r.voff[q] as usize, end, format!("object {i}")));
        }
        let mut inner: Vec<Vec<(usize, usize, String)>> = vec![vec![]; 4];
        for a in &r.attrs {
            ensure!(a.buf < 4, "attribute-buffer", "object {i}: buffer {}", a.buf);
            let s = r.stride[a.buf as usize] as usize;
            let e = a.off as usize + a.dt.size();
            ensure!(e <= s, "in-stride", "object {i}: {a:?} ends at {e} of {s}");
            inner[a.buf as usize].push((a.off as usize, e, format!("{a:?}")));
        }
        for x in inner {
            disjoint("attributes-disjoint", x)?;
        }
        for u in 0..6 {
            let l = if u == 2 && d.minor_version == 8 { &vec![] } else { list(o, u) };
            let got: Vec<&RAttr> = r.attrs.iter().filter(|a| a.usage == u).collect();
            ensure!(got.len() == l.len(), format!("attributes:{}", USAGES[u]), "object {i}: {} instead of {}", got.len(), l.len());
            for (k, s) in l.iter().enumerate() {
                let a = got[k];
                ensure!(a.sub == k as u64, format!("subindex:{}", USAGES[u]), "object {i} list {k}: subindex {}", a.sub);
                ensure!(a.names.is_none() || a.names == Some(vec![s.name.clone()]), format!("name:{}", USAGES[u]), "object {i} list {k}: {:?}", a.names);
                ensure!(may_store(u, d.minor_version, comps(&s.data), a.dt), format!("type:{}", USAGES[u]), "object {i} list {k}: {:?}", a.dt);
                let Some(v) = decode_attr(&m, r, a) else { return fail("decode", format!("object {i}: {a:?} is out of range")) };
                let w = rows(&s.data);
                ensure!(v.len() == w.len(), "length", "object {i} list {k}: {} instead of {}", v.len(), w.len());
                for (e, (f, g)) in w.iter().zip(&v).enumerate() {
                    ensure!(f.len() == g.len() && f.iter().zip(g).all(|(f, g)| nearest(a.dt, *f, *g)), format!("value:{}:{:?}", USAGES[u], a.dt), "object {i} list {k} element {e}: the file holds {g:?} instead of {f:?}");
                }
            }
        }
    }
    for (q, r) in regions.into_iter().enumerate() {
        let total: usize = r.iter().map(|x| x.1 - x.0).sum();
        disjoint(&format!("objects-disjoint:{q}"), r)?;
        ensure!(total == m.bufs[q].len(), format!("unowned:{q}"), "{} of the {} bytes belong to objects", total, m.bufs[q].len());
    }
    disjoint("indices-disjoint", iregions)
}

fn c15(thorough: bool) -> Vec<Scenario> {
    let k = if thorough { 3 } else { 2 };
    let mut out = vec![];
    out.push(scenario("lists", k, |ctx: &mut Ctx| {
        let d = gen_mesh(ctx);
        if !distinct(&d) {
            return Ok(false);
        }
        hash(ctx, &d);
        layout(ctx, &d)?;
        Ok(!d.objects.is_empty())
    }));
    out.push(scenario("objects", 0, move |ctx: &mut Ctx| {
        // up to three (four) objects out of a palette of shapes, in all orders
        let minor = MINORS[ctx.free(3)];
        let n = 1 + ctx.free(if thorough { 4 } else { 3 });
        let mut objects = vec![];
        for i in 0..n {
            let shape = ctx.free(7);
            let (v, lists): (usize, &[(usize, usize)]) = [
                (3usize, &[(0usize, 3usize)][..]),
                (0, &[(0, 3), (4, 2)]),
                (1, &[(0, 3), (1, 3), (3, 4), (4, 2), (5, 4)]),
                (5, &[(4, 2), (4, 3), (5, 4)]),
                (2, &[(0, 4), (2, 3), (5, 2)]),
                (0, &[]),
                (4, &[(1, 2), (0, 2), (3, 3), (5, 3), (5, 4)]),
            ][shape];
            let mut o = MeshObjectData { name: "o".into(), subindex: (n - i) as u64, ..Default::default() };
            for (j, (u, c)) in lists.iter().enumerate() {
                list_mut(&mut o, *u).push(attr("x", base(v, *c, i * 11 + j * 5, None)));
            }
            o.vertex_indices = if v == 0 { vec![] } else { (0..3 * (shape as u32 % 3 + 1)).map(|k| k % v as u32).collect() };
            objects.push(o);
        }
        let d = MeshData { major_version: 1, minor_version: minor, objects };
        hash(ctx, &d);
        layout(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("indices", 0, |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let d = big(ctx, minor);
        ctx.hash_bytes(format!("{minor}{:?}", d.objects.iter().map(|o| (&o.vertex_indices, o.positions[0].data.len())).collect::<Vec<_>>()).as_bytes());
        layout(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("many", 0, |ctx: &mut Ctx| {
        let d = many(ctx);
        layout(ctx, &d)?;
        Ok(true)
    }));
    out
}

// ---------------------------------------------------------------------------------------------
// C16

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Bad {
    Length,
    Range,
    Triangles,
    Weight,
    Duplicate,
    Version,
}

fn defects(d: &MeshData) -> Vec<Bad> {
    let mut v = vec![];
    if d.major_version != 1 || !(8..=10).contains(&d.minor_version) {
        v.push(Bad::Version);
    }
    if !distinct(d) {
        v.push(Bad::Duplicate);
    }
    for o in &d.objects {
        let lens: Vec<usize> = (0..6).flat_map(|u| list(o, u)).map(|a| rows(&a.data).len()).collect();
        if lens.windows(2).any(|w| w[0] != w[1]) {
            v.push(Bad::Length);
        } else if o.vertex_indices.iter().any(|i| *i as usize >= lens.first().copied().unwrap_or(0)) {
            v.push(Bad::Range);
        }
        if o.vertex_indices.len() % 3 != 0 {
            v.push(Bad::Triangles);
        }
        // the limit is that of the version's weight encoding
        if (d.major_version, d.minor_version) == (1, 10) && o.bone_influences.iter().flat_map(|b| &b.vertex_weights).any(|w| w.vertex_index > 65535) {
            v.push(Bad::Weight);
        }
    }
    v
}

fn rejects(ctx: &mut Ctx, d: &MeshData) -> RunResult {
    ctx.step();
    let want = defects(d);
    let conv = Mesh::try_from(d);
    let owned = Mesh::try_from(d.clone()).is_ok();
    let mut c = Cursor::new(vec![]);
    let written = d.write(&mut c);
    ensure!(conv.is_ok() == written.is_ok() && owned == conv.is_ok(), "paths", "converting gives {}, writing gives {}", conv.is_ok(), written.is_ok());
    match conv {
        Ok(_) => ensure!(want.is_empty(), format!("accepted:{:?}", want[0]), "a mesh with {want:?} was created"),
        Err(e) => {
            use error::Error::*;
            let kind = match &e {
                AttributeDataLengthMismatch => Bad::Length,
                VertexIndexOutOfRange { vertex_index, vertex_count } => {
                    ensure!(vertex_index >= vertex_count, "range-payload", "{e}");
                    Bad::Range
                }
                NonTriangulatedFaces { vertex_index_count } => {
                    ensure!(vertex_index_count % 3 != 0, "triangles-payload", "{e}");
                    Bad::Triangles
                }
                SkinWeightVertexIndexExceedsLimit { vertex_index, limit, .. } => {
                    ensure!(vertex_index > limit, "weight-payload", "{e}");
                    Bad::Weight
                }
                UnsupportedVersion { major_version, minor_version } => {
                    ensure!((*major_version, *minor_version) == (d.major_version, d.minor_version), "version-payload", "{e}");
                    Bad::Version
                }
                DuplicateSubindex { mesh_object_name, mesh_object_subindex } => {
                    ensure!(d.objects.iter().filter(|o| &o.name == mesh_object_name && o.subindex == *mesh_object_subindex).count() > 1, "duplicate-payload", "{e}");
                    Bad::Duplicate
                }
                e => return fail("error-kind", format!("{e}")),
            };
            ensure!(!want.is_empty(), format!("rejected:{kind:?}"), "a valid mesh was rejected: {e}");
            ensure!(want.contains(&kind), format!("kind:{kind:?}"), "{e} for a mesh with {want:?}");
        }
    }
    Ok(!want.is_empty())
}

fn c16(thorough: bool) -> Vec<Scenario> {
    let k = if thorough { 3 } else { 2 };
    let mut out = vec![];
    out.push(scenario("defects", k, |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let nobj = 1 + ctx.free(3);
        let mut objects = vec![];
        for i in 0..nobj {
            let n = 3 + i;
            let mut o = MeshObjectData { name: pick(ctx, &[["a", "b", "a"][i], "a", ""]).into(), subindex: pick(ctx, &[i as u64, 0, 1, 2, 1 << 32]), ..Default::default() };
            for u in 0..6 {
                for j in 0..2 {
                    let len = match ctx.choose(5) {
                        0 => n,
                        1 => n - 1,
                        2 => n + 1,
                        3 => 0,
                        _ => {
                            continue;
                        }
                    };
                    list_mut(&mut o, u).push(attr("x", base(len, 2 + (u + j) % 3, u, None)));
                }
            }
            let count = pick(ctx, &[6usize, 0, 1, 2, 3, 4, 5, 7]);
            for p in 0..count {
                let v = match ctx.choose(5) {
                    0 => (p % n) as u32,
                    1 => n as u32,
                    2 => u32::MAX,
                    3 => n as u32 + 1,
                    _ => n as u32 - 1,
                };
                o.vertex_indices.push(v);
            }
            for b in 0..2 {
                let mut w = vec![];
                for p in 0..2u32 {
                    let x = pick(ctx, &[p, 65535, 65536, 65537, u32::MAX]);
                    w.push(VertexWeight { vertex_index: x, vertex_weight: 0.5 });
                }
                o.bone_influences.push(BoneInfluence { bone_name: format!("b{b}"), vertex_weights: w });
            }
            objects.push(o);
        }
        let (major_version, minor_version) = match ctx.choose(6) {
            0 => (1, minor),
            j => [(1, 7), (1, 11), (0, minor), (2, minor), (1, 0)][j - 1],
        };
        let d = MeshData { major_version, minor_version, objects };
        hash(ctx, &d);
        rejects(ctx, &d)
    }));
    out.push(scenario("versions", 0, |ctx: &mut Ctx| {
        let a = ctx.free(4) as u16;
        let b = [0u16, 1, 7, 8, 9, 10, 11, 12, 255, 256 + 8, 65535][ctx.free(11)];
        let objects = if ctx.free(2) == 0 { vec![] } else { vec![MeshObjectData { name: "o".into(), ..Default::default() }] };
        let d = MeshData { major_version: [1, 0, 2, 257][a as usize], minor_version: b, objects };
        hash(ctx, &d);
        rejects(ctx, &d)
    }));
    // absent lists and objects without vertices
    out.push(scenario("counts", 0, |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let u = ctx.free(6);
        let w = ctx.free(6);
        let (n, m) = (ctx.free(4), ctx.free(4));
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        if n > 0 {
            list_mut(&mut o, u).push(attr("x", base(n - 1, 3, 0, None)));
        }
        if m > 0 {
            list_mut(&mut o, w).push(attr("y", base(m - 1, 3, 1, None)));
        }
        let l = ctx.free(7);
        let x = ctx.free(4) as u32;
        o.vertex_indices = vec![x; l];
        let d = MeshData { major_version: 1, minor_version: minor, objects: vec![o] };
        hash(ctx, &d);
        rejects(ctx, &d)
    }));
    // all pairs of names and subindices
    out.push(scenario("keys", 0, |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let names = ["", "a", "A", "ab", "é", "aShape", "a_VIS", "a ", " a", "a1", "e", "a_VISShape", "b", "ba", "aa", "a\u{301}"];
        let subs = [0u64, 1, 1 << 32, u64::MAX, 2, 256, 65536, 1 << 31, 1 << 63];
        let n = ctx.free(4);
        let m = if n < 3 { subs.len() } else { 2 };
        let nn = if n < 3 { names.len() } else { 7 };
        let objects = (0..n)
            .map(|_| {
                let name = names[ctx.free(nn)];
                MeshObjectData { name: name.into(), subindex: subs[ctx.free(m)], ..Default::default() }
            })
            .collect();
        let d = MeshData { major_version: 1, minor_version: minor, objects };
        hash(ctx, &d);
        rejects(ctx, &d)
    }));
    // one defect somewhere in a mesh with many objects, lists, indices or weights
    out.push(scenario("many", 0, |ctx: &mut Ctx| {
        let mut d = many(ctx);
        let n = d.objects.len();
        let at = [0, n / 2, n - 1, 256.min(n - 1)][ctx.free(4)];
        let minor = d.minor_version;
        let first = (d.objects[0].name.clone(), d.objects[0].subindex);
        let o = &mut d.objects[at];
        let v = o.positions[0].data.len() as u32;
        let what = ctx.free(7);
        match what {
            0 => {}
            1 => {
                for u in (0..6).rev() {
                    if let Some(l) = list_mut(o, u).last_mut() {
                        l.data = base(v as usize + 1, 3, 0, None);
                        break;
                    }
                }
            }
            2 => o.vertex_indices = (0..900u32).map(|i| if i == 777 { v } else { i % v }).collect(),
            3 => o.vertex_indices = vec![0; 901],
            4 => o.vertex_indices = (0..900u32).map(|i| i % v).collect(),
            5 => o.bone_influences.push(BoneInfluence { bone_name: "late".into(), vertex_weights: (0..600u32).map(|i| VertexWeight { vertex_index: if i == 555 { 65536 } else { i }, vertex_weight: 1.0 }).collect() }),
            _ => {
                if at == 0 {
                    return Ok(false);
                }
                (o.name, o.subindex) = first;
            }
        }
        ctx.hash_u64((at * 8 + what) as u64);
        ctx.note(|| format!("version 1.{minor}: defect {what} at object {at} of {n}"));
        rejects(ctx, &d)
    }));
    // one defect anywhere in long lists
    out.push(scenario("long", 0, |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let n = [3usize, 60, 255, 256, 300, 1025, 4097, 9000, 65535, 65536, 70002][ctx.free(11)];
        let what = ctx.free(6);
        let place = ctx.free(9);
        let at = [0, 1, n / 3, n / 2, n - 2, n - 1, 255.min(n - 1), 1024.min(n - 1), 4096.min(n - 1)][place];
        let v = 300usize;
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        o.positions.push(attr("Position0", base(v, 3, 0, None)));
        match what {
            // an index: beyond by a little, or only in its upper bits
            0 | 1 => {
                o.vertex_indices = (0..n as u32 / 3 * 3).map(|i| i * 7 % v as u32).collect();
                let at = at.min(o.vertex_indices.len() - 1);
                let how = ctx.free(6);
                o.vertex_indices[at] = [v as u32, v as u32 - 1, v as u32 + 1, 65536, 1 << 31, u32::MAX][how];
                if what == 1 {
                    o.vertex_indices.reverse();
                }
            }
            // the number of indices
            2 => o.vertex_indices = vec![1; n + place % 3],
            // a list that is longer or shorter by one
            3 => {
                o.positions[0].data = base(n, 3, 0, None);
                let u = 1 + ctx.free(5);
                list_mut(&mut o, u).push(attr("x", base(n, 3, 0, None)));
                list_mut(&mut o, u).push(attr("y", base([n, n + 1, n - 1, n + 256, n + 65536][place % 5], 2, 0, None)));
            }
            // a weight among many of one bone, or in one of many bones
            4 => {
                let mut w: Vec<VertexWeight> = (0..n as u32).map(|i| VertexWeight { vertex_index: i % 65536, vertex_weight: 1.0 }).collect();
                w[at].vertex_index = [65535, 65536, 1 << 31, u32::MAX][ctx.free(4)];
                o.bone_influences.push(BoneInfluence { bone_name: "b".into(), vertex_weights: w });
            }
            _ => {
                let n = n.min(1025);
                let at = at.min(n - 1);
                o.bone_influences = (0..n).map(|i| BoneInfluence { bone_name: format!("b{i}"), vertex_weights: vec![VertexWeight { vertex_index: i as u32, vertex_weight: 1.0 }] }).collect();
                o.bone_influences[at].vertex_weights[0].vertex_index = [65535, 65536, 1 << 31, u32::MAX][ctx.free(4)];
            }
        }
        let other = MeshObjectData { name: "p".into(), ..Default::default() };
        let objects = if place % 2 == 0 { vec![o, other] } else { vec![other, o] };
        let d = MeshData { major_version: 1, minor_version: minor, objects };
        ctx.hash_bytes(format!("{minor} {n} {what} {place}").as_bytes());
        ctx.note(|| format!("version 1.{minor}: lists of {n}, kind {what}, place {at}"));
        rejects(ctx, &d)
    }));
    out
}

// ---------------------------------------------------------------------------------------------
// C17

fn weights_case(ctx: &mut Ctx, d: &MeshData) -> Result<(), Failure> {
    ctx.step();
    let b = write(d)?;
    let m = raw(&b)?;
    let r = read(&b)?;
    for (i, (o, p)) in d.objects.iter().zip(&r.objects).enumerate() {
        ensure!(same_influences(&o.bone_influences, &p.bone_influences), "influences", "object {i} ({:?}, {}): {:?} came back as {:?}", o.name, o.subindex, o.bone_influences, p.bone_influences);
        let gs: Vec<&RGroup> = m.groups.iter().filter(|g| g.name == o.name && g.sub == o.subindex).collect();
        ensure!(gs.len() == 1, "groups", "object {i} has {} groups", gs.len());
        let want: Vec<(String, RWeights)> = o.bone_influences.iter().map(|b| (b.bone_name.clone(), b.vertex_weights.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect())).collect();
        ensure!(gs[0].bones == want, "raw", "object {i}: {:?} instead of {want:?}", gs[0].bones);
        ensure!((m.objs[i].skinned != 0) != o.bone_influences.is_empty(), "skinning", "object {i}: skinning {} with {} bones", m.objs[i].skinned, o.bone_influences.len());
        // number of bones that list a vertex
        let mut bones: Vec<&str> = o.bone_influences.iter().map(|b| b.bone_name.as_str()).collect();
        bones.sort();
        if bones.windows(2).all(|w| w[0] != w[1]) {
            let mut count = std::collections::BTreeMap::new();
            for b in &o.bone_influences {
                let s: std::collections::BTreeSet<u32> = b.vertex_weights.iter().map(|w| w.vertex_index).collect();
                for v in s {
                    *count.entry(v).or_insert(0usize) += 1;
                }
            }
            let max = count.values().max().copied().unwrap_or(0);
            ensure!(gs[0].max as usize == max.min(255), "max", "object {i}: {} instead of {max}", gs[0].max);
        }
    }
    ensure!(m.groups.windows(2).all(|w| (w[0].name.as_bytes(), w[0].sub) < (w[1].name.as_bytes(), w[1].sub)), "order", "groups are stored as {:?}", m.groups.iter().map(|g| (&g.name, g.sub)).collect::<Vec<_>>());
    Ok(())
}

fn c17(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let w = |v: &[(u32, f32)]| v.iter().map(|x| VertexWeight { vertex_index: x.0, vertex_weight: x.1 }).collect::<Vec<_>>();
    let patterns = move |i: usize, id: usize| -> Vec<BoneInfluence> {
        let f = id as f32;
        let l: Vec<Vec<VertexWeight>> = match i {
            0 => vec![],
            1 => vec![w(&[(0, f)])],
            2 => vec![w(&[])],
            3 => vec![w(&[(0, f + 0.25), (1, 0.75)]), w(&[(1, 0.25)])],
            4 => vec![w(&[(2, f), (0, f), (2, 0.5)])],
            5 => vec![w(&[(1, 0.5)]), w(&[]), w(&[(1, f)])],
            6 => vec![w(&[(0, 1.0), (1, f), (2, 3.0)]), w(&[(0, 1.0)]), w(&[(0, f)])],
            _ => vec![w(&[(65535, f)]), w(&[(255, -1.0), (256, f32::MAX)])],
        };
        l.into_iter().enumerate().map(|(k, v)| BoneInfluence { bone_name: ["b0", "a", "é"][(k + id) % 3].to_string(), vertex_weights: v }).collect()
    };
    out.push(scenario("objects", 0, move |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let keys = [("b", 0u64), ("a", 1), ("a", 0), ("", 2), ("aa", 0), ("B", 1 << 33), ("é", 0), ("a", 10)];
        let n = 1 + ctx.free(3);
        let nk = if n == 3 && !thorough { 5 } else { keys.len() };
        let np = if n == 3 && !thorough { 4 } else { 8 };
        let mut objects = vec![];
        for i in 0..n {
            let (name, sub) = keys[ctx.free(nk)];
            objects.push(MeshObjectData { name: name.into(), subindex: sub, bone_influences: patterns(ctx.free(np), i), positions: vec![attr("Position0", base(3, 3, 1, None))], ..Default::default() });
        }
        let d = MeshData { major_version: 1, minor_version: minor, objects };
        if !distinct(&d) {
            return Ok(false);
        }
        hash(ctx, &d);
        weights_case(ctx, &d)?;
        Ok(true)
    }));
    // the order of names and subindices of every magnitude
    out.push(scenario("keys", 0, move |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let mut subs: Vec<u64> = vec![0, 9, 10, 100, u64::MAX];
        for b in [1, 7, 8, 15, 16, 24, 31, 32, 33, 40, 48, 52, 53, 56, 62, 63] {
            subs.extend([(1u64 << b) - 1, 1 << b, (1 << b) + 2]);
        }
        let names = ["a", "b", "A", "a1", "a10", "a2", "", "\u{e9}", "aShape", "\u{ffff}", "\u{1f600}", "a ", "a_"];
        let three = ctx.free(2) == 1;
        let (ns, nn) = if thorough || !three { (subs.len(), if three { 4 } else { names.len() }) } else { (12, 3) };
        let mut objects = vec![];
        for i in 0..2 + usize::from(three) {
            // two equal names or any two names with chosen subindices
            let name = if three || i == 0 { names[ctx.free(nn)] } else { names[ctx.free(names.len())] };
            let step = if three && !thorough { 4 } else { 1 };
            let sub = subs[ctx.free(ns) * step];
            objects.push(MeshObjectData { name: name.into(), subindex: sub, bone_influences: patterns(1 + i, i), positions: vec![attr("Position0", base(3, 3, 1, None))], ..Default::default() });
            if !three && i == 1 && objects[0].name != objects[1].name && objects[0].subindex > 10 {
                return Ok(false);
            }
        }
        let d = MeshData { major_version: 1, minor_version: minor, objects };
        if !distinct(&d) {
            return Ok(false);
        }
        hash(ctx, &d);
        weights_case(ctx, &d)?;
        Ok(true)
    }));
    // all bipartite assignments of bones to vertices
    out.push(scenario("assignments", 0, move |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let (nb, nv) = if thorough { (4, 4) } else { (3, 3) };
        let mut bones = vec![];
        for b in 0..nb {
            let mask = ctx.free(1 << nv);
            let v: Vec<(u32, f32)> = (0..nv as u32).filter(|v| mask >> v & 1 == 1).map(|v| (v, (b * 8) as f32 + v as f32)).collect();
            bones.push(BoneInfluence { bone_name: format!("bone{}", (b * 2 + 1) % nb), vertex_weights: w(&v) });
        }
        let o = MeshObjectData { name: "o".into(), bone_influences: bones, ..Default::default() };
        let d = MeshData { major_version: 1, minor_version: minor, objects: vec![MeshObjectData { name: "z".into(), ..Default::default() }, o] };
        hash(ctx, &d);
        weights_case(ctx, &d)?;
        Ok(true)
    }));
    // long lists of weights, many bones
    out.push(scenario("numbers", 0, move |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let nb = [1usize, 4, 254, 255, 256, 257, 300, 512][ctx.free(8)];
        let nw = [1u32, 2, 300][ctx.free(3)];
        let repeat = ctx.free(2) == 1;
        let bones = (0..nb).map(|b| BoneInfluence { bone_name: format!("b{b}"), vertex_weights: (0..nw).map(|v| VertexWeight { vertex_index: if repeat { v / 2 } else { v * 7 % 300 + b as u32 % 2 * 65000 }, vertex_weight: f32::from_bits(0x3f00_0000 + v + 1000 * b as u32) }).collect() }).collect();
        let d = MeshData { major_version: 1, minor_version: minor, objects: vec![MeshObjectData { name: "o".into(), bone_influences: bones, ..Default::default() }] };
        ctx.hash_bytes(format!("{minor} {nb} {nw} {repeat}").as_bytes());
        ctx.note(|| format!("version 1.{minor}, {nb} bones with {nw} weights each, repeated {repeat}"));
        weights_case(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("values", 0, move |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let bits = [0u32, 0x8000_0000, 1, 0x3f80_0000, 0x7f7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0001, 0x3dcc_cccd];
        let idx = [0u32, 1, 255, 256, 65534, 65535];
        let x = bits[ctx.free(bits.len())];
        let y = bits[ctx.free(bits.len())];
        let i = idx[ctx.free(idx.len())];
        let j = if minor == 10 { idx[ctx.free(6)] } else { [0, 65536, 0x0102_0304, u32::MAX, 65535, 1][ctx.free(6)] };
        let o = MeshObjectData { name: "o".into(), bone_influences: vec![BoneInfluence { bone_name: "b".into(), vertex_weights: w(&[(i, f32::from_bits(x)), (j, f32::from_bits(y))]) }], ..Default::default() };
        let d = MeshData { major_version: 1, minor_version: minor, objects: vec![o] };
        hash(ctx, &d);
        weights_case(ctx, &d)?;
        Ok(true)
    }));
    // bones that share a name stay separate and in order
    out.push(scenario("bone-names", 0, move |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let names = ["a", "b", "", "é"];
        let n = ctx.free(5);
        let nv = if n <= 3 { 4 } else { 2 };
        let bones = (0..n)
            .map(|b| BoneInfluence {
                bone_name: names[ctx.free(4)].into(),
                vertex_weights: w(match ctx.free(nv) {
                    0 => vec![(b as u32 % 2, b as f32)],
                    1 => vec![],
                    2 => vec![(0, 0.0)],
                    _ => vec![(1, 0.5), (0, 0.0), (1, 0.5)],
                }.as_slice()),
            })
            .collect();
        let o = MeshObjectData { name: "o".into(), bone_influences: bones, ..Default::default() };
        let d = MeshData { major_version: 1, minor_version: minor, objects: vec![o] };
        hash(ctx, &d);
        weights_case(ctx, &d)?;
        Ok(n > 0)
    }));
    out.push(scenario("many", 0, |ctx: &mut Ctx| {
        let d = many(ctx);
        weights_case(ctx, &d)?;
        Ok(true)
    }));
    out
}

// ---------------------------------------------------------------------------------------------
// C18

fn f3(v: &ssbh_data::Vector3) -> [f64; 3] {
    [v.x as f64, v.y as f64, v.z as f64]
}

fn contains(what: &str, b: &BoundingInfo, pts: &[[f32; 3]], tight: bool) -> Result<(), Failure> {
    let c = f3(&b.bounding_sphere.center);
    let r = b.bounding_sphere.radius as f64;
    let (lo, hi) = (f3(&b.bounding_volume.min), f3(&b.bounding_volume.max));
    let ob = &b.oriented_bounding_box;
    let oc = f3(&ob.center);
    let os = f3(&ob.size);
    let axes = [f3(&ob.transform.col1), f3(&ob.transform.col2), f3(&ob.transform.col3)];
    let all = [c.to_vec(), vec![r], lo.to_vec(), hi.to_vec(), oc.to_vec(), os.to_vec(), axes.concat()].concat();
    ensure!(all.iter().all(|x| x.is_finite()), format!("finite:{what}"), "{b:?} for {pts:?}");
    ensure!(r >= 0.0 && os.iter().all(|x| *x >= 0.0), format!("sign:{what}"), "{b:?} for {pts:?}");
    if pts.is_empty() {
        return Ok(());
    }
    let max = pts.iter().flatten().fold(0f64, |m, x| m.max(x.abs() as f64));
    let tol = 1e-5 * (max + r) + 1e-20;
    for p in pts {
        let p = [p[0] as f64, p[1] as f64, p[2] as f64];
        let d = [p[0] - c[0], p[1] - c[1], p[2] - c[2]];
        let dist = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
        ensure!(dist <= r + tol, format!("sphere:{what}"), "{p:?} is {dist} from {c:?}, beyond the radius {r}; points {pts:?}");
        for k in 0..3 {
            ensure!(p[k] >= lo[k] && p[k] <= hi[k], format!("box:{what}"), "{p:?} is outside {lo:?}..{hi:?}; points {pts:?}");
            let q = [p[0] - oc[0], p[1] - oc[1], p[2] - oc[2]];
            let along = q[0] * axes[k][0] + q[1] * axes[k][1] + q[2] * axes[k][2];
            ensure!(along.abs() <= os[k] + tol, format!("oriented:{what}"), "{p:?} is outside {ob:?}; points {pts:?}");
        }
    }
    if tight {
        for k in 0..3 {
            let l = pts.iter().map(|p| p[k] as f64).fold(f64::INFINITY, f64::min);
            let h = pts.iter().map(|p| p[k] as f64).fold(f64::NEG_INFINITY, f64::max);
            ensure!(lo[k] == l && hi[k] == h, format!("tight:{what}"), "{lo:?}..{hi:?} for {pts:?}");
        }
    }
    Ok(())
}

/// `groups[i]`: the positions of object i.
fn bounds_case(ctx: &mut Ctx, minor: u16, groups: &[Vec<[f32; 3]>], kind: usize) -> Result<(), Failure> {
    bounds_case_dressed(ctx, minor, groups, kind, &|_, _| {})
}

/// `dress` sets the fields that say nothing about where the vertices are.
fn bounds_case_dressed(ctx: &mut Ctx, minor: u16, groups: &[Vec<[f32; 3]>], kind: usize, dress: &dyn Fn(usize, &mut MeshObjectData)) -> Result<(), Failure> {
    ctx.step();
    ctx.note(|| format!("version 1.{minor}, positions {groups:?}, stored as {kind}"));
    ctx.hash_bytes(format!("{minor}{groups:?}{kind}").as_bytes());
    let data = |g: &Vec<[f32; 3]>| match kind {
        0 => VectorData::Vector3(g.clone()),
        1 => VectorData::Vector4(g.iter().map(|p| [p[0], p[1], p[2], 1.0e9]).collect()),
        _ => VectorData::Vector2(g.iter().map(|p| [p[0], p[1]]).collect()),
    };
    let flat = |g: &Vec<[f32; 3]>| -> Vec<[f32; 3]> { g.iter().map(|p| if kind == 2 { [p[0], p[1], 0.0] } else { *p }).collect() };
    let mut objects: Vec<MeshObjectData> = groups
        .iter()
        .enumerate()
        .map(|(i, g)| MeshObjectData {
            name: ["a_VIS_O_OBJShape", "a_VIS_O_OBJShape", "b", "c"][i].into(),
            subindex: i as u64,
            positions: vec![attr("Position0", data(g))],
            normals: vec![attr("Normal0", VectorData::Vector3(vec![[1e6, 1e6, 1e6]; g.len()]))],
            ..Default::default()
        })
        .collect();
    for (i, o) in objects.iter_mut().enumerate() {
        dress(i, o);
    }
    let d = MeshData { major_version: 1, minor_version: minor, objects };
    let m = normalize(&Mesh::try_from(&d).or_fail("convert")?);
    let mut all = vec![];
    for (o, g) in m.objs.iter().zip(groups) {
        let p = flat(g);
        contains("object", &o.bounds, &p, true)?;
        all.extend(p);
    }
    contains("mesh", &m.bounds, &all, true)?;
    // extended mesh: a sphere for each run of equal names and one around all of them
    let x = ssbh_data::meshex_data::MeshExData::from_mesh_objects(&d.objects);
    let mx = ssbh_lib::formats::meshex::MeshEx::try_from(&x).or_fail("meshex")?;
    let Some(ad) = mx.all_data.as_ref() else { return fail("meshex-all", "no bounding data for everything") };
    let s = &ad.bounding_sphere;
    let inside = |s: &BoundingSphere, p: &[f32; 3], key: &str| -> Result<(), Failure> {
        let c = f3(&s.center);
        let dist = (0..3).map(|k| (p[k] as f64 - c[k]).powi(2)).sum::<f64>().sqrt();
        let m = p.iter().fold(0f64, |m, x| m.max(x.abs() as f64));
        ensure!(c.iter().all(|x| x.is_finite()) && s.radius.is_finite(), format!("finite:{key}"), "{s:?}");
        ensure!(dist <= s.radius as f64 + 2e-5 * (m + s.radius as f64) + 1e-20, key, "{p:?} is {dist} from {c:?}, beyond {}; points {groups:?}", s.radius);
        Ok(())
    };
    for p in &all {
        inside(s, p, "meshex-all")?;
    }
    let mut gi = 0;
    for (i, g) in groups.iter().enumerate() {
        if i > 0 && d.objects[i].name != d.objects[i - 1].name {
            gi += 1;
        }
        let Some(gs) = x.mesh_object_groups.get(gi) else { return fail("meshex-groups", format!("no group {gi}")) };
        for p in flat(g) {
            inside(&gs.bounding_sphere, &p, "meshex-group")?;
        }
    }
    Ok(())
}

/// All non-decreasing sequences are the multisets: choices are offsets from the previous one.
fn multiset(ctx: &mut Ctx, n: usize, m: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut lo = 0;
    for _ in 0..n {
        lo += ctx.free(m - lo);
        v.push(lo);
    }
    v
}

fn c18(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    out.push(scenario("grid", 0, move |ctx: &mut Ctx| {
        let grid: Vec<[f32; 3]> = (0..12).map(|i| [(i % 2) as f32, (i / 2 % 2) as f32 * 2.0 - 1.0, (i / 4) as f32 * 0.5]).collect();
        let n = ctx.free(if thorough { 7 } else { 5 });
        let ids = multiset(ctx, n, grid.len());
        // distribution over objects: all ways to cut the sequence into up to three pieces
        let a = ctx.free(n + 1);
        let b = a + ctx.free(n + 1 - a);
        for variant in 0..11 {
            let f = |p: [f32; 3]| -> [f32; 3] {
                let [x, y, z] = p;
                match variant {
                    0 => p,
                    1 => [x * 1e18, y * 1e18, z * 1e18],
                    2 => [x * 1e-18, y * 1e-18, z * 1e-18],
                    3 => [x + 1e6, y - 1e6, z + 1e6],
                    4 => [x * 1e18, y, z * 1e-18],
                    5 => [-x * 3.0 - 7.0, z, y],
                    6 => [x * 0.1 + 0.3, y * 0.7, z * 1.1],
                    7 => [-x, -y - 5.0, -z - 5.0],
                    8 => [x + 1.0e7, y, z],
                    9 => [-0.0 * x, y * 0.0, z * 0.0],
                    _ => [x * 1e-40, y * 1e-40, z],
                }
            };
            let pts: Vec<[f32; 3]> = ids.iter().map(|i| f(grid[*i])).collect();
            let groups = [pts[..a].to_vec(), pts[a..b].to_vec(), pts[b..].to_vec()];
            ctx.case();
            bounds_case(ctx, MINORS[variant % 3], &groups, [0, 1, 0, 2][(variant + n) % 4])?;
        }
        Ok(n > 0)
    }));
    out.push(scenario("order", 0, |ctx: &mut Ctx| {
        // all sequences (the extremes at every position), all versions and component counts
        let minor = MINORS[ctx.free(3)];
        let kind = ctx.free(3);
        let n = 1 + ctx.free(4);
        let vals = [-2.0f32, 0.0, 3.0];
        let pts: Vec<[f32; 3]> = (0..n).map(|i| { let k = ctx.free(5); [vals[k % 3], vals[(k + i) % 3], vals[(k / 2 + 1) % 3] * 2.0] }).collect();
        let one = ctx.free(2);
        let groups = if one == 0 { vec![pts] } else { vec![vec![], pts[..1].to_vec(), pts[1..].to_vec()] };
        bounds_case(ctx, minor, &groups, kind)?;
        Ok(true)
    }));
    out.push(scenario("fields", 0, |ctx: &mut Ctx| {
        // every other field of an object, none of which may move its vertices or the bounds
        let minor = MINORS[ctx.free(3)];
        let which = ctx.free(3); // the first, the last, both
        let parent = ["", "Trans", "Hip"][ctx.free(3)];
        let name = ctx.free(4);
        let flags = ctx.free(4);
        let bias = [0, i32::MIN, 7][ctx.free(3)];
        let indices = ctx.free(4);
        let rig = ctx.free(3);
        let extra = ctx.free(3);
        let dress = move |i: usize, o: &mut MeshObjectData| {
            if which < 2 && i != which {
                return;
            }
            let n = o.positions[0].data.len();
            o.parent_bone_name = parent.into();
            o.name = [o.name.clone(), String::new(), "b_VIS_O_OBJShape".into(), "Object.001".into()][name].clone();
            o.subindex = i as u64 + if name == 3 { 1 << 40 } else { 0 };
            o.disable_depth_test = flags & 1 != 0;
            o.disable_depth_write = flags & 2 != 0;
            o.sort_bias = bias;
            o.vertex_indices = match indices {
                0 => vec![],
                1 => vec![0, 0, 0], // leaves most vertices out
                2 => (0..n as u32).rev().cycle().take(n / 3 * 3 + 3).collect(),
                _ => vec![n as u32 - 1; 6],
            };
            o.bone_influences = match rig {
                0 => vec![],
                1 => vec![BoneInfluence { bone_name: "Hip".into(), vertex_weights: vec![VertexWeight { vertex_index: 0, vertex_weight: 1.0 }] }],
                _ => vec![BoneInfluence { bone_name: "Hip".into(), vertex_weights: (0..n as u32).map(|v| VertexWeight { vertex_index: v, vertex_weight: 0.0 }).collect() }],
            };
            match extra {
                0 => {}
                1 => {
                    o.normals.clear();
                    o.positions[0].name = "position9".into();
                }
                _ => {
                    o.texture_coordinates = vec![attr("map1", VectorData::Vector2(vec![[1e7, 1e7]; n]))];
                    o.color_sets = vec![attr("colorSet1", VectorData::Vector4(vec![[1.0; 4]; n]))];
                    o.tangents = vec![attr("t", VectorData::Vector4(vec![[-1e7; 4]; n]))];
                    o.binormals = vec![attr("b", VectorData::Vector3(vec![[-1e7; 3]; n]))];
                }
            }
        };
        let groups = [vec![[-3.0f32, 0.0, 1.0], [4.0, 2.0, -9.0], [0.5, 0.5, 0.5]], vec![[10.0f32, -20.0, 30.0], [11.0, -21.0, 29.0]]];
        for kind in [0, 1] {
            ctx.case();
            bounds_case_dressed(ctx, minor, &groups, kind, &dress)?;
            // the objects the other way round
            bounds_case_dressed(ctx, minor, &[groups[1].clone(), groups[0].clone()], kind, &dress)?;
        }
        ctx.hash_bytes(format!("{which}{parent}{name}{flags}{bias}{indices}{rig}{extra}").as_bytes());
        Ok(true)
    }));
    out.push(scenario("many", 0, |ctx: &mut Ctx| {
        // long lists with one outlier at each end or in the middle
        let n = [10usize, 1000, 70000][ctx.free(3)];
        let at = [0, n / 2, n - 1][ctx.free(3)];
        let axis = ctx.free(3);
        let sign = [1.0f32, -1.0][ctx.free(2)];
        let mut pts: Vec<[f32; 3]> = (0..n).map(|i| [(i % 7) as f32, (i % 11) as f32, (i % 5) as f32]).collect();
        pts[at][axis] = sign * 100.0;
        ctx.step();
        ctx.hash_bytes(format!("{n} {at} {axis} {sign}").as_bytes());
        let o = MeshObjectData { name: "o".into(), positions: vec![attr("p", VectorData::Vector3(pts.clone()))], ..Default::default() };
        let m = normalize(&Mesh::try_from(&MeshData { major_version: 1, minor_version: 10, objects: vec![o] }).or_fail("convert")?);
        contains("object", &m.objs[0].bounds, &pts, true).map_err(short)?;
        contains("mesh", &m.bounds, &pts, true).map_err(short)?;
        Ok(true)
    }));
    out
}

fn short(mut f: Failure) -> Failure {
    f.msg.truncate(400);
    f
}

// ---------------------------------------------------------------------------------------------
// C28

fn transform_ref(v: &[f32], m: &[[f32; 4]; 4], w: f64) -> Vec<(f64, f64)> {
    let x = [v[0] as f64, v[1] as f64, v.get(2).copied().unwrap_or(0.0) as f64, w];
    (0..3)
        .map(|r| {
            let t: Vec<f64> = (0..4).map(|c| m[c][r] as f64 * x[c]).collect();
            (t.iter().sum(), t.iter().map(|a| a.abs()).sum::<f64>())
        })
        .collect()
}

fn transform_case(ctx: &mut Ctx, d: &VectorData, m: &[[f32; 4]; 4]) -> Result<(), Failure> {
    ctx.step();
    ctx.note(|| format!("{d:?} under {m:?}"));
    ctx.hash_bytes(format!("{d:?}{m:?}").as_bytes());
    for (name, w, r) in [("points", 1.0, transform_points(d, m)), ("vectors", 0.0, transform_vectors(d, m))] {
        ensure!(r.len() == d.len() && comps(&r) == comps(d), format!("{name}:shape"), "{r:?} from {d:?}");
        for (a, b) in rows(d).iter().zip(rows(&r)) {
            let e = transform_ref(a, m, w);
            for k in 0..b.len() {
                if k == 3 {
                    ensure!(b[3].to_bits() == a[3].to_bits(), format!("{name}:fourth"), "{a:?} became {b:?}");
                } else {
                    ensure!((b[k] as f64 - e[k].0).abs() <= 1e-5 * e[k].1 + 1e-30, format!("{name}:value"), "{a:?} became {b:?} instead of {e:?} under {m:?}");
                }
            }
        }
    }
    Ok(())
}

const IDENTITY: [[f32; 4]; 4] = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];

type V3 = [f64; 3];
fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
fn scale(a: V3, f: f64) -> V3 {
    [a[0] * f, a[1] * f, a[2] * f]
}
fn add(a: &mut V3, b: V3) {
    for k in 0..3 {
        a[k] += b[k];
    }
}
fn d3(a: [f32; 3]) -> V3 {
    [a[0] as f64, a[1] as f64, a[2] as f64]
}

fn as_vec(kind: usize, p: &[[f32; 3]]) -> VectorData {
    match kind {
        0 => VectorData::Vector3(p.to_vec()),
        1 => VectorData::Vector4(p.iter().map(|p| [p[0], p[1], p[2], 77.0]).collect()),
        _ => VectorData::Vector2(p.iter().map(|p| [p[0], p[1]]).collect()),
    }
}

fn normals_case(ctx: &mut Ctx, pos: &[[f32; 3]], idx: &[u32], kind: usize) -> Result<(), Failure> {
    ctx.note(|| format!("positions {pos:?}, triangles {idx:?}, kind {kind}"));
    ctx.hash_bytes(format!("n{pos:?}{idx:?}{kind}").as_bytes());
    let d = as_vec(kind, pos);
    let p: Vec<V3> = pos.iter().map(|p| if kind == 2 { [p[0] as f64, p[1] as f64, 0.0] } else { d3(*p) }).collect();
    let n = calculate_smooth_normals(&d, idx);
    if idx.is_empty() || pos.is_empty() {
        ensure!(n.is_empty(), "normals:empty", "{n:?}");
        return Ok(());
    }
    ensure!(n.len() == pos.len(), "normals:count", "{} for {} vertices", n.len(), pos.len());
    let mut sum = vec![[0f64; 3]; pos.len()];
    let mut mag = vec![0f64; pos.len()];
    for t in idx.chunks_exact(3) {
        let f = cross(sub(p[t[1] as usize], p[t[0] as usize]), sub(p[t[2] as usize], p[t[0] as usize]));
        for v in t {
            add(&mut sum[*v as usize], f);
            mag[*v as usize] += norm(f);
        }
    }
    for i in 0..pos.len() {
        let g = d3(n[i]);
        let l = norm(g);
        ensure!((l - 1.0).abs() < 1e-4 || g == [0.0; 3], "normals:length", "vertex {i}: {g:?} for {pos:?} {idx:?}");
        let s = norm(sum[i]);
        if s > 1e-3 * mag[i] && s > 1e-10 {
            ensure!(norm(sub(g, scale(sum[i], 1.0 / s))) < 1e-3, "normals:direction", "vertex {i}: {g:?} instead of the direction of {:?} for {pos:?} {idx:?}", sum[i]);
        } else if mag[i] == 0.0 {
            ensure!(g == [0.0; 3], "normals:unused", "vertex {i} has {g:?} without a face; {pos:?} {idx:?}");
        }
    }
    // vertices without a triangle change nothing
    let mut q = pos.to_vec();
    q.push([5.0, -3.0, 9.0]);
    let n2 = calculate_smooth_normals(&as_vec(kind, &q), idx);
    ensure!(n2[..pos.len()] == n[..], "normals:unrelated", "{n2:?} instead of {n:?}");
    Ok(())
}

fn tangents_case(ctx: &mut Ctx, pos: &[[f32; 3]], nrm: &[[f32; 3]], uv: &[[f32; 2]], idx: &[u32], kind: usize) -> Result<(), Failure> {
    ctx.note(|| format!("positions {pos:?}, normals {nrm:?}, uvs {uv:?}, triangles {idx:?}, kind {kind}"));
    ctx.hash_bytes(format!("t{pos:?}{nrm:?}{uv:?}{idx:?}{kind}").as_bytes());
    let uvd = match kind {
        0 => VectorData::Vector2(uv.to_vec()),
        1 => VectorData::Vector3(uv.iter().map(|u| [u[0], u[1], 55.0]).collect()),
        _ => VectorData::Vector4(uv.iter().map(|u| [u[0], u[1], 55.0, 66.0]).collect()),
    };
    let k3 = kind.min(1);
    let call = |p: &[[f32; 3]], n: &[[f32; 3]], u: &VectorData, i: &[u32]| calculate_tangents_vec4(&as_vec(k3, p), &as_vec(1 - k3, n), u, i).map_err(|e| e.to_string());
    let t = call(pos, nrm, &uvd, idx);
    if idx.len() % 3 != 0 {
        ensure!(t.is_err(), "tangents:triangles", "{} indices were accepted", idx.len());
        return Ok(());
    }
    if pos.len() != nrm.len() || pos.len() != uv.len() {
        ensure!(t.is_err(), "tangents:lengths", "{}, {} and {} entries were accepted", pos.len(), nrm.len(), uv.len());
        return Ok(());
    }
    let t = t.or_fail("tangents:error")?;
    ensure!(t.len() == pos.len(), "tangents:count", "{} for {} vertices", t.len(), pos.len());
    let mut ts = vec![[0f64; 3]; pos.len()];
    let mut bs = vec![[0f64; 3]; pos.len()];
    let mut clean = vec![true; pos.len()];
    let mut mag = vec![0f64; pos.len()];
    for f in idx.chunks_exact(3) {
        let [a, b, c] = [f[0] as usize, f[1] as usize, f[2] as usize];
        let (pa, pb) = (sub(d3(pos[b]), d3(pos[a])), sub(d3(pos[c]), d3(pos[a])));
        let ua = [uv[b][0] as f64 - uv[a][0] as f64, uv[b][1] as f64 - uv[a][1] as f64];
        let ub = [uv[c][0] as f64 - uv[a][0] as f64, uv[c][1] as f64 - uv[a][1] as f64];
        let det = ua[0] * ub[1] - ub[0] * ua[1];
        let r = if det == 0.0 { 1.0 } else { 1.0 / det };
        let tan = scale(sub(scale(pa, ub[1]), scale(pb, ua[1])), r);
        let bit = scale(sub(scale(pb, ua[0]), scale(pa, ub[0])), r);
        for v in [a, b, c] {
            add(&mut ts[v], tan);
            add(&mut bs[v], bit);
            mag[v] += norm(tan);
            // degenerate faces contribute arbitrary directions
            clean[v] &= det != 0.0 && norm(tan) > 1e-6 && norm(bit) > 1e-6;
        }
    }
    for i in 0..pos.len() {
        let g = [t[i][0] as f64, t[i][1] as f64, t[i][2] as f64];
        ensure!((norm(g) - 1.0).abs() < 1e-4 || g == [0.0; 3], "tangents:length", "vertex {i}: {g:?}");
        ensure!(t[i][3] == 1.0 || t[i][3] == -1.0, "tangents:sign", "vertex {i}: {}", t[i][3]);
        let s = norm(ts[i]);
        if clean[i] && s > 1e-3 * mag[i] && mag[i] > 0.0 {
            ensure!(norm(sub(g, scale(ts[i], 1.0 / s))) < 1e-3, "tangents:direction", "vertex {i}: {g:?} instead of the direction of {:?}", ts[i]);
            let h = dot(cross(ts[i], bs[i]), d3(nrm[i]));
            let hm = s * norm(bs[i]) * norm(d3(nrm[i]));
            if h.abs() > 1e-3 * hm && hm > 0.0 {
                ensure!((t[i][3] as f64) * h > 0.0, "tangents:handedness", "vertex {i}: w {} for handedness {h}", t[i][3]);
            }
        }
    }
    let (mut p2, mut n2) = (pos.to_vec(), nrm.to_vec());
    p2.push([5.0, -3.0, 9.0]);
    n2.push([0.0, 1.0, 0.0]);
    let u2 = match &uvd {
        VectorData::Vector2(v) => VectorData::Vector2(v.iter().copied().chain([[0.3, 0.9]]).collect()),
        VectorData::Vector3(v) => VectorData::Vector3(v.iter().copied().chain([[0.3, 0.9, 0.0]]).collect()),
        VectorData::Vector4(v) => VectorData::Vector4(v.iter().copied().chain([[0.3, 0.9, 0.0, 0.0]]).collect()),
    };
    let t2 = call(&p2, &n2, &u2, idx).or_fail("tangents:error")?;
    ensure!(t2[..pos.len()] == t[..], "tangents:unrelated", "{t2:?} instead of {t:?}");
    Ok(())
}

fn c28(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let vals = [0.0f32, 1.0, -1.0, 2.5, 1e-3, -1000.0];
    out.push(scenario("transform", if thorough { 4 } else { 3 }, move |ctx: &mut Ctx| {
        let bases = [
            IDENTITY,
            [[0.0; 4]; 4],
            [[2.0, 3.0, 5.0, 7.0], [11.0, 13.0, 17.0, 19.0], [23.0, 29.0, 31.0, 37.0], [41.0, 43.0, 47.0, 53.0]],
        ];
        let mut m = bases[ctx.free(3)];
        for c in m.iter_mut() {
            for e in c.iter_mut() {
                let j = ctx.choose(vals.len() + 1);
                if j > 0 {
                    *e = vals[j - 1];
                }
            }
        }
        let cs = 2 + ctx.free(3);
        let mut v = [0.5f32, -2.0, 3.0, 0.25];
        for e in v[..cs].iter_mut() {
            let j = ctx.choose(vals.len() + 1);
            if j > 0 {
                *e = vals[j - 1];
            }
        }
        let d = match cs {
            2 => VectorData::Vector2(vec![[v[0], v[1]]]),
            3 => VectorData::Vector3(vec![[v[0], v[1], v[2]]]),
            _ => VectorData::Vector4(vec![v]),
        };
        transform_case(ctx, &d, &m)?;
        Ok(true)
    }));
    out.push(scenario("transform-lists", 0, move |ctx: &mut Ctx| {
        // every vector on its own, whatever the others are
        let n = ctx.free(5);
        let cs = 2 + ctx.free(3);
        let m = [[2.0, 3.0, 5.0, 7.0], [11.0, 13.0, 17.0, 19.0], [23.0, 29.0, 31.0, 37.0], [41.0, 43.0, 47.0, 53.0]];
        let pal = [[0.0f32, 0.0, 0.0, 0.0], [1.0, -2.0, 3.0, -4.0], [1e20, 1.0, -1e20, 5.0], [f32::INFINITY, 0.0, 0.0, 1.0], [-0.0, 1e-30, 7.0, f32::MAX]];
        let list: Vec<[f32; 4]> = (0..n).map(|_| pal[ctx.free(pal.len())]).collect();
        let make = |l: &[[f32; 4]]| match cs {
            2 => VectorData::Vector2(l.iter().map(|v| [v[0], v[1]]).collect()),
            3 => VectorData::Vector3(l.iter().map(|v| [v[0], v[1], v[2]]).collect()),
            _ => VectorData::Vector4(l.to_vec()),
        };
        ctx.step();
        let d = make(&list);
        ctx.hash_bytes(format!("{d:?}").as_bytes());
        ctx.note(|| format!("{d:?}"));
        ensure!(d.len() == n && d.is_empty() == (n == 0), "len", "{} of {n}", d.len());
        for f in [transform_points, transform_vectors] {
            let all: Vec<Vec<u32>> = rows(&f(&d, &m)).iter().map(|r| r.iter().map(|x| x.to_bits()).collect()).collect();
            let each: Vec<Vec<u32>> = list.iter().flat_map(|v| rows(&f(&make(&[*v]), &m))).map(|r| r.iter().map(|x| x.to_bits()).collect()).collect();
            ensure!(all == each, "independent", "{d:?}: {all:?} together, {each:?} separately");
        }
        for w in [1.0f32, 0.0, -3.5] {
            let x = d.to_vec4_with_w(w);
            let y: Vec<[f32; 4]> = rows(&d).iter().map(|v| [v[0], v[1], v.get(2).copied().unwrap_or(0.0), w]).collect();
            ensure!(format!("{x:?}") == format!("{y:?}"), "widen", "{d:?} became {x:?} instead of {y:?}");
        }
        Ok(n > 0)
    }));
    let shapes: Vec<Vec<[f32; 3]>> = vec![
        vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
        vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [0.0, 1.0, 0.0]],
        vec![[10.0, -3.0, 2.0], [-7.0, 5.0, 0.5], [0.25, 8.0, -4.0], [3.0, 3.0, 9.0]],
        vec![[1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [2.0, 2.0, 2.0], [0.0, 3.0, 1.0]],
        vec![[1000.0, 0.0, 0.0], [0.0, 1000.0, 0.0], [0.0, 0.0, 1000.0], [1000.0, 1000.0, 1000.0]],
    ];
    let sh = shapes.clone();
    out.push(scenario("normals", 0, move |ctx: &mut Ctx| {
        let pos = &sh[ctx.free(sh.len())];
        let nt = ctx.free(4);
        let nv = if nt == 3 && !thorough { 3 } else { 4 };
        let mut idx: Vec<u32> = (0..3 * nt).map(|_| ctx.free(nv) as u32).collect();
        ctx.step();
        let kind = nt % 3;
        for kind in [kind, (kind + 1) % 3] {
            ctx.case();
            normals_case(ctx, &pos[..nv], &idx, kind)?;
        }
        // an incomplete last triangle is not a triangle
        if nt > 0 {
            let n = calculate_smooth_normals(&as_vec(0, &pos[..nv]), &idx);
            idx.push(2);
            ensure!(calculate_smooth_normals(&as_vec(0, &pos[..nv]), &idx) == n, "normals:remainder", "{pos:?} {idx:?}");
        }
        Ok(nt > 0)
    }));
    out.push(scenario("tangents", 0, move |ctx: &mut Ctx| {
        let pos = &shapes[ctx.free(shapes.len())];
        let uvs: [[[f32; 2]; 4]; 4] = [
            [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]],
            [[0.0, 0.0], [0.0, 1.0], [1.0, 0.0], [0.25, 0.5]],
            [[0.5, 0.5], [0.5, 0.5], [0.5, 0.5], [0.5, 0.5]],
            [[0.1, 0.9], [-2.0, 0.3], [4.0, 5.0], [0.7, -0.2]],
        ];
        let uv = &uvs[ctx.free(4)];
        let nrms = [[[0.0f32, 0.0, 1.0]; 4], [[0.0, 0.6, -0.8], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0]]];
        let nrm = &nrms[ctx.free(2)];
        let nt = ctx.free(if thorough { 4 } else { 3 });
        let nv = if nt == 3 { 3 } else { 4 };
        let idx: Vec<u32> = (0..3 * nt).map(|_| ctx.free(nv) as u32).collect();
        for kind in 0..3 {
            ctx.case();
            tangents_case(ctx, pos, nrm, uv, &idx, kind)?;
        }
        Ok(nt > 0)
    }));
    // one vertex in many triangles, many vertices in many triangles
    out.push(scenario("many-triangles", 0, move |ctx: &mut Ctx| {
        const COUNTS: [usize; 19] = [4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 257];
        const LARGE: [usize; 5] = [1000, 4096, 21_846, 65_536, 65_537];
        let n = ctx.free(COUNTS.len() + if thorough { 5 } else { 4 });
        let n = if n < COUNTS.len() { COUNTS[n] } else { LARGE[n - COUNTS.len()] };
        let kind = ctx.free(3);
        let seed = ctx.free(if n > 300 { 1 } else { 4 });
        let form = ctx.free(4);
        let rnd = |i: usize, k: usize| ((i * 2_654_435_761 + k * 40_503 + seed * 97 + i * i % 1009) % 1021) as f32 / 128.0 - 4.0;
        // the last triangles decide as much as the first ones
        let (nv, idx): (usize, Vec<u32>) = match form {
            // a fan around vertex zero, and around the last one
            0 => (n + 2, (0..n as u32).flat_map(|i| [0, i + 1, i + 2]).collect()),
            1 => (n + 3, (0..n as u32).flat_map(|i| [n as u32 + 2, i, i + 1]).collect()),
            // a strip
            2 => (n + 2, (0..n as u32).flat_map(|i| [i, i + 1 + i % 2, i + 2 - i % 2]).collect()),
            // separate triangles in reverse order
            _ => (3 * n, (0..3 * n as u32).rev().collect()),
        };
        let pos: Vec<[f32; 3]> = (0..nv).map(|i| [rnd(i, 1), rnd(i, 2), if kind == 2 { 0.0 } else { rnd(i, 3) }]).collect();
        let uv: Vec<[f32; 2]> = (0..nv).map(|i| [rnd(i, 4), rnd(i, 5)]).collect();
        let nrm: Vec<[f32; 3]> = (0..nv).map(|i| [rnd(i, 6), rnd(i, 7), rnd(i, 8)]).collect();
        normals_case(ctx, &pos, &idx, kind)?;
        tangents_case(ctx, &pos, &nrm, &uv, &idx, kind)?;
        ctx.steps += 2;
        Ok(true)
    }));
    // small and large triangles
    out.push(scenario("scales", 0, move |ctx: &mut Ctx| {
        let all = [[0.0f32, 0.0, 0.0], [1.0, 0.25, 0.0], [-0.5, 1.0, 0.75], [0.125, -1.0, 2.0]];
        let (fp, fu) = ([1e-4f32, 1e-3, 1e-2, 1.0, 1e3, 1e5, 1e8][ctx.free(7)], [1e-3f32, 1e-2, 1.0, 1e2, 1e4][ctx.free(5)]);
        let far = [0.0f32, 1.0, -1000.0][ctx.free(3)] * fp;
        let uvs = [[0.0f32, 0.0], [1.0, 0.25], [-0.5, 1.0], [0.75, -2.0]];
        let pos: Vec<[f32; 3]> = all.iter().map(|p| p.map(|x| x * fp + far)).collect();
        let uv: Vec<[f32; 2]> = uvs.iter().map(|p| p.map(|x| x * fu)).collect();
        let nrm = [[0.0f32, 0.0, 1.0], [0.6, 0.8, 0.0], [0.0, -1.0, 0.0], [0.0, 0.6, 0.8]];
        let nt = 1 + ctx.free(2);
        let idx: Vec<u32> = (0..3 * nt).map(|_| ctx.free(4) as u32).collect();
        let kind = ctx.free(3);
        normals_case(ctx, &pos, &idx, kind)?;
        tangents_case(ctx, &pos, &nrm, &uv, &idx, kind)?;
        ctx.steps += 2;
        Ok(true)
    }));
    // every vector of a long list
    out.push(scenario("many-vectors", 0, move |ctx: &mut Ctx| {
        let n = [255usize, 256, 257, 1023, 1025, 4096, 4097, 65_535, 65_536, 65_537, 131_073][ctx.free(if thorough { 11 } else { 10 })];
        let cs = 2 + ctx.free(3);
        let m = [IDENTITY, [[2.0, 3.0, 5.0, 7.0], [11.0, 13.0, 17.0, 19.0], [23.0, 29.0, 31.0, 37.0], [41.0, 43.0, 47.0, 53.0]], [[0.5, 0.0, 0.0, 0.0], [0.0, 0.0, -2.0, 0.0], [0.0, 1.0, 0.0, 0.0], [3.0, -7.0, 9.0, 1.0]]][ctx.free(3)];
        let x = |i: usize, k: usize| ((i * 37 + k * 11) % 509) as f32 * 0.25 - 60.0;
        let d = match cs {
            2 => VectorData::Vector2((0..n).map(|i| [x(i, 0), x(i, 1)]).collect()),
            3 => VectorData::Vector3((0..n).map(|i| [x(i, 0), x(i, 1), x(i, 2)]).collect()),
            _ => VectorData::Vector4((0..n).map(|i| [x(i, 0), x(i, 1), x(i, 2), x(i, 3)]).collect()),
        };
        transform_case(ctx, &d, &m)?;
        let w = d.to_vec4_with_w(-3.5);
        ensure!(w.len() == n && d.len() == n, "widen:count", "{} of {n}", w.len());
        for (i, (a, b)) in rows(&d).iter().zip(&w).enumerate() {
            ensure!(*b == [a[0], a[1], a.get(2).copied().unwrap_or(0.0), -3.5], "widen:many", "vector {i} of {n}: {a:?} became {b:?}");
        }
        Ok(true)
    }));
    // lists with fewer components are those with zeros, and more components do not matter
    out.push(scenario("component-counts", 0, move |ctx: &mut Ctx| {
        let grid = [[0.0f32, 0.0], [1.0, 0.5], [-0.25, 2.0], [3.0, -1.0]];
        let (cp, cn, cu) = (2 + ctx.free(3), 2 + ctx.free(3), 2 + ctx.free(3));
        let make = |c: usize, l: &[[f32; 3]], extra: f32| match c {
            2 => VectorData::Vector2(l.iter().map(|v| [v[0], v[1]]).collect()),
            3 => VectorData::Vector3(l.to_vec()),
            _ => VectorData::Vector4(l.iter().map(|v| [v[0], v[1], v[2], extra]).collect()),
        };
        let nt = 1 + ctx.free(2);
        let idx: Vec<u32> = (0..3 * nt).map(|_| ctx.free(4) as u32).collect();
        let (shift, flip) = (ctx.free(4), ctx.free(2));
        // third components are zero where a list can not hold them
        let list = |c: usize, by: usize, third: f32| (0..4).map(|i| [grid[(i + by) % 4][0], grid[(i * (1 + 2 * flip) + by) % 4][1], if c == 2 { 0.0 } else { third * i as f32 }]).collect::<Vec<[f32; 3]>>();
        let (p, n, u) = (list(cp, 0, 0.5), list(cn, shift, -1.5), list(cu, 1, 7.0));
        ctx.step();
        ctx.note(|| format!("positions {p:?} ({cp}), normals {n:?} ({cn}), coordinates {u:?} ({cu}), {idx:?}"));
        ctx.hash_bytes(format!("{p:?}{n:?}{u:?}{idx:?}{cp}{cn}{cu}").as_bytes());
        let bits = |l: Vec<[f32; 3]>| format!("{l:?}");
        for extra in [1.0f32, 5.0, f32::NAN] {
            ctx.case();
            let (a, b) = (calculate_smooth_normals(&make(3, &p, 0.0), &idx), calculate_smooth_normals(&make(cp, &p, extra), &idx));
            ensure!(bits(a.clone()) == bits(b.clone()), "components:normals", "{a:?} from three components, {b:?} from {cp}");
            let (a, b) = (
                calculate_tangents_vec4(&make(3, &p, 0.0), &make(3, &n, 0.0), &make(2, &u, 0.0), &idx).or_fail("components:tangents")?,
                calculate_tangents_vec4(&make(cp, &p, extra), &make(cn, &n, extra), &make(cu, &u, extra), &idx).or_fail("components:tangents")?,
            );
            ensure!(format!("{a:?}") == format!("{b:?}"), "components:tangents", "{a:?} from the usual components, {b:?} from {cp}, {cn} and {cu}");
        }
        Ok(true)
    }));
    out.push(scenario("tangent-errors", 0, |ctx: &mut Ctx| {
        let (a, b, c) = (ctx.free(4), ctx.free(4), ctx.free(4));
        let n = ctx.free(8);
        ctx.step();
        let m = a.min(b).min(c) as u32;
        if m == 0 && n > 0 && n % 3 == 0 && a == b && b == c {
            // indices into nothing are not valid input
            return Ok(false);
        }
        let idx: Vec<u32> = (0..n as u32).map(|i| i % m.max(1)).collect();
        let p = vec![[1.0f32, 2.0, 3.0]; a];
        tangents_case(ctx, &p, &vec![[0.0, 0.0, 1.0]; b], &vec![[0.5, 0.25]; c], &idx, (a + b) % 3)?;
        Ok(true)
    }));
    out
}

// ---------------------------------------------------------------------------------------------
// C30

fn to8(d: Dt) -> AttributeDataTypeV8 {
    match d {
        Dt::F2 => AttributeDataTypeV8::Float2,
        Dt::F3 => AttributeDataTypeV8::Float3,
        Dt::F4 => AttributeDataTypeV8::Float4,
        Dt::H4 => AttributeDataTypeV8::HalfFloat4,
        _ => AttributeDataTypeV8::Byte4,
    }
}
fn to10(d: Dt) -> AttributeDataTypeV10 {
    match d {
        Dt::F2 => AttributeDataTypeV10::Float2,
        Dt::F3 => AttributeDataTypeV10::Float3,
        Dt::F4 => AttributeDataTypeV10::Float4,
        Dt::H4 => AttributeDataTypeV10::HalfFloat4,
        Dt::H2 => AttributeDataTypeV10::HalfFloat2,
        Dt::B4 => AttributeDataTypeV10::Byte4,
    }
}

macro_rules! build {
    ($m:expr, $attr:expr, $weights:expr) => {
        MeshInner {
            model_name: "".into(),
            bounding_info: BoundingInfo::default(),
            unk1: 0,
            objects: $m
                .objs
                .iter()
                .map(|o| MeshObject {
                    name: o.name.as_str().into(),
                    subindex: o.sub,
                    parent_bone_name: o.parent.as_str().into(),
                    vertex_count: o.vcount as u32,
                    vertex_index_count: o.icount as u32,
                    unk2: 3,
                    vertex_buffer0_offset: o.voff[0],
                    vertex_buffer1_offset: o.voff[1],
                    vertex_buffer2_offset: o.voff[2],
                    vertex_buffer3_offset: o.voff[3],
                    stride0: o.stride[0],
                    stride1: o.stride[1],
                    stride2: o.stride[2],
                    stride3: o.stride[3],
                    index_buffer_offset: o.ioff as u32,
                    unk8: 4,
                    draw_element_type: if o.u32_indices { DrawElementType::UnsignedInt } else { DrawElementType::UnsignedShort },
                    use_vertex_skinning: o.skinned,
                    sort_bias: o.bias,
                    depth_flags: DepthFlags { disable_depth_write: o.depth.0, disable_depth_test: o.depth.1 },
                    bounding_info: BoundingInfo::default(),
                    attributes: o.attrs.iter().map($attr).collect::<Vec<_>>().into(),
                })
                .collect::<Vec<_>>()
                .into(),
            buffer_sizes: $m.sizes.clone().into(),
            polygon_index_size: $m.index_size,
            vertex_buffers: $m.bufs.iter().map(|b| b.clone().into()).collect::<Vec<ssbh_lib::SsbhByteBuffer>>().into(),
            index_buffer: $m.index.clone().into(),
            rigging_buffers: $m
                .groups
                .iter()
                .map(|g| RiggingGroup {
                    mesh_object_name: g.name.as_str().into(),
                    mesh_object_subindex: g.sub,
                    flags: RiggingFlags { max_influences: g.max, unk1: 1 },
                    buffers: g.bones.iter().map(|b| BoneBuffer { bone_name: b.0.as_str().into(), data: $weights(&b.1) }).collect::<Vec<_>>().into(),
                })
                .collect::<Vec<_>>()
                .into(),
        }
    };
}

fn w8(w: &RWeights) -> ssbh_lib::SsbhArray<VertexWeightV8> {
    w.iter().map(|x| VertexWeightV8 { vertex_index: x.0, vertex_weight: f32::from_bits(x.1) }).collect::<Vec<_>>().into()
}
fn w10(w: &RWeights) -> ssbh_lib::SsbhByteBuffer {
    w.iter().flat_map(|x| (x.0 as u16).to_le_bytes().into_iter().chain(x.1.to_le_bytes())).collect::<Vec<u8>>().into()
}
fn strs(v: &[String]) -> ssbh_lib::SsbhArray<ssbh_lib::SsbhString> {
    v.iter().map(|s| s.as_str().into()).collect::<Vec<ssbh_lib::SsbhString>>().into()
}
fn u9(u: usize) -> AttributeUsageV9 {
    [AttributeUsageV9::Position, AttributeUsageV9::Normal, AttributeUsageV9::Binormal, AttributeUsageV9::Tangent, AttributeUsageV9::TextureCoordinate, AttributeUsageV9::ColorSet][u]
}
fn u8_(u: usize) -> AttributeUsageV8 {
    [AttributeUsageV8::Position, AttributeUsageV8::Normal, AttributeUsageV8::Normal, AttributeUsageV8::Tangent, AttributeUsageV8::TextureCoordinate, AttributeUsageV8::ColorSet][u]
}

pub(super) fn build(m: &RMesh) -> Mesh {
    match m.minor {
        8 => Mesh::V8(build!(m, |a: &RAttr| AttributeV8 { usage: u8_(a.usage), data_type: to8(a.dt), buffer_index: a.buf, buffer_offset: a.off, subindex: a.sub as u32 }, w8)),
        9 => Mesh::V9(build!(m, |a: &RAttr| AttributeV9 { usage: u9(a.usage), data_type: to8(a.dt), buffer_index: a.buf, buffer_offset: a.off, subindex: a.sub, name: "other".into(), attribute_names: strs(a.names.as_ref().unwrap()) }, w8)),
        _ => Mesh::V10(build!(m, |a: &RAttr| AttributeV10 { usage: u9(a.usage), data_type: to10(a.dt), buffer_index: a.buf, buffer_offset: a.off, subindex: a.sub, name: "other".into(), attribute_names: strs(a.names.as_ref().unwrap()) }, w10)),
    }
}

fn foreign(ctx: &mut Ctx, m: &RMesh) -> RunResult {
    ctx.step();
    ctx.note(|| format!("{m:?}"));
    ctx.hash_bytes(format!("{m:?}").as_bytes());
    let mesh = build(m);
    let mut c = Cursor::new(vec![]);
    mesh.write(&mut c).or_fail("write")?;
    let got = MeshData::read(&mut Cursor::new(c.get_ref())).map_err(|e| e.to_string());
    let conv = MeshData::try_from(&mesh).map_err(|e| e.to_string());
    ensure!(format!("{got:?}") == format!("{conv:?}") || (got.is_err() && conv.is_err()), "paths", "reading gives {got:?}, converting gives {conv:?}");
    // everything that is declared has to be there
    let valid = m.objs.iter().all(|o| decode_indices(m, o).is_some() && o.attrs.iter().all(|a| decode_attr(m, o, a).is_some()));
    let r = match (got, valid) {
        (Ok(r), true) => r,
        (Err(_), false) => return Ok(true),
        (Ok(r), false) => return fail("accepted", format!("data outside of the buffers was read as {r:?}")),
        (Err(e), true) => return fail("rejected", format!("a valid mesh was rejected: {e}")),
    };
    ensure!((r.major_version, r.minor_version) == (1, m.minor), "version", "{}.{}", r.major_version, r.minor_version);
    ensure!(r.objects.len() == m.objs.len(), "objects", "{}", r.objects.len());
    for (i, (o, p)) in m.objs.iter().zip(&r.objects).enumerate() {
        ensure!((&o.name, o.sub, &o.parent, o.bias) == (&p.name, p.subindex, &p.parent_bone_name, p.sort_bias), "names", "object {i}");
        ensure!((o.depth.0 != 0, o.depth.1 != 0) == (p.disable_depth_write, p.disable_depth_test), "depth", "object {i}: {:?}", o.depth);
        ensure!(decode_indices(m, o).as_ref() == Some(&p.vertex_indices), "indices", "object {i}: {:?} instead of {:?}", p.vertex_indices, decode_indices(m, o));
        for u in 0..6 {
            let l: Vec<&RAttr> = o.attrs.iter().filter(|a| a.usage == u).collect();
            let g = list(p, u);
            ensure!(l.len() == g.len(), format!("count:{}", USAGES[u]), "object {i}: {} instead of {}", g.len(), l.len());
            for (a, g) in l.iter().zip(g) {
                let want = match &a.names {
                    None => name8(u, a.sub as usize),
                    Some(n) => n.first().cloned().unwrap_or_default(),
                };
                ensure!(g.name == want, "attribute-name", "object {i} {a:?}: {:?}", g.name);
                let w = decode_attr(m, o, a).unwrap();
                let v = rows(&g.data);
                ensure!(comps(&g.data) == a.dt.comps(), "components", "object {i} {a:?}: {}", comps(&g.data));
                ensure!(v.len() == w.len() && v.iter().zip(&w).all(|(x, y)| x.iter().zip(y).all(|(x, y)| if y.is_nan() { x.is_nan() } else { x.to_bits() == y.to_bits() || (a.dt == Dt::B4 && (x - y).abs() < 1e-7) })), format!("value:{:?}", a.dt), "object {i} {a:?}: {v:?} instead of {w:?}");
            }
        }
        let want: Vec<(String, RWeights)> = m.groups.iter().filter(|g| g.name == o.name && g.sub == o.sub).flat_map(|g| g.bones.clone()).collect();
        let got: Vec<(String, RWeights)> = p.bone_influences.iter().map(|b| (b.bone_name.clone(), b.vertex_weights.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect())).collect();
        ensure!(got == want, "weights", "object {i}: {got:?} instead of {want:?}");
    }
    Ok(true)
}

pub(super) fn robj(i: usize) -> RObj {
    RObj { name: format!("o{i}"), sub: i as u64, parent: "p".into(), vcount: 2, icount: 3, voff: [0; 4], stride: [64; 4], ioff: 0, u32_indices: false, skinned: 0, bias: 1, depth: (0, 1), bounds: BoundingInfo::default(), attrs: vec![] }
}
pub(super) fn rmesh(minor: u16, objs: Vec<RObj>) -> RMesh {
    // every byte of every buffer is different from its neighbours; no half or float in them is NaN by accident of position
    let buf = |s: usize, n: usize| (0..n).map(|i| ((i * 37 + s * 11 + i / 7) % 251) as u8).collect::<Vec<u8>>();
    let bufs: Vec<Vec<u8>> = (0..4).map(|q| buf(q, 320 + 8 * q)).collect();
    RMesh { minor, bounds: BoundingInfo::default(), sizes: bufs.iter().map(|b| b.len() as u32).collect(), index_size: 64, index: buf(9, 64), bufs, groups: vec![], objs }
}

fn c30(thorough: bool) -> Vec<Scenario> {
    let k = if thorough { 3 } else { 2 };
    let mut out = vec![];
    out.push(scenario("placement", k, |ctx: &mut Ctx| {
        let minor = MINORS[ctx.free(3)];
        let nobj = 1 + ctx.free(2);
        let mut objs = vec![];
        for i in 0..nobj {
            let mut o = robj(i);
            o.vcount = pick(ctx, &[2usize, 0, 1, 3, 4]);
            o.icount = pick(ctx, &[3usize, 0, 1, 2, 6, 16, 32, 33]);
            o.ioff = pick(ctx, &[0usize, 1, 2, 6, 58, 60, 63, 64]);
            o.u32_indices = ctx.choose(2) == 1;
            o.depth = pick(ctx, &[(0, 1), (1, 0), (0, 0), (1, 1), (255, 0), (0, 2)]);
            o.bias = pick(ctx, &[1, -1, i32::MIN]);
            for q in 0..4 {
                o.voff[q] = pick(ctx, &[16 * q as u32, 0, 1, 100, 192, 300, 319, 320, 400, u32::MAX]);
                o.stride[q] = pick(ctx, &[60 + 4 * q as u32, 0, 1, 12, 63, 100, u32::MAX]);
            }
            for j in 0..4 {
                let usage = pick(ctx, &[[0usize, 1, 4, 5][j], 0, 1, 3, 5]);
                let dt = DTS[(ctx.choose(DTS.len()) + 2 * j) % DTS.len()];
                let dt = if minor != 10 && dt == Dt::H2 { Dt::B4 } else { dt };
                o.attrs.push(RAttr { usage, dt, buf: pick(ctx, &[j as u32, 0, 1, 2, 3, 4, 5, u32::MAX]), off: pick(ctx, &[8 * j as u32, 0, 1, 32, 60, 250, u32::MAX]), sub: pick(ctx, &[0u64, 1, 9]), names: None });
            }
            if minor != 8 {
                for a in o.attrs.iter_mut() {
                    a.names = Some(match ctx.choose(4) {
                        0 => vec!["n".into()],
                        1 => vec![],
                        2 => vec!["x".into(), "y".into()],
                        _ => vec!["".into()],
                    });
                }
            }
            objs.push(o);
        }
        let mut m = rmesh(minor, objs);
        let nb = pick(ctx, &[4usize, 0, 1, 2, 3, 5]);
        m.bufs.resize(nb, vec![1; 200]);
        m.sizes.resize(nb, 0);
        foreign(ctx, &m)
    }));
    out.push(scenario("values", 0, |ctx: &mut Ctx| {
        // every half float and byte code, and a palette of floats, through every type and component
        let minor = MINORS[ctx.free(3)];
        let usage = [0, 1, 3, 4, 5, 2][ctx.free(if minor == 8 { 5 } else { 6 })];
        let dt = DTS[ctx.free(if minor == 10 { 6 } else { 5 })];
        let mut m = rmesh(minor, vec![robj(0)]);
        let bytes: Vec<u8> = match dt.width() {
            2 => (0..=0xffffu16).flat_map(|h| h.to_le_bytes()).collect(),
            1 => (0..4).flat_map(|r| (0..=255u8).map(move |b| b.wrapping_add(r * 77))).collect(),
            _ => (0..=255u32).flat_map(|e| [e << 23, e << 23 | 0x8000_0001, e << 23 | 0x007f_ffff]).flat_map(|b| b.to_le_bytes()).collect(),
        };
        let n = bytes.len() / dt.size();
        m.objs[0].vcount = n;
        m.objs[0].stride[1] = dt.size() as u32;
        m.objs[0].attrs = vec![RAttr { usage, dt, buf: 1, off: 0, sub: 0, names: if minor == 8 { None } else { Some(vec!["n".into()]) } }];
        m.bufs[1] = bytes;
        ctx.cases += (n * dt.comps()) as u64;
        foreign(ctx, &m).map_err(short)
    }));
    out.push(scenario("sizes", 1, |ctx: &mut Ctx| {
        // one long list in a file that is otherwise small: around the limits of 8 and 16 bit numbers
        let minor = MINORS[ctx.free(3)];
        let n = [254usize, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072][ctx.free(12)];
        let u32_indices = ctx.free(2) == 1;
        let mut o = robj(0);
        o.u32_indices = u32_indices;
        let names = |j: usize| if minor == 8 { None } else { Some(vec![format!("n{j}")]) };
        o.attrs.push(RAttr { usage: 0, dt: Dt::F3, buf: 0, off: 0, sub: 0, names: names(0) });
        o.attrs.push(RAttr { usage: 4, dt: Dt::H4, buf: 1, off: 4, sub: 0, names: names(1) });
        o.stride[0] = 12;
        o.stride[1] = 12;
        let mut m = rmesh(minor, vec![o]);
        let fill = |l: usize| (0..l).map(|i| ((i * 37 + i / 7 + i / 65536) % 61) as u8).collect::<Vec<u8>>();
        let bones = |n: usize| vec![("b".to_string(), (0..n).map(|i| (i as u32 % 65536, ((i % 1000) as f32).to_bits())).collect::<RWeights>())];
        let what = ctx.free(7);
        match what {
            0 | 1 => {
                m.objs[0].vcount = n;
                m.bufs[0] = fill(12 * n);
                m.bufs[1] = fill(12 * n);
            }
            2 => m.objs[0].icount = n,
            // the place and not the length
            3 => {
                m.objs[0].voff[0] = 12 * n as u32;
                m.bufs[0] = fill(12 * n + 24);
                m.objs[0].attrs[1].off = n as u32;
                m.objs[0].stride[1] = 3 * n as u32;
                m.bufs[1] = fill(4 * n + 40);
            }
            4 => m.objs[0].ioff = n,
            5 => m.groups.push(RGroup { name: "o0".into(), sub: 0, max: 1, bones: bones(n) }),
            // many short parts
            _ => {
                let n = n.min(300);
                for i in 1..n {
                    m.objs.push(RObj { attrs: m.objs[0].attrs.clone(), stride: m.objs[0].stride, u32_indices, ..robj(i) });
                    m.groups.push(RGroup { name: format!("o{}", n - i), sub: (n - i) as u64, max: 1, bones: bones(1) });
                }
            }
        }
        if what == 1 {
            m.objs[0].icount = n;
        }
        m.index = fill(m.objs[0].ioff + 4 * m.objs[0].icount + 8);
        ctx.cases += n as u64;
        // the same with something else around it
        match ctx.choose(4) {
            1 => m.objs[0].skinned = 1,
            2 => m.objs.push(robj(1)),
            3 => m.objs.insert(0, robj(1)),
            _ => {}
        }
        foreign(ctx, &m).map_err(short)
    }));
    out.push(scenario("attribute-order", 0, move |ctx: &mut Ctx| {
        // all sequences of usages: lists keep file order, whatever is in between
        let minor = MINORS[ctx.free(3)];
        let n = ctx.free(if thorough { 6 } else { 5 });
        let us = if minor == 8 { vec![0usize, 1, 3, 4, 5] } else { vec![0, 1, 2, 3, 4, 5] };
        let mut o = robj(0);
        for j in 0..n {
            let usage = us[ctx.free(us.len())];
            o.attrs.push(RAttr { usage, dt: DTS[(j + usage) % 5], buf: (j % 4) as u32, off: 4 * j as u32, sub: (n - j) as u64, names: if minor == 8 { None } else { Some(vec![format!("n{j}")]) } });
        }
        foreign(ctx, &rmesh(minor, vec![o]))
    }));
    out.push(scenario("group-names", 0, |ctx: &mut Ctx| {
        // names and numbers that are nearly the same belong to different objects
        let minor = MINORS[ctx.free(3)];
        let names = ["", "a", "A", "aShape", "aShapeShape", "Shape", "a_VIS", "a_VISShape", "a_O_OBJ", "a ", " a", "é", "e", "e\u{301}", "a.001", "ab", "a_VIS_O_OBJShape"];
        let subs = [0u64, 1, 256, 65536, 1 << 32, u64::MAX];
        let (x, y) = (ctx.free(names.len()), ctx.free(names.len()));
        let (a, b) = (subs[ctx.free(6)], subs[ctx.free(6)]);
        let mut o = robj(0);
        o.name = names[x].into();
        o.sub = a;
        let mut m = rmesh(minor, vec![o]);
        let bones = |k: u32| vec![("b".to_string(), vec![(k, (k as f32).to_bits())])];
        m.groups.push(RGroup { name: names[y].into(), sub: b, max: 1, bones: bones(1) });
        foreign(ctx, &m)?;
        // and among others
        m.groups.insert(0, RGroup { name: names[x].into(), sub: a, max: 1, bones: bones(2) });
        m.groups.push(RGroup { name: names[(x + 1) % names.len()].into(), sub: a, max: 1, bones: bones(3) });
        foreign(ctx, &m)
    }));
    out.push(scenario("groups", 0, |ctx: &mut Ctx| {
        // groups in any order, missing, split, or for objects that do not exist
        let minor = MINORS[ctx.free(3)];
        let keys = [("o0", 0u64), ("o1", 1), ("o0", 1), ("", 0)];
        let mut m = rmesh(minor, vec![robj(0), robj(1)]);
        let n = ctx.free(4);
        for g in 0..n {
            let (name, sub) = keys[ctx.free(4)];
            let nb = ctx.free(3);
            let f = |k: usize| (k * 9 + g) as f32;
            // names and numbers of weights are free for up to two groups
            let bones = (0..nb)
                .map(|b| {
                    let (name, nw) = if n < 3 { (ctx.free(2), ctx.free(3)) } else { ((b + g) % 2, (b + g) % 3) };
                    (["a", "b"][name].to_string(), (0..nw).map(|w| ([0, 65535, 256][w], f(b + w).to_bits())).collect())
                })
                .collect();
            m.groups.push(RGroup { name: name.into(), sub, max: 1, bones });
        }
        foreign(ctx, &m)
    }));
    out
}
