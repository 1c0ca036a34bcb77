//! C22: extended mesh files.  C23: adjacency files.
use crate::explore::*;
use crate::util::*;
use crate::{ensure, Check};
use ssbh_data::adj_data::*;
use ssbh_data::mesh_data::*;
use ssbh_data::meshex_data::{EntryFlags as DFlags, MeshExData, MeshObjectGroupData};
use ssbh_data::Vector3;
use ssbh_lib::formats::adj::{Adj, AdjEntry};
use ssbh_lib::formats::mesh::BoundingSphere;
use ssbh_lib::formats::meshex as mx;
use ssbh_lib::formats::meshex::MeshEx;
use ssbh_lib::{CString, Ptr64};
use std::io::Cursor;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C22",
            level: "exploration",
            rule: "one case = one extended mesh value (raw or high-level) or one placement of its blocks, compared against an independent encoder; distinct by value and placement",
            assumptions: &["the reference encoder of the extended mesh layout is trusted"],
            scenarios: c22,
            hang_s: 60,
        },
        Check {
            id: "C23",
            level: "exploration",
            rule: "one case = one triangle list with one assignment of positions, or one adjacency value, compared against an independent computation; distinct by input",
            assumptions: &["positions are not NaN and vertex indices are at most 32767"],
            scenarios: c23,
            hang_s: 60,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// reference model of a raw extended mesh file

type Sphere = [u32; 4];
type Str = Option<Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Default)]
struct Mx {
    all: Option<(Sphere, Str)>,
    groups: Option<Vec<(Sphere, Str, Str)>>,
    entries: Option<Vec<(u32, [u32; 3])>>,
    flags: Option<Vec<u16>>,
    unk1: u32,
}

fn u32le(b: &mut Vec<u8>, at: usize, v: u32) {
    if b.len() < at + 4 {
        b.resize(at + 4, 0);
    }
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}
fn u64le(b: &mut Vec<u8>, at: usize, v: u64) {
    if b.len() < at + 8 {
        b.resize(at + 8, 0);
    }
    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Canonical,
    Gaps,
    Unaligned,
    TablesLast,
}

struct Enc {
    b: Vec<u8>,
    next: usize,
    place: Place,
}

impl Enc {
    /// Reserves `size` bytes.
    fn alloc(&mut self, size: usize, align: usize) -> usize {
        match self.place {
            Place::Canonical | Place::TablesLast => self.next = self.next.div_ceil(align) * align,
            Place::Gaps => self.next = (self.next + 5).div_ceil(align) * align + 32,
            Place::Unaligned => self.next += 3,
        }
        let at = self.next;
        self.next += size;
        at
    }
    fn grow(&mut self, to: usize) {
        if self.b.len() < to {
            let fill = if self.place == Place::Canonical { 0 } else { 0xEE };
            self.b.resize(to, fill);
        }
    }
    fn string(&mut self, ptr_at: usize, s: &Str, align: usize) {
        match s {
            None => u64le(&mut self.b, ptr_at, 0),
            Some(s) => {
                let n = if s.is_empty() { align } else { s.len() + 1 };
                let at = self.alloc(n, align);
                self.grow(at + n);
                self.b[at..at + n].fill(0);
                self.b[at..at + s.len()].copy_from_slice(s);
                u64le(&mut self.b, ptr_at, at as u64);
            }
        }
    }
    fn sphere(&mut self, at: usize, s: &Sphere) {
        for (i, v) in s.iter().enumerate() {
            u32le(&mut self.b, at + 4 * i, *v);
        }
    }
}

fn encode(m: &Mx, place: Place) -> Vec<u8> {
    let mut e = Enc { b: vec![0; 52], next: 64, place };
    u32le(&mut e.b, 8, m.entries.as_ref().map_or(0, |x| x.len()) as u32);
    u32le(&mut e.b, 12, m.groups.as_ref().map_or(0, |x| x.len()) as u32);
    u32le(&mut e.b, 48, m.unk1);
    let order: [usize; 4] = if place == Place::TablesLast { [3, 2, 1, 0] } else { [0, 1, 2, 3] };
    for part in order {
        match part {
            0 => {
                if let Some((s, name)) = &m.all {
                    let at = e.alloc(24, 16);
                    e.grow(at + 24);
                    u64le(&mut e.b, 16, at as u64);
                    e.sphere(at, s);
                    e.string(at + 16, name, 16);
                }
            }
            1 => {
                if let Some(g) = &m.groups {
                    let at = e.alloc(32 * g.len(), 16);
                    e.grow(at + 32 * g.len());
                    u64le(&mut e.b, 24, at as u64);
                    for (i, (s, full, name)) in g.iter().enumerate() {
                        let p = at + 32 * i;
                        e.sphere(p, s);
                        e.string(p + 16, full, 4);
                        e.string(p + 24, name, 4);
                    }
                }
            }
            2 => {
                if let Some(x) = &m.entries {
                    let at = e.alloc(16 * x.len(), 16);
                    e.grow(at + 16 * x.len());
                    u64le(&mut e.b, 32, at as u64);
                    for (i, (g, v)) in x.iter().enumerate() {
                        u32le(&mut e.b, at + 16 * i, *g);
                        for k in 0..3 {
                            u32le(&mut e.b, at + 16 * i + 4 + 4 * k, v[k]);
                        }
                    }
                }
            }
            _ => {
                if let Some(x) = &m.flags {
                    let at = e.alloc(2 * x.len(), 16);
                    e.grow(at + 2 * x.len());
                    u64le(&mut e.b, 40, at as u64);
                    for (i, f) in x.iter().enumerate() {
                        e.b[at + 2 * i..at + 2 * i + 2].copy_from_slice(&f.to_le_bytes());
                    }
                }
            }
        }
    }
    let end = e.b.len().div_ceil(16) * 16;
    e.grow(end);
    u64le(&mut e.b, 0, end as u64);
    e.b
}

fn sphere(s: &Sphere) -> BoundingSphere {
    BoundingSphere { center: Vector3::new(f32::from_bits(s[0]), f32::from_bits(s[1]), f32::from_bits(s[2])), radius: f32::from_bits(s[3]) }
}
fn unsphere(s: &BoundingSphere) -> Sphere {
    [s.center.x.to_bits(), s.center.y.to_bits(), s.center.z.to_bits(), s.radius.to_bits()]
}
fn ptr<T>(v: Option<T>) -> Ptr64<T> {
    match v {
        Some(v) => Ptr64::new(v),
        None => Ptr64::null(),
    }
}

fn build(m: &Mx) -> MeshEx {
    fn st<const N: usize>(s: &Str) -> Ptr64<CString<N>> {
        ptr(s.as_ref().map(|s| CString::from_bytes(s)))
    }
    MeshEx {
        all_data: ptr(m.all.as_ref().map(|(s, n)| mx::AllData { bounding_sphere: sphere(s), name: st(n) })),
        mesh_object_groups: ptr(m.groups.as_ref().map(|g| g.iter().map(|(s, f, n)| mx::MeshObjectGroup { bounding_sphere: sphere(s), mesh_object_full_name: st(f), mesh_object_name: st(n) }).collect())),
        entries: ptr(m.entries.as_ref().map(|e| e.iter().map(|(g, v)| mx::MeshEntry { mesh_object_group_index: *g, unk1: Vector3::new(f32::from_bits(v[0]), f32::from_bits(v[1]), f32::from_bits(v[2])) }).collect())),
        entry_flags: ptr(m.flags.as_ref().map(|f| mx::EntryFlags(f.iter().map(|f| mx::EntryFlag::from_bytes(f.to_le_bytes())).collect()))),
        unk1: m.unk1,
    }
}

fn extract(m: &MeshEx) -> Mx {
    fn st<const N: usize>(s: &Ptr64<CString<N>>) -> Str {
        s.as_ref().map(|s| match s.to_str() {
            Some(t) => t.as_bytes().to_vec(),
            None => {
                let mut c = Cursor::new(vec![]);
                ssbh_write::SsbhWrite::write(s, &mut c).unwrap();
                c.into_inner().split(|b| *b == 0).next().unwrap().to_vec()
            }
        })
    }
    Mx {
        all: m.all_data.as_ref().map(|a| (unsphere(&a.bounding_sphere), st(&a.name))),
        groups: m.mesh_object_groups.as_ref().map(|g| g.iter().map(|g| (unsphere(&g.bounding_sphere), st(&g.mesh_object_full_name), st(&g.mesh_object_name))).collect()),
        entries: m.entries.as_ref().map(|e| e.iter().map(|e| (e.mesh_object_group_index, [e.unk1.x.to_bits(), e.unk1.y.to_bits(), e.unk1.z.to_bits()])).collect()),
        flags: m.entry_flags.as_ref().map(|f| f.0.iter().map(|f| u16::from_le_bytes(f.into_bytes())).collect()),
        unk1: m.unk1,
    }
}

fn gen_str(ctx: &mut Ctx) -> Str {
    let lens = [3usize, 0, 1, 2, 4, 5, 7, 8, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 300];
    match ctx.choose(lens.len() + 2) {
        0 => Some(b"Obj".to_vec()),
        1 => None,
        2 => Some(vec![0xff, 0xc3, 0x28]),
        n => Some((0..lens[n - 2]).map(|i| b'a' + (i % 26) as u8).collect()),
    }
}

fn gen_f(ctx: &mut Ctx, d: f32) -> u32 {
    [d.to_bits(), 0, 0x8000_0000, 0x7fc0_0001, f32::MAX.to_bits(), f32::INFINITY.to_bits(), 1][ctx.choose(7)]
}

fn gen_sphere(ctx: &mut Ctx, d: f32) -> Sphere {
    [gen_f(ctx, d), gen_f(ctx, d + 1.0), gen_f(ctx, d + 2.0), gen_f(ctx, d + 3.0)]
}

fn gen_mx(ctx: &mut Ctx) -> Mx {
    let all = if ctx.choose(2) == 0 { Some((gen_sphere(ctx, 0.5), gen_str(ctx))) } else { None };
    let ng = [2usize, 0, 1, 3, 5][ctx.choose(5)];
    let groups = if ctx.choose(2) == 0 { Some((0..ng).map(|i| (gen_sphere(ctx, i as f32), gen_str(ctx), gen_str(ctx))).collect()) } else { None };
    let ne = [3usize, 0, 1, 2, 4, 7, 8, 9, 16, 33][ctx.choose(10)];
    let entries: Option<Vec<_>> = if ne > 0 || ctx.choose(2) == 0 {
        Some(
            (0..ne)
                .map(|i| {
                    let g = [i.min(1) as u32, 0, 1, 7, u32::MAX][ctx.choose(5)];
                    (g, [gen_f(ctx, 0.0), gen_f(ctx, 1.0), gen_f(ctx, i as f32)])
                })
                .collect(),
        )
    } else {
        None
    };
    let flags = if ne > 0 || ctx.choose(2) == 0 {
        Some(
            (0..ne)
                .map(|i| {
                    let bits = [0u16, 1, 2, 8, 16, 32, 0x3b];
                    bits[(i + ctx.choose(7)) % 7]
                })
                .collect(),
        )
    } else {
        None
    };
    let unk1 = [0u32, 1, u32::MAX, 0x0102_0304][ctx.choose(4)];
    Mx { all, groups, entries, flags, unk1 }
}

fn write(m: &MeshEx) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    m.write(&mut c).map_err(|e| e.to_string())?;
    Ok(c.into_inner())
}
fn read(b: &[u8]) -> Result<MeshEx, String> {
    MeshEx::read(&mut Cursor::new(b)).map_err(|e| e.to_string())
}

fn raw_case(ctx: &mut Ctx, m: &Mx) -> RunResult {
    let want = encode(m, Place::Canonical);
    ctx.hash_bytes(&want);
    ctx.note(|| format!("{m:?}"));
    ctx.step();
    let got = write(&build(m)).or_fail("raw:write")?;
    if let Some(d) = bytes_diff(&want, &got) {
        return fail("raw:layout", format!("expected vs written: {d}; value {m:?}"));
    }
    for place in [Place::Canonical, Place::Gaps, Place::Unaligned, Place::TablesLast] {
        ctx.case();
        let b = encode(m, place);
        let v = read(&b).or_fail("raw:read")?;
        let x = extract(&v);
        ensure!(x == *m, "raw:read-value", "{place:?} placement read as {x:?} instead of {m:?}");
        let w = write(&v).or_fail("raw:rewrite")?;
        if let Some(d) = bytes_diff(&want, &w) {
            return fail("raw:rewrite", format!("{place:?}: {d}; value {m:?}"));
        }
    }
    // JSON text holds the same value when it can express it
    let finite = !want.chunks(4).any(|c| c.len() == 4 && !f32::from_le_bytes(c.try_into().unwrap()).is_finite());
    let text = |s: &Str| s.as_ref().map_or(true, |s| std::str::from_utf8(s).is_ok());
    let texts = m.all.as_ref().map_or(true, |a| text(&a.1)) && m.groups.as_ref().map_or(true, |g| g.iter().all(|g| text(&g.1) && text(&g.2)));
    if finite && texts {
        let j = serde_json::to_string(&build(m)).or_fail("raw:json")?;
        let v: MeshEx = serde_json::from_str(&j).or_fail("raw:from-json")?;
        ensure!(extract(&v) == *m, "raw:json-value", "JSON turned {m:?} into {:?}", extract(&v));
    }
    Ok(true)
}

// ---------------------------------------------------------------------------------------------
// high-level extended mesh data

fn expected_groups(m: &Mx) -> Vec<(Sphere, Vec<u8>, Vec<u8>, Vec<(bool, bool)>)> {
    let none = vec![];
    m.groups
        .as_ref()
        .unwrap_or(&none)
        .iter()
        .enumerate()
        .map(|(i, g)| {
            let mut f = vec![];
            for (k, e) in m.entries.as_ref().unwrap_or(&vec![]).iter().enumerate() {
                if e.0 as usize == i {
                    if let Some(b) = m.flags.as_ref().and_then(|x| x.get(k)) {
                        f.push((b & 1 != 0, b & 2 != 0));
                    }
                }
            }
            (g.0, g.1.clone().unwrap_or_default(), g.2.clone().unwrap_or_default(), f)
        })
        .collect()
}

fn data_groups(d: &MeshExData) -> Vec<(Sphere, Vec<u8>, Vec<u8>, Vec<(bool, bool)>)> {
    d.mesh_object_groups
        .iter()
        .map(|g| (unsphere(&g.bounding_sphere), g.mesh_object_full_name.clone().into_bytes(), g.mesh_object_name.clone().into_bytes(), g.entry_flags.iter().map(|f| (f.draw_model, f.cast_shadow)).collect()))
        .collect()
}

fn data_case(ctx: &mut Ctx, d: &MeshExData) -> RunResult {
    ctx.step();
    ctx.note(|| format!("{d:?}"));
    ctx.hash_bytes(format!("{d:?}").as_bytes());
    let mut c = Cursor::new(vec![]);
    d.write(&mut c).or_fail("data:write")?;
    let b = c.into_inner();
    let raw = extract(&read(&b).or_fail("data:raw-read")?);
    // everything but the overall sphere is determined by the data
    let s = raw.all.as_ref().map(|a| a.0).unwrap_or_default();
    let mut want = Mx { all: Some((s, Some(b"All".to_vec()))), groups: Some(vec![]), entries: Some(vec![]), flags: Some(vec![]), unk1: 0 };
    for (i, (sp, full, name, f)) in data_groups(d).into_iter().enumerate() {
        want.groups.as_mut().unwrap().push((sp, Some(full), Some(name)));
        for x in f {
            want.entries.as_mut().unwrap().push((i as u32, [0, 1f32.to_bits(), 0]));
            want.flags.as_mut().unwrap().push(x.0 as u16 | (x.1 as u16) << 1);
        }
    }
    if let Some(x) = bytes_diff(&encode(&want, Place::Canonical), &b) {
        return fail("data:file", format!("expected vs written: {x}; data {d:?}"));
    }
    // the sphere around everything
    let s = s.map(|x| f32::from_bits(x) as f64);
    let spheres: Vec<[f64; 4]> = d.mesh_object_groups.iter().map(|g| unsphere(&g.bounding_sphere).map(|x| f32::from_bits(x) as f64)).collect();
    let most = spheres.iter().flatten().fold(0f64, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b.abs()) });
    // squares and sums of larger numbers are infinite
    if most < 1e15 && spheres.iter().all(|g| g[3] >= 0.0) {
        // the centers are added one after the other
        let rounding = 2e-5 * (1.0 + spheres.len() as f64 / 100.0);
        for g in &spheres {
            let far = (0..3).map(|k| (g[k] - s[k]).powi(2)).sum::<f64>().sqrt() + g[3];
            ensure!(far <= s[3] + rounding * (most + s[3]) + 1e-18, "data:overall", "the group {g:?} reaches out of {s:?}; {} groups", spheres.len());
        }
    }
    let r = MeshExData::read(&mut Cursor::new(&b)).or_fail("data:read")?;
    ensure!(data_groups(&r) == data_groups(d), "data:roundtrip", "{d:?} came back as {r:?}");
    let mut c = Cursor::new(vec![]);
    r.write(&mut c).or_fail("data:rewrite")?;
    if let Some(x) = bytes_diff(&b, c.get_ref()) {
        return fail("data:rewrite", format!("{x}; data {d:?}"));
    }
    Ok(true)
}

fn strip(s: &str) -> String {
    // cut at the first visibility or object tag; otherwise drop one trailing "Shape"
    for (i, _) in s.char_indices() {
        if s[i..].starts_with("_VIS") || s[i..].starts_with("_O_") {
            return s[..i].to_string();
        }
    }
    s.strip_suffix("Shape").unwrap_or(s).to_string()
}

fn object(name: &str, sub: u64, pts: Vec<[f32; 3]>) -> MeshObjectData {
    MeshObjectData {
        name: name.into(),
        subindex: sub,
        positions: if pts.is_empty() { vec![] } else { vec![AttributeData { name: "Position0".into(), data: VectorData::Vector3(pts) }] },
        ..Default::default()
    }
}

fn c22(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    out.push(scenario("raw", if thorough { 3 } else { 2 }, |ctx: &mut Ctx| {
        let m = gen_mx(ctx);
        raw_case(ctx, &m)
    }));
    out.push(scenario("raw-nulls", 0, |ctx: &mut Ctx| {
        // all combinations of null, empty and present parts
        let mut m = Mx { unk1: 9, ..Default::default() };
        let strs: [Str; 3] = [Some(b"name".to_vec()), None, Some(vec![])];
        m.all = match ctx.free(4) {
            0 => None,
            n => Some(([0; 4], strs[n - 1].clone())),
        };
        m.groups = match ctx.free(8) {
            0 => None,
            1 => Some(vec![]),
            n => {
                let g = |i: usize| ([1, 2, 3, 4], strs[i % 3].clone(), strs[(i / 3 + 1) % 3].clone());
                Some((0..1 + n % 3).map(|k| g(k * 2 + n)).collect())
            }
        };
        let ne = ctx.free(3);
        m.entries = if ne == 0 && ctx.free(2) == 0 { None } else { Some((0..ne).map(|i| (i as u32, [0; 3])).collect()) };
        m.flags = if ne == 0 && ctx.free(2) == 0 { None } else { Some((0..ne).map(|i| i as u16).collect()) };
        raw_case(ctx, &m)
    }));
    out.push(scenario("raw-flags", 0, |ctx: &mut Ctx| {
        let hi = ctx.free(256) as u16;
        let m = Mx { entries: Some((0..256).map(|_| (0, [0; 3])).collect()), flags: Some((0..256u16).map(|l| hi << 8 | l).collect()), ..Default::default() };
        // the named accessors look at the documented bits
        for f in m.flags.as_ref().unwrap() {
            let e = mx::EntryFlag::from_bytes(f.to_le_bytes());
            let got = [e.draw_model(), e.cast_shadow(), e.unk3(), e.unk4(), e.unk5()];
            let want = [0, 1, 3, 4, 5].map(|b| f >> b & 1 == 1);
            ensure!(got == want, "flags:bits", "flags {f:#x} read as {got:?}");
        }
        raw_case(ctx, &m)
    }));
    out.push(scenario("inconsistent", 0, |ctx: &mut Ctx| {
        let counts = [0usize, 1, 2, 3, 4, 15, 255, 256, 257, 65536, 65537];
        let (e, f) = (counts[ctx.free(counts.len())], counts[ctx.free(counts.len())]);
        let (ne, nf) = (ctx.free(2) == 1, ctx.free(2) == 1);
        let mut m = Mx::default();
        let e = if ne { 0 } else { e };
        let f = if nf { 0 } else { f };
        m.entries = if ne { None } else { Some(vec![(0, [0; 3]); e]) };
        m.flags = if nf { None } else { Some(vec![0; f]) };
        ctx.step();
        ctx.hash_u64((e * 100_000 + f) as u64 * 4 + ne as u64 * 2 + nf as u64);
        ctx.note(|| format!("{e} entries (null: {ne}), {f} flags (null: {nf})"));
        let mut c = Cursor::new(vec![]);
        let r = build(&m).write(&mut c);
        if e == f {
            ensure!(r.is_ok(), "inconsistent:rejected", "{e} entries and {f} flags were rejected: {:?}", r.err());
            if let Some(d) = bytes_diff(&encode(&m, Place::Canonical), c.get_ref()) {
                return fail("inconsistent:layout", d);
            }
        } else {
            ensure!(r.is_err(), "inconsistent:accepted", "{e} entries and {f} flags were written");
            ensure!(c.get_ref().is_empty(), "inconsistent:partial", "{} bytes were written before the error", c.get_ref().len());
        }
        Ok(true)
    }));
    // counts and group indices beyond one and two bytes
    out.push(scenario("raw-many", 0, |ctx: &mut Ctx| {
        let counts = [127usize, 128, 255, 256, 257, 300, 1025, 65535, 65536, 65537];
        let (ng, ne) = (counts[ctx.free(10)], counts[ctx.free(10)]);
        let shift = ctx.free(2);
        let m = Mx {
            groups: Some((0..ng as u32).map(|i| ([i; 4], Some(format!("f{i}").into_bytes()), Some(format!("n{}", i % 7).into_bytes()))).collect()),
            entries: Some((0..ne).map(|i| (((i + shift * 300) % ng) as u32, [0; 3])).collect()),
            flags: Some((0..ne).map(|i| (i % 4) as u16).collect()),
            ..Default::default()
        };
        ctx.hash_u64((ng * 100_000 + ne) as u64 * 2 + shift as u64);
        ctx.step();
        ctx.note(|| format!("{ng} groups, {ne} entries, shift {shift}"));
        let want = encode(&m, Place::Canonical);
        let got = write(&build(&m)).or_fail("raw:write")?;
        if let Some(d) = bytes_diff(&want, &got) {
            return fail("raw:layout", format!("{ng} groups, {ne} entries: {d}"));
        }
        let v = read(&want).or_fail("raw:read")?;
        ensure!(extract(&v) == m, "raw:read-value", "{ng} groups and {ne} entries are read differently");
        // the data layer looks at every entry for every group
        if ng * ne <= 2_000_000 {
            let d = MeshExData::from(&v);
            ensure!(data_groups(&d) == expected_groups(&m), "data:entry-groups", "{ng} groups and {ne} entries: other flags");
        }
        Ok(true)
    }));
    out.push(scenario("data-many", 0, |ctx: &mut Ctx| {
        let counts = [127usize, 128, 129, 255, 256, 257, 300, 1025, 65535, 65536, 65537];
        let ng = counts[ctx.free(11)];
        let style = ctx.free(4);
        // flags in every group (or every third), or only in the last ones
        let flags = |i: usize| match style {
            0 if ng <= 1025 => 1,
            1 if ng <= 1025 => (i % 3 == 0) as usize * 2,
            2 => (i + 2 >= ng) as usize,
            _ => (i + 1 == ng) as usize * [257, 40][(ng > 2000) as usize],
        };
        let groups = (0..ng)
            .map(|i| MeshObjectGroupData {
                bounding_sphere: BoundingSphere { center: Vector3::new(i as f32, -1.0, 2.0), radius: 1.0 },
                mesh_object_full_name: format!("g{i}_VIS"),
                mesh_object_name: format!("g{i}"),
                entry_flags: (0..flags(i)).map(|k| DFlags { draw_model: (k + i) % 2 == 0, cast_shadow: (k + i) % 3 == 0 }).collect(),
            })
            .collect();
        data_case(ctx, &MeshExData { mesh_object_groups: groups }).map_err(|mut f| {
            f.msg.truncate(400);
            f
        })
    }));
    out.push(scenario("data-from-raw", if thorough { 3 } else { 2 }, |ctx: &mut Ctx| {
        let m = gen_mx(ctx);
        ctx.step();
        ctx.note(|| format!("{m:?}"));
        ctx.hash_bytes(format!("{m:?}").as_bytes());
        let d = MeshExData::read(&mut Cursor::new(encode(&m, Place::Canonical))).or_fail("data:read")?;
        let (got, mut want) = (data_groups(&d), expected_groups(&m));
        for g in &mut want {
            // documented: text that is not UTF-8 becomes an empty string
            g.1 = String::from_utf8(g.1.clone()).unwrap_or_default().into_bytes();
            g.2 = String::from_utf8(g.2.clone()).unwrap_or_default().into_bytes();
        }
        ensure!(got == want, "data:read-value", "{got:?} instead of {want:?} for {m:?}");
        Ok(true)
    }));
    out.push(scenario("data-entry-groups", 0, |ctx: &mut Ctx| {
        // all assignments of up to five entries to three groups (or none)
        let ne = ctx.free(6);
        let entries: Vec<(u32, [u32; 3])> = (0..ne).map(|_| (ctx.free(4) as u32, [0; 3])).collect();
        let m = Mx { groups: Some((0..3).map(|i| ([i; 4], Some(vec![b'a' + i as u8]), Some(vec![b'A' + i as u8]))).collect()), flags: Some((0..ne as u16).map(|i| (i + 1) & 3).collect()), entries: Some(entries), ..Default::default() };
        ctx.step();
        ctx.hash_bytes(format!("{m:?}").as_bytes());
        let d = MeshExData::read(&mut Cursor::new(encode(&m, Place::Canonical))).or_fail("data:read")?;
        let (got, want) = (data_groups(&d), expected_groups(&m));
        ensure!(got == want, "data:entry-groups", "{got:?} instead of {want:?}");
        Ok(true)
    }));
    out.push(scenario("data-shapes", 0, move |ctx: &mut Ctx| {
        // all numbers of groups and of entries per group, all flags
        let ng = ctx.free(4);
        let mut groups = vec![];
        for i in 0..ng {
            let nf = ctx.free(if thorough { 4 } else { 3 });
            groups.push(MeshObjectGroupData {
                bounding_sphere: BoundingSphere { center: Vector3::new(i as f32, -1.0, 2.0 * i as f32), radius: 1.0 + i as f32 },
                mesh_object_full_name: format!("g{i}_VIS_O_OBJShape"),
                mesh_object_name: format!("g{i}"),
                entry_flags: (0..nf).map(|_| { let b = ctx.free(4); DFlags { draw_model: b & 1 != 0, cast_shadow: b & 2 != 0 } }).collect(),
            });
        }
        data_case(ctx, &MeshExData { mesh_object_groups: groups })
    }));
    out.push(scenario("data-values", if thorough { 3 } else { 2 }, |ctx: &mut Ctx| {
        let ng = [2usize, 1, 3, 0, 9][ctx.choose(5)];
        let mut groups = vec![];
        for i in 0..ng {
            let st = |ctx: &mut Ctx| loop {
                if let Some(Ok(s)) = gen_str(ctx).map(String::from_utf8) {
                    break s;
                } else {
                    break "é€".to_string();
                }
            };
            let f = |ctx: &mut Ctx, d: f32| [d, 0.0, -0.0, f32::MAX, f32::MIN_POSITIVE, -1.5e10][ctx.choose(6)];
            groups.push(MeshObjectGroupData {
                bounding_sphere: BoundingSphere { center: Vector3::new(f(ctx, i as f32), f(ctx, 1.0), f(ctx, -1.0)), radius: f(ctx, 2.0) },
                mesh_object_full_name: st(ctx),
                mesh_object_name: st(ctx),
                entry_flags: (0..[1usize, 0, 2, 17, 300][ctx.choose(5)]).map(|k| DFlags { draw_model: k % 2 == 0, cast_shadow: k % 3 == 0 }).collect(),
            });
        }
        data_case(ctx, &MeshExData { mesh_object_groups: groups })
    }));
    out.push(scenario("overall", 0, move |ctx: &mut Ctx| {
        let n = ctx.free(4);
        let groups = (0..n)
            .map(|i| {
                let c = [[0.0f32, 0.0, 0.0], [50.0, -1.0, 0.0], [-3.0, 0.0, 1e-3], [0.0, 1e6, 2.0], [1e-6, -2e-6, 1e-6], [7.0, 7.0, -7.0]][ctx.free(if thorough { 6 } else { 4 })];
                let radius = [1.0f32, 0.0, 1e-4, 60.0, 1e7][ctx.free(5)];
                MeshObjectGroupData {
                    bounding_sphere: BoundingSphere { center: Vector3::new(c[0], c[1], c[2]), radius },
                    mesh_object_full_name: format!("g{i}"),
                    mesh_object_name: format!("g{}", i / 2),
                    entry_flags: vec![DFlags { draw_model: i != 1, cast_shadow: i != 2 }; [1, 0, 2][i]],
                }
            })
            .collect();
        data_case(ctx, &MeshExData { mesh_object_groups: groups })
    }));
    out.push(scenario("from-mesh-objects", 0, |ctx: &mut Ctx| {
        // runs of equally named objects
        let n = ctx.free(5);
        let mut objs: Vec<MeshObjectData> = vec![];
        let mut run = 0;
        let names = ["face_VIS_O_OBJShape", "bodyShape", "x"];
        for i in 0..n {
            if i > 0 && run < 2 && ctx.free(2) == 1 {
                run += 1;
            }
            let pts: Vec<[f32; 3]> = (0..ctx.free(4)).map(|k| [k as f32 * 2.0 - i as f32, (k * k) as f32, i as f32]).collect();
            objs.push(object(names[run], i as u64, pts));
        }
        ctx.step();
        ctx.note(|| format!("{objs:?}"));
        ctx.hash_bytes(format!("{objs:?}").as_bytes());
        let d = MeshExData::from_mesh_objects(&objs);
        let mut want: Vec<(String, Vec<[f32; 3]>, usize)> = vec![];
        for o in &objs {
            if want.last().map_or(true, |w| w.0 != o.name) {
                want.push((o.name.clone(), vec![], 0));
            }
            let w = want.last_mut().unwrap();
            w.2 += 1;
            if let Some(AttributeData { data: VectorData::Vector3(v), .. }) = o.positions.first() {
                w.1.extend(v);
            }
        }
        ensure!(d.mesh_object_groups.len() == want.len(), "from-objects:groups", "{} groups instead of {}", d.mesh_object_groups.len(), want.len());
        for (g, w) in d.mesh_object_groups.iter().zip(&want) {
            ensure!(g.mesh_object_full_name == w.0 && g.mesh_object_name == strip(&w.0), "from-objects:names", "{g:?} for {w:?}");
            ensure!(g.entry_flags == vec![DFlags { draw_model: true, cast_shadow: true }; w.2], "from-objects:entries", "{g:?} for {w:?}");
            let s = &g.bounding_sphere;
            for p in &w.1 {
                let dist = ((p[0] - s.center.x).powi(2) + (p[1] - s.center.y).powi(2) + (p[2] - s.center.z).powi(2)).sqrt();
                ensure!(dist <= s.radius * 1.00001 + 1e-5, "from-objects:sphere", "{p:?} is outside of {s:?}");
            }
        }
        data_case(ctx, &d)
    }));
    out.push(scenario("strip-names", 0, |ctx: &mut Ctx| {
        let toks = ["a", "_VIS", "_O_", "Shape", "_", "VIS", "é", "O_"];
        let n = ctx.free(5);
        let s: String = (0..n).map(|_| toks[ctx.free(toks.len())]).collect();
        ctx.step();
        ctx.hash_bytes(s.as_bytes());
        let d = MeshExData::from_mesh_objects(&[object(&s, 0, vec![[0.0; 3]])]);
        let g = &d.mesh_object_groups[0];
        ensure!(g.mesh_object_name == strip(&s) && g.mesh_object_full_name == s, "strip", "{s:?} became {:?}", g.mesh_object_name);
        Ok(true)
    }));
    out
}

// ---------------------------------------------------------------------------------------------
// adjacency

const PER_VERTEX: usize = 18;

/// Straight from the definition, one vertex at a time.
fn adjacency(same: &dyn Fn(usize, usize) -> bool, n: usize, tris: &[u32]) -> Vec<i16> {
    let mut out = vec![];
    for i in 0..n {
        let mut l: Vec<i16> = vec![];
        for d in (0..n).filter(|d| same(i, *d)) {
            for t in tris.chunks(3) {
                for k in 0..3 {
                    if t.len() == 3 && t[k] as usize == d {
                        l.push(t[(k + 1) % 3] as i16);
                        l.push(t[(k + 2) % 3] as i16);
                    }
                }
            }
        }
        l.truncate(PER_VERTEX);
        while l.len() < PER_VERTEX {
            l.push(-1);
        }
        out.extend(l);
    }
    out
}

fn adj_case(ctx: &mut Ctx, pos: &[[f32; 3]], tris: &[u32], kind: usize) -> RunResult {
    ctx.step();
    ctx.note(|| format!("positions {pos:?}, triangles {tris:?}, kind {kind}"));
    ctx.hash_bytes(format!("{pos:?}{tris:?}{kind}").as_bytes());
    let want = adjacency(&|a, b| pos[a] == pos[b], pos.len(), tris);
    let data = match kind {
        0 => VectorData::Vector3(pos.to_vec()),
        1 => VectorData::Vector2(pos.iter().map(|p| [p[0] + 64.0 * p[1], p[2]]).collect()),
        _ => VectorData::Vector4(pos.iter().map(|p| [1.0, p[0], p[1], p[2]]).collect()),
    };
    let mut o = object("o", 0, vec![]);
    o.vertex_indices = tris.to_vec();
    o.positions = vec![AttributeData { name: "p".into(), data: data.clone() }, AttributeData { name: "q".into(), data: VectorData::Vector3(vec![[0.0; 3]; pos.len()]) }];
    let a = AdjEntryData::from_triangle_faces(3, pos, tris);
    let b = AdjEntryData::from_vector_data(3, &data, tris);
    let c = AdjEntryData::from_mesh_object(3, &o);
    for (n, x) in [("faces", a), ("vector", b), ("object", c)] {
        ensure!(x.mesh_object_index == 3, "adj:index", "{n}: index {}", x.mesh_object_index);
        ensure!(x.vertex_adjacency == want, format!("adj:{n}"), "{:?} instead of {want:?} for positions {pos:?} and triangles {tris:?}", x.vertex_adjacency);
    }
    Ok(!tris.is_empty())
}

fn adj_encode(entries: &[(u32, u32)], buf: &[i16]) -> Vec<u8> {
    let mut b = (entries.len() as u32).to_le_bytes().to_vec();
    for e in entries {
        b.extend(e.0.to_le_bytes());
        b.extend(e.1.to_le_bytes());
    }
    for i in buf {
        b.extend(i.to_le_bytes());
    }
    b
}

fn c23(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    out.push(scenario("triangles", 0, move |ctx: &mut Ctx| {
        // all triangle lists and all coincidences of positions
        let n = ctx.free(6);
        let max = if n == 0 { 0 } else if n <= 3 || thorough { 3 } else { 2 };
        let nt = ctx.free(max + 1);
        let tris: Vec<u32> = (0..3 * nt).map(|_| ctx.free(n) as u32).collect();
        // one execution = all ways in which positions coincide (set partitions)
        fn parts(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if cur.len() == n {
                out.push(cur.clone());
                return;
            }
            let m = cur.iter().max().map_or(0, |m| m + 1);
            for c in 0..=m {
                cur.push(c);
                parts(n, cur, out);
                cur.pop();
            }
        }
        let mut all = vec![];
        parts(n, &mut vec![], &mut all);
        for (i, p) in all.iter().enumerate() {
            let grid = [[0.0f32, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, -1.0]];
            let mut pos: Vec<[f32; 3]> = p.iter().map(|c| grid[*c]).collect();
            // negative zero is the same position
            if let Some(x) = pos.last_mut() {
                for v in x.iter_mut() {
                    if *v == 0.0 {
                        *v = -0.0;
                    }
                }
            }
            ctx.case();
            adj_case(ctx, &pos, &tris, i % 3)?;
        }
        Ok(nt > 0)
    }));
    out.push(scenario("valence", 0, |ctx: &mut Ctx| {
        // fans around one vertex or split over coinciding vertices up to and beyond the limit
        let n = ctx.free(13);
        let split = ctx.free(3) + 1;
        let extra = ctx.free(3);
        let mut pos = vec![[0.0f32; 3]; split];
        let mut tris = vec![];
        for i in 0..n {
            let v = pos.len() as u32;
            pos.push([i as f32 + 1.0, 0.0, 0.0]);
            pos.push([i as f32 + 1.0, 1.0, 0.0]);
            let c = (i % split) as u32;
            let t = [[c, v, v + 1], [v + 1, c, v], [v, v + 1, c]][(i + extra) % 3];
            tris.extend(t);
        }
        for _ in 0..extra {
            pos.push([9.0, 9.0, 9.0]);
        }
        adj_case(ctx, &pos, &tris, extra)
    }));
    out.push(scenario("large", 0, |ctx: &mut Ctx| {
        // long strips: indices beyond one byte
        let n = [100usize, 300, 1000][ctx.free(3)];
        let pos: Vec<[f32; 3]> = (0..n).map(|i| [(i / 2) as f32, (i % 2) as f32, if i % 97 == 0 { 5.0 } else { 0.0 }]).collect();
        let tris: Vec<u32> = (0..n as u32 - 2).flat_map(|i| if i % 2 == 0 { [i, i + 1, i + 2] } else { [i + 1, i, i + 2] }).collect();
        adj_case(ctx, &pos, &tris, 0)
    }));
    out.push(scenario("distant", 0, move |ctx: &mut Ctx| {
        // two vertices (or three) at one place, however far apart they are in the list
        let sizes: &[usize] = if thorough { &[20, 40, 100, 257, 300, 520, 1030, 2100, 4200, 8300, 16500, 32767] } else { &[20, 40, 100, 257, 300, 520, 1030, 2100, 4200] };
        let n = sizes[ctx.free(sizes.len())];
        let (a, b) = [(0, n - 1), (1, n / 2), (n / 2, n - 1), (n - 2, n - 1), (0, 1)][ctx.free(5)];
        let third = ctx.free(2) == 1;
        let back = ctx.free(2) == 1;
        let mut pos: Vec<[f32; 3]> = (0..n).map(|i| [i as f32, 0.0, 1.0]).collect();
        pos[b] = pos[a];
        if third {
            pos[(a + b) / 2] = pos[a];
        }
        let near = |v: usize| -> [u32; 3] { [v as u32, ((v + 3) % n) as u32, ((v + n - 4) % n) as u32] };
        let mut faces = vec![near(a), near(b), near((a + b) / 2), near(n / 3), near(n - 5)];
        if back {
            faces.reverse();
        }
        adj_case(ctx, &pos, &faces.concat(), 0).map_err(|mut f| {
            f.msg.truncate(400);
            f
        })
    }));
    out.push(scenario("remainder", 0, |ctx: &mut Ctx| {
        // indices after the last complete triangle do not matter
        let k = ctx.free(8);
        let idx: Vec<u32> = (0..k as u32).map(|i| (i * 2 + 1) % 4).collect();
        adj_case(ctx, &[[0.0; 3], [1.0, 0.0, 0.0], [0.0; 3], [2.0, 0.0, 0.0]], &idx[..k / 3 * 3], 0)?;
        let pos = [[0.0f32; 3], [1.0, 0.0, 0.0], [0.0; 3], [2.0, 0.0, 0.0]];
        let x = AdjEntryData::from_triangle_faces(0, &pos, &idx);
        let y = AdjEntryData::from_triangle_faces(0, &pos, &idx[..k / 3 * 3]);
        ensure!(x == y, "adj:remainder", "{idx:?}");
        Ok(true)
    }));
    out.push(scenario("no-positions", 0, |_: &mut Ctx| {
        let x = AdjEntryData::from_mesh_object(7, &object("o", 0, vec![]));
        ensure!(x == AdjEntryData { mesh_object_index: 7, vertex_adjacency: vec![] }, "adj:no-positions", "{x:?}");
        Ok(true)
    }));
    out.push(scenario("data", 0, move |ctx: &mut Ctx| {
        // all numbers of entries and list lengths
        let ne = ctx.free(if thorough { 6 } else { 5 });
        let lens = [0usize, 1, 2, 3, 18];
        let idx = [0usize, 1, 5, 255, 65536, u32::MAX as usize];
        let mut entries = vec![];
        for k in 0..ne {
            let l = lens[ctx.free(lens.len())];
            let m = idx[(ctx.free(2) * 3 + k) % idx.len()];
            let vals = [-1i16, 0, 1, i16::MAX, i16::MIN, 0x0102];
            entries.push(AdjEntryData { mesh_object_index: m, vertex_adjacency: (0..l).map(|i| vals[(i + k) % 6]).collect() });
        }
        ctx.step();
        let d = AdjData { entries };
        ctx.note(|| format!("{d:?}"));
        ctx.hash_bytes(format!("{d:?}").as_bytes());
        let mut off = 0u32;
        let mut es = vec![];
        let mut buf = vec![];
        for e in &d.entries {
            es.push((e.mesh_object_index as u32, off));
            off += 2 * e.vertex_adjacency.len() as u32;
            buf.extend(&e.vertex_adjacency);
        }
        let mut c = Cursor::new(vec![]);
        d.write(&mut c).or_fail("adj:write")?;
        if let Some(x) = bytes_diff(&adj_encode(&es, &buf), c.get_ref()) {
            return fail("adj:file", format!("{x}; data {d:?}"));
        }
        let r = AdjData::read(&mut Cursor::new(c.get_ref())).or_fail("adj:read")?;
        ensure!(r == d, "adj:roundtrip", "{d:?} came back as {r:?}");
        let j: AdjData = serde_json::from_str(&serde_json::to_string(&d).unwrap()).or_fail("adj:json")?;
        ensure!(j == d, "adj:json", "{d:?} became {j:?}");
        Ok(true)
    }));
    out.push(scenario("data-long", 0, |ctx: &mut Ctx| {
        let n = [32767usize, 32768, 40000, 200_000][ctx.free(4)];
        let d = AdjData { entries: vec![AdjEntryData { mesh_object_index: 1, vertex_adjacency: (0..n).map(|i| i as i16).collect() }, AdjEntryData { mesh_object_index: 2, vertex_adjacency: vec![7; 5] }] };
        ctx.hash_u64(n as u64);
        let mut c = Cursor::new(vec![]);
        d.write(&mut c).or_fail("adj:write")?;
        ensure!(c.get_ref()[16..20] == (2 * n as u32).to_le_bytes(), "adj:offset", "second offset is {:?} for {n} indices", &c.get_ref()[16..20]);
        let r = AdjData::read(&mut Cursor::new(c.get_ref())).or_fail("adj:read")?;
        ensure!(r == d, "adj:roundtrip-long", "{n} indices came back differently");
        Ok(true)
    }));
    out.push(scenario("raw", 0, |ctx: &mut Ctx| {
        let ne = ctx.free(4);
        let vals = [0u32, 1, 2, 255, 256, u32::MAX, 0x0102_0304];
        let entries: Vec<(u32, u32)> = (0..ne).map(|_| (vals[ctx.free(3) * 3], vals[ctx.free(7)])).collect();
        let buf: Vec<i16> = [-1i16, 0, 1, i16::MIN, 0x0102].iter().cycle().take(ctx.free(6)).copied().collect();
        let tail = ctx.free(2);
        let mut b = adj_encode(&entries, &buf);
        ctx.step();
        ctx.hash_bytes(&b);
        ctx.note(|| format!("{entries:?} {buf:?}"));
        let a = Adj { entries: entries.iter().map(|e| AdjEntry { mesh_object_index: e.0, index_buffer_offset: e.1 }).collect(), index_buffer: buf.clone() };
        let mut c = Cursor::new(vec![]);
        a.write(&mut c).or_fail("raw:write")?;
        if let Some(x) = bytes_diff(&b, c.get_ref()) {
            return fail("raw:layout", x);
        }
        // an incomplete last index is not an index
        b.extend(vec![9u8; tail]);
        let r = Adj::read(&mut Cursor::new(&b)).or_fail("raw:read")?;
        ensure!(r == a, "raw:value", "{r:?} instead of {a:?}");
        let j: Adj = serde_json::from_str(&serde_json::to_string(&a).unwrap()).or_fail("raw:json")?;
        ensure!(j == a, "raw:json", "{j:?} instead of {a:?}");
        // the data layer slices the buffer by the offsets
        let d = AdjData::read(&mut Cursor::new(&b));
        let n = buf.len();
        let mut want = Some(vec![]);
        for (i, e) in entries.iter().enumerate() {
            let s = e.1 as usize / 2;
            let t = entries.get(i + 1).map_or(n, |e| e.1 as usize / 2);
            if s <= t && t <= n {
                if let Some(w) = &mut want {
                    w.push(AdjEntryData { mesh_object_index: e.0 as usize, vertex_adjacency: buf[s..t].to_vec() });
                }
            } else {
                want = None;
            }
        }
        match (d, want) {
            (Ok(d), Some(w)) => ensure!(d.entries == w, "raw:data", "{d:?} instead of {w:?}"),
            (Err(_), None) => {}
            (d, w) => return fail("raw:data-error", format!("read {:?} instead of {w:?} for {entries:?} {buf:?}", d.map_err(|e| e.to_string()))),
        }
        Ok(true)
    }));
    out
}
