//! C37: errors name a defect that the data really has.
use super::anim::{enc_compressed, enc_direct, track_type, Enc, Layout};
use super::mesh::{build, list_mut, rmesh, robj};
use crate::animref::*;
use crate::explore::*;
use crate::meshref::*;
use crate::samples::*;
use crate::util::*;
use crate::{ensure, Check};
use ssbh_data::adj_data::*;
use ssbh_data::anim_data::*;
use ssbh_data::matl_data::MatlData;
use ssbh_data::mesh_data::*;
use ssbh_data::skel_data::*;
use ssbh_lib::formats::adj::{Adj, AdjEntry};
use ssbh_lib::formats::anim as raw;
use ssbh_lib::formats::anim::Anim;
use ssbh_lib::formats::matl::Matl;
use ssbh_lib::formats::mesh::*;
use ssbh_lib::formats::skel::Skel;
use std::fmt::{Debug, Display};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C37",
        level: "exploration",
        rule: "one case = one value or file with known defects whose error is compared, kind and values, with the list of defects computed independently; distinct by input",
        assumptions: &["where the data has several defects any one of them may be reported"],
        scenarios: c37,
        hang_s: 60,
    }]
}

/// A defect: the error that describes it, and what its message has to mention.
struct Def {
    error: String,
    mentions: Vec<String>,
}

fn def(e: impl Debug, mentions: &[&dyn Display]) -> Def {
    Def { error: format!("{e:?}"), mentions: mentions.iter().map(|m| m.to_string()).collect() }
}

/// `got` has to describe one of the defects; no defects, no error.
fn judge<E: Debug + Display>(ctx: &mut Ctx, what: &str, got: Option<&E>, defects: &[Def]) -> RunResult {
    ctx.step();
    let e = match (got, defects.is_empty()) {
        (None, true) => return Ok(false),
        (None, false) => return fail(&format!("{what}:accepted"), format!("accepted although {}", defects[0].error)),
        (Some(e), true) => return fail(&format!("{what}:refused"), format!("refused without a reason: {e:?}")),
        (Some(e), false) => e,
    };
    let (debug, text) = (format!("{e:?}"), e.to_string());
    let all = || defects.iter().map(|d| d.error.clone()).collect::<Vec<_>>().join(" / ");
    let Some(d) = defects.iter().find(|d| d.error == debug) else {
        let kind = debug.split([' ', '(', '{']).next().unwrap_or("").to_string();
        return fail(&format!("{what}:wrong:{kind}"), format!("{debug} instead of {}", all()));
    };
    for m in &d.mentions {
        ensure!(text.contains(m.as_str()), format!("{what}:message"), "the message {text:?} of {debug} does not mention {m}");
    }
    Ok(true)
}

/// Converting, converting an owned value, writing and writing to a file give the same error.
macro_rules! by_all_routes {
    ($ctx:expr, $what:expr, $d:expr, $raw:ty, $defects:expr) => {{
        let d = &$d;
        let e = <$raw>::try_from(d).err();
        let r = judge($ctx, $what, e.as_ref(), $defects)?;
        let first = e.map(|e| e.to_string());
        let owned = <$raw>::try_from(d.clone()).err().map(|e| e.to_string());
        let mut c = Cursor::new(vec![]);
        let written = d.write(&mut c).err().map(|e| e.to_string());
        ensure!(owned == first && written == first, format!("{}:routes", $what), "converting {first:?}, owned {owned:?}, writing {written:?}");
        if first.is_some() {
            ensure!(c.get_ref().is_empty(), format!("{}:partial", $what), "{} bytes written although the data is refused", c.get_ref().len());
        }
        Ok(r)
    }};
}

const MAJORS: [u16; 8] = [1, 2, 0, 3, 257, 258, 513, 65535];
const MINORS_ALL: [u16; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 256, 257, 266, 65535];

fn versions(ctx: &mut Ctx) -> (u16, u16) {
    (MAJORS[ctx.free(MAJORS.len())], MINORS_ALL[ctx.free(MINORS_ALL.len())])
}

fn anim_tracks(lens: &[usize]) -> Vec<GroupData> {
    lens.iter()
        .enumerate()
        .map(|(i, n)| GroupData {
            group_type: GroupType::Material,
            nodes: vec![NodeData {
                name: format!("n{i}"),
                tracks: vec![track(
                    "t",
                    match i % 3 {
                        0 => TrackValues::Float((0..*n).map(|x| x as f32).collect()),
                        1 => TrackValues::Boolean(vec![true; *n]),
                        _ => TrackValues::PatternIndex(vec![7; *n]),
                    },
                )],
            }],
        })
        .collect()
}

fn c37(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    anim_write(&mut out);
    anim_read(&mut out, thorough);
    mesh_write(&mut out, thorough);
    mesh_read(&mut out, thorough);
    others(&mut out);
    streams(&mut out);
    out
}

fn anim_write(out: &mut Vec<Scenario>) {
    out.push(scenario("anim versions", 0, |ctx: &mut Ctx| {
        use ssbh_data::anim_data::error::Error::*;
        let (major_version, minor_version) = versions(ctx);
        let bad = ctx.free(2) == 1;
        let final_frame_index = if bad { 1.0 } else { 4.0 };
        let d = AnimData { major_version, minor_version, final_frame_index, groups: anim_tracks(&[5]) };
        ctx.hash_bytes(format!("{major_version}.{minor_version} {bad}").as_bytes());
        let mut l = vec![];
        if major_version != 2 || minor_version > 1 {
            l.push(def(UnsupportedVersion { major_version, minor_version }, &[&format!("{major_version}.{minor_version}")]));
        }
        if bad {
            l.push(def(InvalidFinalFrameIndex { final_frame_index }, &[&final_frame_index]));
        }
        by_all_routes!(ctx, "anim-write", d, Anim, &l)
    }));
    out.push(scenario("anim final frames", 0, |ctx: &mut Ctx| {
        use ssbh_data::anim_data::error::Error::*;
        const LENS: [usize; 6] = [1, 0, 2, 3, 40, 300];
        let n = ctx.free(4);
        let lens: Vec<usize> = (0..n).map(|_| LENS[ctx.free(LENS.len())]).collect();
        let longest = lens.iter().copied().max().unwrap_or(0) as f32;
        const F: [f32; 12] = [0.0, -0.0, -1.0, -1.0e-20, 0.5, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0e-20, 255.0, -300.0, 1.0e9];
        let i = ctx.free(F.len() + 4);
        let final_frame_index = match i.checked_sub(F.len()) {
            None => F[i],
            Some(j) => longest + [-1.0, -1.5, -2.0, -0.5][j],
        };
        let minor_version = ctx.free(2) as u16;
        let d = AnimData { major_version: 2, minor_version, final_frame_index, groups: anim_tracks(&lens) };
        ctx.note(|| format!("{final_frame_index} for tracks of {lens:?}"));
        ctx.hash_bytes(format!("{final_frame_index} {lens:?} {minor_version}").as_bytes());
        let mut l = vec![];
        if !(final_frame_index >= 0.0) || final_frame_index < longest - 1.0 {
            l.push(def(InvalidFinalFrameIndex { final_frame_index }, &[&final_frame_index]));
        }
        by_all_routes!(ctx, "anim-write", d, Anim, &l)
    }));
}

fn raw_track(e: &Enc, at: u32, size: u64) -> raw::TrackV2 {
    raw::TrackV2 {
        name: "t".into(),
        flags: raw::TrackFlags { track_type: track_type(e.kind), compression_type: e.compression },
        frame_count: e.count as u32,
        transform_flags: Default::default(),
        data_offset: at,
        data_size: size,
    }
}

fn raw_anim(minor: usize, nodes: Vec<Vec<raw::TrackV2>>, buffer: Vec<u8>) -> Anim {
    let nodes: Vec<raw::Node> = nodes.into_iter().map(|t| raw::Node { name: "n".into(), tracks: t.into() }).collect();
    let groups = vec![raw::Group { group_type: GroupType::Transform, nodes: nodes.into() }];
    match minor {
        0 => Anim::V20 { final_frame_index: 0.0, unk1: 1, unk2: 3, name: "".into(), groups: groups.into(), buffer: buffer.into() },
        _ => Anim::V21 { final_frame_index: 0.0, unk1: 1, unk2: 3, name: "".into(), groups: groups.into(), buffer: buffer.into(), unk_data: raw::UnkData { unk1: Default::default(), unk2: Default::default() } },
    }
}

/// Converting the raw value and reading its file give the same error.
fn read_anim(ctx: &mut Ctx, what: &str, a: &Anim, l: &[Def]) -> RunResult {
    let e = AnimData::try_from(a).err();
    let text = e.as_ref().map(|e| e.to_string());
    let r = judge(ctx, what, e.as_ref(), l)?;
    let mut c = Cursor::new(vec![]);
    a.write(&mut c).or_fail("write")?;
    ctx.hash_bytes(c.get_ref());
    let other = AnimData::read(&mut Cursor::new(c.get_ref())).err().map(|e| e.to_string());
    ensure!(other == text, format!("{what}:routes"), "converting {text:?}, reading {other:?}");
    Ok(r)
}

fn anim_read(out: &mut Vec<Scenario>, thorough: bool) {
    out.push(scenario("anim track ranges", if thorough { 3 } else { 2 }, |ctx: &mut Ctx| {
        use ssbh_data::anim_data::error::Error::*;
        let minor = ctx.free(2);
        let len = [16usize, 0, 1, 5, 300][ctx.free(5)];
        let mut nodes = vec![];
        let mut l = vec![];
        for _ in 0..2 {
            let mut t = vec![];
            for _ in 0..2 {
                let n = len as u32;
                let o = [0, n, n + 1, 1, u32::MAX, n.saturating_sub(1)][ctx.choose(6)];
                let m = len as u64;
                let s = [0, m, m + 1, 1, u64::MAX, u64::MAX - o as u64, 1 << 32, m.saturating_sub(o as u64), m.saturating_sub(o as u64) + 1][ctx.choose(9)];
                t.push(raw_track(&enc_direct(Kind::Float, raw::CompressionType::Direct, vec![], 0), o, s));
                if o as u128 + s as u128 > len as u128 {
                    l.push(def(InvalidTrackDataRange { start: o as usize, size: s as usize, buffer_size: len }, &[&o, &s, &len]));
                }
            }
            nodes.push(t);
        }
        let a = raw_anim(minor, nodes, vec![0; len]);
        ctx.note(|| format!("{a:?}"));
        read_anim(ctx, "anim-range", &a, &l)
    }));
    for k in KINDS {
        out.push(scenario(format!("anim bit counts {k:?}"), if thorough { 2 } else { 1 }, move |ctx: &mut Ctx| {
            use ssbh_data::anim_data::error::Error::*;
            let flags = match k {
                Kind::Transform => [13u16, 15, 0, 1, 4, 8, 3, 12][ctx.free(8)],
                Kind::Uv => [13u16, 15, 0][ctx.free(3)],
                _ => 0,
            };
            let n = [3usize, 1, 0, 9][ctx.free(4)];
            let ranges: Vec<Range> = (0..k.ranges())
                .map(|_| match k {
                    Kind::Bool => Range { min: 0, max: 0, bits: 1 },
                    Kind::Pattern => Range { min: 1, max: 200, bits: [8u64, 1, 17, 32, 0][ctx.choose(5)] },
                    _ => Range { min: 0, max: [1.0f32, 0.0][ctx.choose(2)].to_bits(), bits: [11u64, 24, 0, 32, 1][ctx.choose(5)] },
                })
                .collect();
            let (st, _) = stored(k, flags);
            let raws = vec![vec![0u64; st.len()]; n];
            let want = bits_per_entry(k, flags, &ranges);
            let mut e = enc_compressed(k, flags, &ranges, &vec![0; k.comps()], 0, &raws, &vec![false; n], &Layout { gap: 0, swapped: false, tail: 0 });
            let stored_count = match ctx.free(9) {
                0 => want,
                1 => want + 1,
                2 => want.wrapping_sub(1) & 0xffff,
                3 => 0,
                4 => want + 256,
                5 => want * 2,
                6 => 0xffff,
                7 => 1,
                _ => want ^ 16,
            } as u16;
            e.data[6..8].copy_from_slice(&stored_count.to_le_bytes());
            ctx.note(|| format!("{k:?} flags {flags} ranges {ranges:x?} {n} frames, bits {stored_count}"));
            let mut l = vec![];
            if stored_count as u64 != want {
                l.push(def(UnexpectedBitCount { expected: want as usize, actual: stored_count as usize }, &[&want, &stored_count]));
            }
            let size = e.data.len() as u64;
            let a = raw_anim(1, vec![vec![raw_track(&e, 0, size)]], e.data.clone());
            read_anim(ctx, "anim-bits", &a, &l)
        }));
    }
    out.push(scenario("anim compressed parts", 0, |ctx: &mut Ctx| {
        use ssbh_data::anim_data::error::Error::*;
        let k = KINDS[ctx.free(6)];
        let n = [3usize, 1, 12][ctx.free(3)];
        let flags = if matches!(k, Kind::Transform | Kind::Uv) { 13 } else { 0 };
        let rg = match k {
            Kind::Bool => Range { min: 0, max: 0, bits: 1 },
            Kind::Pattern => Range { min: 1, max: 200, bits: 8 },
            _ => Range { min: (-0.5f32).to_bits(), max: 0.5f32.to_bits(), bits: 8 },
        };
        let ranges = vec![rg; k.ranges()];
        let (st, _) = stored(k, flags);
        let raws = vec![vec![0u64; st.len()]; n];
        let mut e = enc_compressed(k, flags, &ranges, &vec![0; k.comps()], 0, &raws, &vec![false; n], &Layout { gap: 0, swapped: false, tail: 0 });
        let what = ctx.free(4);
        let mut l = vec![];
        match what {
            0 => e.data[4..6].fill(0),
            1 => e.data[8..12].fill(0),
            // one more frame than there are bits
            2 => {
                let per = bits_per_entry(k, flags, &ranges) as usize;
                e.count = (n * per).div_ceil(8) * 8 / per + 1;
            }
            _ => {}
        }
        match what {
            0 | 1 => l.push(def(MalformedCompressionHeader, &[])),
            2 => l.push(Def { error: "BitError(NotEnoughBits)".into(), mentions: vec!["bits".into()] }),
            _ => {}
        }
        ctx.note(|| format!("{k:?} {n} frames, defect {what}"));
        let size = e.data.len() as u64;
        let a = raw_anim(1, vec![vec![raw_track(&e, 0, size)]], e.data.clone());
        read_anim(ctx, "anim-parts", &a, &l)
    }));
    out.push(scenario("anim 1.2 buffers", 0, |ctx: &mut Ctx| {
        use ssbh_data::anim_data::error::Error::*;
        let count = ctx.free(4);
        let mut l = vec![];
        let mut tracks = vec![];
        for t in 0..2 {
            let mut props = vec![];
            for p in 0..ctx.free(3) {
                let i = [0u64, 1, 2, 3, 4, 256, 1 << 32, u64::MAX][ctx.free(8)];
                if i >= count as u64 {
                    l.push(def(BufferIndexOutOfRange { buffer_index: i as usize, buffer_count: count }, &[&i, &count]));
                }
                props.push(raw::Property { name: format!("p{p}").as_str().into(), buffer_index: i });
            }
            tracks.push(raw::TrackV1 { name: format!("t{t}").as_str().into(), track_type: raw::TrackTypeV1::Visibility, properties: props.into() });
            if !l.is_empty() {
                break;
            }
        }
        let mut b = 0x1013u32.to_le_bytes().to_vec();
        b.extend([1, 0]);
        let buffers: Vec<ssbh_lib::SsbhByteBuffer> = (0..count).map(|_| b.clone().into()).collect();
        let a = Anim::V12 { name: "".into(), unk1: 0.0, final_frame_index: 0.0, unk2: 0.0, unk3: 0.0, tracks: tracks.into(), buffers: buffers.into() };
        ctx.note(|| format!("{count} buffers, {:?}", l.iter().map(|d| &d.error).collect::<Vec<_>>()));
        read_anim(ctx, "anim12", &a, &l)
    }));
}

fn mesh_defects(d: &MeshData) -> Vec<Def> {
    use ssbh_data::mesh_data::error::Error::*;
    let (major_version, minor_version) = (d.major_version, d.minor_version);
    let mut l = vec![];
    if major_version != 1 || !(8..=10).contains(&minor_version) {
        l.push(def(UnsupportedVersion { major_version, minor_version }, &[&format!("{major_version}.{minor_version}")]));
    }
    for (i, o) in d.objects.iter().enumerate() {
        if d.objects[..i].iter().any(|p| p.name == o.name && p.subindex == o.subindex) {
            l.push(def(DuplicateSubindex { mesh_object_name: o.name.clone(), mesh_object_subindex: o.subindex }, &[&o.name, &o.subindex]));
        }
        let lens: Vec<usize> = [&o.positions, &o.normals, &o.binormals, &o.tangents, &o.texture_coordinates, &o.color_sets].into_iter().flatten().map(|a| a.data.len()).collect();
        let n = lens.first().copied().unwrap_or(0);
        if lens.iter().any(|x| *x != n) {
            l.push(def(AttributeDataLengthMismatch, &[]));
        } else {
            for i in &o.vertex_indices {
                if *i as usize >= n {
                    l.push(def(VertexIndexOutOfRange { vertex_index: *i as usize, vertex_count: n }, &[i, &n]));
                }
            }
        }
        let vertex_index_count = o.vertex_indices.len();
        if vertex_index_count % 3 != 0 {
            l.push(def(NonTriangulatedFaces { vertex_index_count }, &[&vertex_index_count]));
        }
        if (major_version, minor_version) == (1, 10) {
            for w in o.bone_influences.iter().flat_map(|b| &b.vertex_weights) {
                if w.vertex_index > 65535 {
                    l.push(def(SkinWeightVertexIndexExceedsLimit { vertex_index: w.vertex_index as usize, limit: 65535, major_version: 1, minor_version: 10 }, &[&w.vertex_index, &65535, &"1.10"]));
                }
            }
        }
    }
    l
}

fn vectors(n: usize) -> VectorData {
    VectorData::Vector3((0..n).map(|i| [i as f32, 0.5, -1.0]).collect())
}

fn mesh_write(out: &mut Vec<Scenario>, thorough: bool) {
    out.push(scenario("mesh", if thorough { 2 } else { 1 }, |ctx: &mut Ctx| {
        let nobj = [1usize, 2, 3, 9][ctx.free(4)];
        let mut objects = vec![];
        for i in 0..nobj {
            let n = [3, 4, 5, 300][i % 4];
            let mut o = MeshObjectData { name: [format!("o{i}"), "o0".into(), "".into()][ctx.choose(3)].clone(), subindex: [i as u64, 0, 1 << 40][ctx.choose(3)], ..Default::default() };
            for u in [0, 1, 4] {
                let len = [n, n - 1, n + 1, 0][ctx.choose(4)];
                list_mut(&mut o, u).push(attr("x", vectors(len)));
            }
            let count = [6usize, 5, 7, 1, 0, 9][ctx.choose(6)];
            for p in 0..count {
                o.vertex_indices.push([(p % n) as u32, n as u32, n as u32 - 1, n as u32 + 256, u32::MAX, 65536][ctx.choose(6)]);
            }
            for b in 0..2 {
                let w = (0..2u32).map(|p| VertexWeight { vertex_index: [p, 65535, 65536, 70000, u32::MAX][ctx.choose(5)], vertex_weight: 0.5 }).collect();
                o.bone_influences.push(BoneInfluence { bone_name: format!("b{b}"), vertex_weights: w });
            }
            objects.push(o);
        }
        // another defect in the last object
        let n = objects[nobj - 1].positions[0].data.len() as u32;
        let o = &mut objects[nobj - 1];
        match ctx.free(5) {
            1 => o.vertex_indices.extend([n + 7, 0, n + 9]),
            2 => o.vertex_indices.extend([0; 4]),
            3 => o.bone_influences.push(BoneInfluence { bone_name: "last".into(), vertex_weights: vec![VertexWeight { vertex_index: 65537, vertex_weight: 1.0 }] }),
            4 => (o.name, o.subindex) = ("o0".into(), 0),
            _ => {}
        }
        let minor_version = [10u16, 8, 9, 11, 7][ctx.choose(5)];
        let major_version = [1u16, 0, 2][ctx.choose(3)];
        let d = MeshData { major_version, minor_version, objects };
        ctx.note(|| format!("{d:?}"));
        ctx.hash_bytes(format!("{d:?}").as_bytes());
        by_all_routes!(ctx, "mesh-write", d, Mesh, &mesh_defects(&d))
    }));
    out.push(scenario("mesh versions", 0, |ctx: &mut Ctx| {
        let (major_version, minor_version) = versions(ctx);
        let mut o = MeshObjectData { name: "o".into(), ..Default::default() };
        if ctx.free(2) == 1 {
            o.vertex_indices = vec![0, 0, 0, 0];
        }
        let d = MeshData { major_version, minor_version, objects: vec![o] };
        ctx.hash_bytes(format!("{d:?}").as_bytes());
        by_all_routes!(ctx, "mesh-write", d, Mesh, &mesh_defects(&d))
    }));
    out.push(scenario("vertex count", 0, |ctx: &mut Ctx| {
        use ssbh_data::mesh_data::error::Error::*;
        let mut o = MeshObjectData::default();
        let mut first = None;
        let mut l = vec![];
        for u in 0..6 {
            let n = [None, Some(0), Some(1), Some(3), Some(300)][ctx.free(if u < 4 { 5 } else { 3 })];
            if let Some(n) = n {
                list_mut(&mut o, u).push(attr("x", vectors(n)));
                if *first.get_or_insert(n) != n {
                    l = vec![def(AttributeDataLengthMismatch, &[])];
                }
            }
        }
        let got = o.vertex_count();
        ctx.hash_bytes(format!("{got:?} {o:?}").as_bytes());
        let r = judge(ctx, "vertex-count", got.as_ref().err(), &l)?;
        if let Ok(n) = got {
            ensure!(n == first.unwrap_or(0), "vertex-count:value", "{n} instead of {}", first.unwrap_or(0));
        }
        Ok(r)
    }));
}

fn mesh_read(out: &mut Vec<Scenario>, thorough: bool) {
    out.push(scenario("mesh buffers", if thorough { 3 } else { 2 }, |ctx: &mut Ctx| {
        use ssbh_data::mesh_data::error::AttributeError::*;
        let minor = [10u16, 9, 8][ctx.free(3)];
        let count = [4usize, 0, 1, 2, 5, 8][ctx.free(6)];
        let mut l = vec![];
        let mut objs = vec![];
        for i in 0..2 {
            let mut o = robj(i);
            for u in [0, 1, 5] {
                let buf = [0u32, 1, 2, 3, 4, 5, 7, 8, 256, u32::MAX][ctx.choose(10)];
                if buf as usize >= count {
                    l.push(def(BufferIndexOutOfRange { buffer_index: buf as usize, buffer_count: count }, &[&buf, &count]));
                }
                if buf > 3 {
                    l.push(def(NoOffsetOrStride(buf as u64), &[&buf]));
                }
                o.attrs.push(RAttr { usage: u, dt: Dt::F3, buf, off: 0, sub: 0, names: if minor == 8 { None } else { Some(vec!["a".into()]) } });
            }
            objs.push(o);
        }
        let mut m = rmesh(minor, objs);
        let spare = m.bufs[0].clone();
        m.bufs.resize(count, spare);
        m.sizes.resize(count, 320);
        ctx.note(|| format!("{count} buffers, {:?}", m.objs));
        ctx.hash_bytes(format!("{count} {:?}", m.objs).as_bytes());
        let mesh = build(&m);
        let e = MeshData::try_from(&mesh).err();
        let text = e.as_ref().map(|e| e.to_string());
        let r = match &e {
            None => judge::<ssbh_data::mesh_data::error::AttributeError>(ctx, "mesh-read", None, &l)?,
            Some(b) => match b.downcast_ref::<ssbh_data::mesh_data::error::AttributeError>() {
                Some(e) => judge(ctx, "mesh-read", Some(e), &l)?,
                None => return fail("mesh-read:type", format!("{b:?}")),
            },
        };
        let mut c = Cursor::new(vec![]);
        mesh.write(&mut c).or_fail("write")?;
        let other = MeshData::read(&mut Cursor::new(c.get_ref())).err().map(|e| e.to_string());
        ensure!(other == text, "mesh-read:routes", "converting {text:?}, reading {other:?}");
        Ok(r)
    }));
}

fn others(out: &mut Vec<Scenario>) {
    out.push(scenario("matl versions", 0, |ctx: &mut Ctx| {
        use ssbh_data::matl_data::error::Error::*;
        let (major_version, minor_version) = versions(ctx);
        let mut d = matl();
        (d.major_version, d.minor_version) = (major_version, minor_version);
        if ctx.free(2) == 0 {
            d.entries.clear();
        }
        ctx.hash_bytes(format!("{major_version}.{minor_version} {}", d.entries.len()).as_bytes());
        let mut l = vec![];
        if (major_version, minor_version) != (1, 6) {
            l.push(def(UnsupportedVersion { major_version, minor_version }, &[&format!("{major_version}.{minor_version}")]));
        }
        let _: Option<MatlData> = None;
        by_all_routes!(ctx, "matl-write", d, Matl, &l)
    }));
    out.push(scenario("skel versions", 0, |ctx: &mut Ctx| {
        use ssbh_data::skel_data::error::Error::*;
        let (major_version, minor_version) = versions(ctx);
        let mut d = skel();
        (d.major_version, d.minor_version) = (major_version, minor_version);
        if ctx.free(2) == 0 {
            d.bones.clear();
        }
        ctx.hash_bytes(format!("{major_version}.{minor_version} {}", d.bones.len()).as_bytes());
        let mut l = vec![];
        if (major_version, minor_version) != (1, 0) {
            l.push(def(UnsupportedVersion { major_version, minor_version }, &[&format!("{major_version}.{minor_version}")]));
        }
        by_all_routes!(ctx, "skel-write", d, Skel, &l)
    }));
    out.push(scenario("skel parents", 0, |ctx: &mut Ctx| {
        use ssbh_data::skel_data::error::Error::*;
        let n = 1 + ctx.free(4);
        let big = [32767usize, 32768, 65535, 65536, 1 << 32, usize::MAX];
        let bones: Vec<BoneData> = (0..n)
            .map(|i| {
                let p = ctx.free(n + 1 + if n < 4 { big.len() } else { 2 });
                let parent_index = match p {
                    0 => None,
                    p if p <= n => Some(p - 1),
                    p => Some(big[p - n - 1]),
                };
                BoneData { name: format!("bone{i}"), transform: mat([i as f32, 1.0, 2.0], 0.25), parent_index, billboard_type: BillboardType::Disabled }
            })
            .collect();
        let d = SkelData { major_version: 1, minor_version: 0, bones };
        ctx.note(|| format!("{:?}", d.bones.iter().map(|b| b.parent_index).collect::<Vec<_>>()));
        ctx.hash_bytes(format!("{:?}", d.bones.iter().map(|b| b.parent_index).collect::<Vec<_>>()).as_bytes());
        let step = |i: usize| d.bones.get(i).and_then(|b| b.parent_index).filter(|p| *p < n);
        let mut l = vec![];
        let mut cyclic = vec![];
        for i in 0..n {
            // a bone is part of a cycle when its chain of parents returns to it
            let mut j = step(i);
            for _ in 0..n {
                if j == Some(i) {
                    break;
                }
                j = j.and_then(step);
            }
            if j == Some(i) {
                cyclic.push(i);
            }
            if let Some(p) = d.bones[i].parent_index {
                if p > 32767 {
                    l.push(def(ParentIndexTooLarge { bone_name: format!("bone{i}"), parent_index: p }, &[&format!("bone{i}"), &p]));
                }
            }
        }
        for i in &cyclic {
            l.push(def(BoneTransform(BoneTransformError::CycleDetected { index: *i }), &[i]));
        }
        for (i, b) in d.bones.iter().enumerate() {
            // the chain of this bone
            let mut chain = vec![i];
            while let Some(p) = step(*chain.last().unwrap()) {
                if chain.contains(&p) {
                    break;
                }
                chain.push(p);
            }
            let cl: Vec<Def> = cyclic.iter().filter(|c| chain.contains(c)).map(|c| def(BoneTransformError::CycleDetected { index: *c }, &[c])).collect();
            let got = d.calculate_world_transform(b);
            judge(ctx, "world-transform", got.as_ref().err(), &cl)?;
        }
        by_all_routes!(ctx, "skel-write", d, Skel, &l)
    }));
    out.push(scenario("adj offsets", 0, |ctx: &mut Ctx| {
        use ssbh_data::adj_data::error::Error::*;
        let len = [0usize, 1, 4, 9, 300][ctx.free(5)];
        let bytes = len * 2;
        let n = ctx.free(4);
        let offs: Vec<u32> = (0..n)
            .map(|_| {
                let b = bytes as u32;
                [0, 2, b, b + 2, b + 4, b.saturating_sub(2), u32::MAX - 1, 256][ctx.free(8)]
            })
            .collect();
        let adj = Adj {
            entries: offs.iter().enumerate().map(|(i, o)| AdjEntry { mesh_object_index: i as u32, index_buffer_offset: *o }).collect(),
            index_buffer: (0..len).map(|i| i as i16 - 1).collect(),
        };
        ctx.note(|| format!("{len} numbers, entries at {offs:?}"));
        ctx.hash_bytes(format!("{len} {offs:?}").as_bytes());
        let mut l = vec![];
        for (i, o) in offs.iter().enumerate() {
            let (start, end) = (*o as usize, offs.get(i + 1).map_or(bytes, |x| *x as usize));
            if start > end || end > bytes {
                l.push(def(BufferOffsetOutOfRange { start, end, buffer_size: bytes }, &[&start, &end, &bytes]));
            }
        }
        let e = AdjData::try_from(&adj).err();
        let text = e.as_ref().map(|e| e.to_string());
        let r = judge(ctx, "adj-read", e.as_ref(), &l)?;
        let mut c = Cursor::new(vec![]);
        adj.write(&mut c).or_fail("write")?;
        let other = AdjData::read(&mut Cursor::new(c.get_ref())).err().map(|e| e.to_string());
        ensure!(other == text, "adj-read:routes", "converting {text:?}, reading {other:?}");
        Ok(r)
    }));
}

// ---------------------------------------------------------------------------------------------
// errors of the stream reach the caller

struct Failing<S> {
    inner: S,
    left: usize,
    kind: std::io::ErrorKind,
}
impl<S> Failing<S> {
    fn op(&mut self) -> std::io::Result<()> {
        if self.left == 0 {
            return Err(std::io::Error::new(self.kind, "the disk is on fire"));
        }
        self.left -= 1;
        Ok(())
    }
}
impl<S: Write> Write for Failing<S> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.op()?;
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.op()?;
        self.inner.flush()
    }
}
impl<S: Read> Read for Failing<S> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.op()?;
        self.inner.read(b)
    }
}
impl<S: Seek> Seek for Failing<S> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.op()?;
        self.inner.seek(p)
    }
}

const KINDS_IO: [std::io::ErrorKind; 4] = [std::io::ErrorKind::Other, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::StorageFull];

fn streams(out: &mut Vec<Scenario>) {
    macro_rules! writes {
        ($($name:literal, $value:expr;)*) => {$(
            out.push(scenario(concat!("failing writer ", $name), 0, |ctx: &mut Ctx| {
                let v = $value;
                let kind = KINDS_IO[ctx.free(4)];
                let mut at = 0;
                loop {
                    let mut w = Failing { inner: Cursor::new(vec![]), left: at, kind };
                    let r = v.write(&mut w).map_err(|e| e.to_string());
                    ctx.case();
                    ctx.step();
                    ctx.hash_bytes(format!("{} {kind:?} {at}", $name).as_bytes());
                    if w.left > 0 {
                        ensure!(r.is_ok(), "writer:refused", "{r:?}");
                        break;
                    }
                    match r {
                        Err(e) => ensure!(e.contains("the disk is on fire"), "writer:message", "operation {at}: {e}"),
                        // exactly as many operations as were allowed
                        Ok(()) => {}
                    }
                    at += 1;
                }
                Ok(true)
            }));
        )*};
    }
    macro_rules! reads {
        ($($name:literal, $bytes:expr, $t:ty;)*) => {$(
            out.push(scenario(concat!("failing reader ", $name), 0, |ctx: &mut Ctx| {
                let b = $bytes;
                let kind = KINDS_IO[ctx.free(4)];
                let mut at = 0;
                loop {
                    let mut r = Failing { inner: Cursor::new(&b[..]), left: at, kind };
                    let v = <$t>::read(&mut r).map(|_| ()).map_err(|e| e.to_string());
                    ctx.case();
                    ctx.step();
                    ctx.hash_bytes(format!("{} {kind:?} {at}", $name).as_bytes());
                    if r.left > 0 {
                        ensure!(v.is_ok(), "reader:refused", "{v:?}");
                        break;
                    }
                    if let Err(e) = v {
                        ensure!(e.contains("the disk is on fire"), "reader:message", "operation {at}: {e}");
                    }
                    at += 1;
                }
                Ok(true)
            }));
        )*};
    }
    use ssbh_lib::prelude as lib;
    writes! {
        "mesh data", mesh(10);
        "anim data", anim(1, tracks(3));
        "skel data", skel();
        "matl data", matl();
        "modl data", modl();
        "hlpb data", hlpb();
        "meshex data", meshex();
        "adj data", adj();
        "mesh", lib::Mesh::try_from(mesh(8)).unwrap();
        "anim", lib::Anim::try_from(anim(0, tracks(3))).unwrap();
        "meshex", lib::MeshEx::from(meshex());
        "adj", Adj::try_from(adj()).unwrap();
        "modl", lib::Modl::from(modl());
        "ssbh file", lib::SsbhFile::read(&mut Cursor::new(bytes_of(&skel()))).unwrap();
    }
    reads! {
        "mesh data", bytes_of(&mesh(10)), MeshData;
        "anim data", bytes_of(&anim(1, tracks(3))), AnimData;
        "skel data", bytes_of(&skel()), SkelData;
        "matl data", bytes_of(&matl()), MatlData;
        "modl data", bytes_of(&modl()), ssbh_data::modl_data::ModlData;
        "hlpb data", bytes_of(&hlpb()), ssbh_data::hlpb_data::HlpbData;
        "meshex data", bytes_of(&meshex()), ssbh_data::meshex_data::MeshExData;
        "adj data", bytes_of(&adj()), AdjData;
        "mesh", bytes_of(&mesh(8)), lib::Mesh;
        "anim", bytes_of(&anim(0, tracks(3))), lib::Anim;
        "meshex", bytes_of(&meshex()), lib::MeshEx;
        "adj", bytes_of(&adj()), Adj;
        "ssbh file", bytes_of(&skel()), lib::SsbhFile;
    }
    // a missing file is reported as such, a file of another type as such
    macro_rules! missing {
        ($($t:ty => $f:expr;)*) => {
            out.push(scenario("missing files", 0, |ctx: &mut Ctx| {
                let p = std::path::Path::new("/nonexistent/of course/file.numshb");
                let how = ctx.free(2);
                ctx.hash_u64(how as u64);
                $({
                    ctx.case();
                    ctx.step();
                    if how == 0 {
                        let e = <$t>::from_file(p).map(|_| ()).map_err(|e| ($f)(&e));
                        ensure!(e == Err(Some(std::io::ErrorKind::NotFound)), "missing:read", "{}: {e:?}", stringify!($t));
                    }
                })*
                Ok(true)
            }));
        };
    }
    fn boxed(e: &Box<dyn std::error::Error>) -> Option<std::io::ErrorKind> {
        fn io(e: &(dyn std::error::Error + 'static)) -> Option<std::io::ErrorKind> {
            if let Some(e) = e.downcast_ref::<std::io::Error>() {
                return Some(e.kind());
            }
            match e.downcast_ref::<ssbh_lib::ReadSsbhError>() {
                Some(ssbh_lib::ReadSsbhError::Io(e)) => Some(e.kind()),
                _ => None,
            }
        }
        io(&**e)
    }
    fn ssbh(e: &ssbh_lib::ReadSsbhError) -> Option<std::io::ErrorKind> {
        match e {
            ssbh_lib::ReadSsbhError::Io(e) => Some(e.kind()),
            _ => None,
        }
    }
    missing! {
        MeshData => boxed; AnimData => boxed; SkelData => boxed; MatlData => boxed; AdjData => boxed;
        ssbh_data::modl_data::ModlData => boxed; ssbh_data::hlpb_data::HlpbData => boxed; ssbh_data::meshex_data::MeshExData => boxed;
        lib::Mesh => ssbh; lib::Anim => ssbh; lib::Skel => ssbh; lib::Matl => ssbh; lib::Modl => ssbh; lib::Hlpb => ssbh;
        lib::Nlst => ssbh; lib::Nrpd => ssbh; lib::Nufx => ssbh; lib::Shdr => ssbh; lib::SsbhFile => ssbh;
        lib::MeshEx => boxed; Adj => boxed;
    }
    out.push(scenario("other types", 0, |ctx: &mut Ctx| {
        let files: Vec<(&str, Vec<u8>)> = vec![
            ("mesh", bytes_of(&mesh(10))),
            ("anim", bytes_of(&anim(1, tracks(3)))),
            ("skel", bytes_of(&skel())),
            ("matl", bytes_of(&matl())),
            ("modl", bytes_of(&modl())),
            ("hlpb", bytes_of(&hlpb())),
            ("shdr", shdr_file("s", &shader_binary(&["buf", "uniform", "in", "gl_Position"], 32))),
        ];
        let (name, b) = &files[ctx.free(files.len())];
        ctx.hash_bytes(b);
        let want = ssbh_lib::ReadSsbhError::InvalidSsbhType.to_string();
        macro_rules! each {
            ($($n:literal $t:ty, $d:ty;)*) => {$(
                if *name != $n {
                    ctx.case();
                    ctx.step();
                    let e = <$t>::read(&mut Cursor::new(b)).err().ok_or_else(|| failure("type:accepted", format!("{name} read as {}", $n)))?;
                    ensure!(matches!(e, ssbh_lib::ReadSsbhError::InvalidSsbhType), "type:kind", "{name} read as {}: {e:?}", $n);
                    let e = <$d>::read(&mut Cursor::new(b)).err().map(|e| e.to_string());
                    ensure!(e.as_ref() == Some(&want), "type:data", "{name} read as {} data: {e:?}", $n);
                } else {
                    ensure!(<$t>::read(&mut Cursor::new(b)).is_ok() && <$d>::read(&mut Cursor::new(b)).is_ok(), "type:own", "{name}");
                }
            )*};
        }
        each! {
            "mesh" lib::Mesh, MeshData; "anim" lib::Anim, AnimData; "skel" lib::Skel, SkelData; "matl" lib::Matl, MatlData;
            "modl" lib::Modl, ssbh_data::modl_data::ModlData; "hlpb" lib::Hlpb, ssbh_data::hlpb_data::HlpbData;
            "shdr" lib::Shdr, ssbh_data::shdr_data::ShdrData;
        }
        Ok(true)
    }));
}
