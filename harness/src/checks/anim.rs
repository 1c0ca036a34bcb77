//! C12: animation values survive.  C13: the written track buffer is correct.  C29: any valid
//! encoding of track data is read as the documented values.
use crate::animref::*;
use crate::explore::*;
use crate::samples::{track, unit};
use crate::util::*;
use crate::{ensure, Check};
use ssbh_data::anim_data::*;

use ssbh_lib::formats::anim as raw;
use ssbh_lib::formats::anim::Anim;

use std::io::Cursor;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C12",
            level: "exploration",
            rule: "one case = one animation created, written, read back and compared with the original values; distinct by content",
            assumptions: &["finite values and unit rotations", "track and node names without zero bytes"],
            scenarios: c12,
            hang_s: 60,
        },
        Check {
            id: "C13",
            level: "exploration",
            rule: "one case = one animation whose written track buffer is decoded by an independent decoder, or one version and final frame combination; distinct by content",
            assumptions: &["finite values and unit rotations", "the independent decoder is trusted"],
            scenarios: c13,
            hang_s: 60,
        },
        Check {
            id: "C29",
            level: "exploration",
            rule: "one case = one file with hand-encoded track data read by the library and compared with an independent decoder; distinct by content",
            assumptions: &["the independent encoder and decoder of the track formats are trusted"],
            scenarios: c29,
            hang_s: 60,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// values

const FPATS: usize = 13;
fn fpat(p: usize, i: usize, n: usize) -> f32 {
    let f = i as f32;
    match p {
        0 => f * 0.37 - 1.0,
        1 => 0.0,
        2 => 1.5,
        3 => [1.0, -1.0][i % 2],
        4 => (i + 1 == n) as u32 as f32,
        5 => -7.25 * (i == 0) as u32 as f32,
        6 => [1.0, f32::from_bits(1.0f32.to_bits() + 1)][(i / 2) % 2],
        7 => f32::from_bits(i as u32 + 1),
        8 => [3.0e38, -3.0e38][i % 2],
        9 => [0.0, -0.0][i % 2],
        10 => 1.0e6 + f * 0.25,
        11 => 1.0e-20 * f * f,
        _ => [0.0, f32::MAX, 1.0e38][i % 3],
    }
}
const QPATS: usize = 9;
fn qpat(p: usize, i: usize, n: usize) -> [f32; 4] {
    let f = i as f32;
    let a = |x: f32, y: f32, z: f32, t: f32| {
        let (s, c) = (t / 2.0).sin_cos();
        let v = unit(x, y, z, 0.0);
        [v.x * s, v.y * s, v.z * s, c]
    };
    match p {
        0 => a(1.0, 2.0, -0.5, f * 0.7),
        1 => [0.0, 0.0, 0.0, 1.0],
        2 => [0.0, 0.0, 0.0, [1.0, -1.0][i % 2]],
        3 => [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, -1.0, 0.0]][i % 3],
        4 => a(0.0, 1.0, 0.0, f * 6.2 / n as f32),
        5 => a(1.0, 1.0, 1.0, std::f32::consts::PI - 1e-4 * f),
        6 => {
            if i + 1 == n {
                [0.0, 0.6, 0.0, -0.8]
            } else {
                [0.0, 0.6, 0.0, 0.8]
            }
        }
        7 => [0.5, -0.5, 0.5, if i % 3 == 1 { -0.5 } else { 0.5 }],
        _ => a(0.3, -0.2, 0.9, 3.3 + 1e-3 * f),
    }
}
const PPATS: usize = 8;
fn ppat(p: usize, i: usize, n: usize) -> u32 {
    match p {
        0 => (i * i) as u32 + 3,
        1 => 7,
        2 => [0, 0xff_ffff][i % 2],
        3 => [1, 0x100_0001][i % 2],
        4 => [0, u32::MAX][i % 2],
        5 => [u32::MAX, u32::MAX - 1][(i / 3) % 2],
        6 => (i + 1 == n) as u32 * 0x8000_0000,
        _ => 1 << (i % 32),
    }
}

/// Frames of one kind; component patterns are chosen freely up to the deviation bound.
fn gen_frames(ctx: &mut Ctx, k: Kind, n: usize) -> Frames {
    let mut cols: Vec<Vec<u32>> = vec![];
    match k {
        Kind::Transform => {
            let same = ctx.choose(3);
            let p: Vec<usize> = (0..3).map(|_| ctx.choose(FPATS)).collect();
            for c in 0..3 {
                // 1: all components equal, 2: x and y equal
                let q = match same {
                    1 => p[0],
                    2 if c == 1 => p[0],
                    _ => p[c],
                };
                let shift = if same == 1 || (same == 2 && c == 1) || p[c] != 0 { 0 } else { c };
                cols.push((0..n).map(|i| fpat(q, i + shift, n).to_bits()).collect());
            }
            let q = ctx.choose(QPATS);
            for c in 0..4 {
                cols.push((0..n).map(|i| qpat(q, i, n)[c].to_bits()).collect());
            }
            for c in 0..3 {
                let p = ctx.choose(FPATS);
                cols.push((0..n).map(|i| fpat(p, i + if p == 0 { 3 * c } else { 0 }, n).to_bits()).collect());
            }
        }
        Kind::Uv => {
            let same = ctx.choose(2);
            let p0 = ctx.choose(FPATS);
            let p1 = ctx.choose(FPATS);
            for c in 0..5 {
                let p = match c {
                    0 => p0,
                    1 if same == 1 => p0,
                    1 => p1,
                    _ => ctx.choose(FPATS),
                };
                let shift = if p == 0 && !(c == 1 && same == 1) { 2 * c } else { 0 };
                cols.push((0..n).map(|i| fpat(p, i + shift, n).to_bits()).collect());
            }
        }
        Kind::Vec4 => {
            for c in 0..4 {
                let p = ctx.choose(FPATS);
                cols.push((0..n).map(|i| fpat(p, i + if p == 0 { c } else { 0 }, n).to_bits()).collect());
            }
        }
        Kind::Float => {
            let p = ctx.free(FPATS);
            cols.push((0..n).map(|i| fpat(p, i, n).to_bits()).collect());
        }
        Kind::Pattern => {
            let p = ctx.free(PPATS);
            cols.push((0..n).map(|i| ppat(p, i, n)).collect());
        }
        Kind::Bool => {
            let p = ctx.free(6);
            cols.push(
                (0..n)
                    .map(|i| match p {
                        0 => i % 3 == 0,
                        1 => true,
                        2 => false,
                        3 => i + 1 == n,
                        4 => i == 0,
                        _ => i % 2 == 1,
                    } as u32)
                    .collect(),
            );
        }
    }
    (0..n).map(|i| cols.iter().map(|c| c[i]).collect()).collect()
}

fn anim_of(minor: u16, groups: Vec<GroupData>) -> AnimData {
    let n = groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).map(|t| t.values.len()).max().unwrap_or(0);
    AnimData { major_version: 2, minor_version: minor, final_frame_index: n.max(1) as f32 - 1.0, groups }
}
fn one(minor: u16, t: TrackData) -> AnimData {
    anim_of(minor, vec![GroupData { group_type: GroupType::Transform, nodes: vec![NodeData { name: "node".into(), tracks: vec![t] }] }])
}
fn write(d: &AnimData) -> Result<Vec<u8>, Failure> {
    let mut c = Cursor::new(vec![]);
    d.write(&mut c).or_fail("write")?;
    Ok(c.into_inner())
}
fn read(b: &[u8]) -> Result<AnimData, Failure> {
    AnimData::read(&mut Cursor::new(b)).or_fail("read")
}
fn raw_groups(a: &Anim) -> (&[raw::Group], &[u8]) {
    match a {
        Anim::V20 { groups, buffer, .. } | Anim::V21 { groups, buffer, .. } => (&groups.elements, &buffer.elements),
        _ => panic!("unexpected version"),
    }
}

/// Everything C12 says about one animation.
fn survives(ctx: &mut Ctx, d: &AnimData) -> RunResult {
    let bytes = write(d)?;
    ctx.hash_bytes(&bytes);
    ctx.step();
    let got = read(&bytes)?;
    // the same file gives the same result again, and so does the conversion without a file
    ensure!(read(&bytes)? == got || has_nan(d), "read:repeat", "two reads of one file differ");
    let a = Anim::try_from(d).or_fail("convert")?;
    let direct = AnimData::try_from(&a).or_fail("convert-back")?;
    ensure!(direct == got, "read:direct", "conversion without a file differs");
    let (rg, _) = raw_groups(&a);
    ensure!((got.major_version, got.minor_version) == (d.major_version, d.minor_version), "meta:version", "{}.{}", got.major_version, got.minor_version);
    ensure!(got.final_frame_index.to_bits() == d.final_frame_index.to_bits(), "meta:final-frame", "{} instead of {}", got.final_frame_index, d.final_frame_index);
    ensure!(got.groups.len() == d.groups.len(), "meta:groups", "{} groups instead of {}", got.groups.len(), d.groups.len());
    for (gi, (g, h)) in d.groups.iter().zip(&got.groups).enumerate() {
        ensure!(g.group_type == h.group_type, "meta:group-type", "group {gi}: {:?} instead of {:?}", h.group_type, g.group_type);
        ensure!(g.nodes.len() == h.nodes.len(), "meta:nodes", "group {gi}: {} nodes instead of {}", h.nodes.len(), g.nodes.len());
        for (ni, (m, n)) in g.nodes.iter().zip(&h.nodes).enumerate() {
            ensure!(m.name == n.name, "meta:node-name", "{:?} instead of {:?}", n.name, m.name);
            ensure!(m.tracks.len() == n.tracks.len(), "meta:tracks", "{} tracks instead of {}", n.tracks.len(), m.tracks.len());
            for (ti, (s, t)) in m.tracks.iter().zip(&n.tracks).enumerate() {
                ensure!(s.name == t.name, "meta:track-name", "{:?} instead of {:?}", t.name, s.name);
                ensure!(s.transform_flags == t.transform_flags, "meta:transform-flags", "{:?} instead of {:?}", t.transform_flags, s.transform_flags);
                let k = Kind::of(&s.values);
                ensure!(Kind::of(&t.values) == k, "meta:type", "{:?} instead of {k:?}", Kind::of(&t.values));
                if k == Kind::Transform && s.values.len() > 0 {
                    ensure!(s.compensate_scale == t.compensate_scale, "meta:compensate-scale", "{} instead of {}", t.compensate_scale, s.compensate_scale);
                }
                let compressed = rg[gi].nodes.elements[ni].tracks.elements[ti].flags.compression_type == raw::CompressionType::Compressed;
                compare(k, compressed, &frames(&s.values), &frames(&t.values)).map_err(|e| failure(e.key, format!("group {gi} node {ni} track {ti} ({} frames): {}", s.values.len(), e.msg)))?;
            }
        }
    }
    Ok(true)
}
fn has_nan(_: &AnimData) -> bool {
    false
}

/// Everything C13 says about one animation that can be created.
fn laid_out(ctx: &mut Ctx, d: &AnimData) -> RunResult {
    let a = Anim::try_from(d).or_fail("convert")?;
    let mut c = Cursor::new(vec![]);
    a.write(&mut c).or_fail("write")?;
    let bytes = c.into_inner();
    ctx.hash_bytes(&bytes);
    ctx.step();
    let direct = write(d)?;
    ensure!(bytes == direct, "layout:routes", "AnimData::write and Anim::write differ: {:?}", bytes_diff(&bytes, &direct));
    // use what a reader of the file sees
    let a = Anim::read(&mut Cursor::new(&bytes)).or_fail("read")?;
    let last = match (&a, d.minor_version) {
        (Anim::V20 { final_frame_index, .. }, 0) | (Anim::V21 { final_frame_index, .. }, 1) => *final_frame_index,
        _ => return fail("meta:version", "wrong version"),
    };
    ensure!(last.to_bits() == d.final_frame_index.to_bits(), "meta:final-frame", "{last} instead of {}", d.final_frame_index);
    let (groups, buffer) = raw_groups(&a);
    ensure!(groups.len() == d.groups.len(), "meta:groups", "{}", groups.len());
    let mut pos = 0usize;
    for (g, h) in d.groups.iter().zip(groups) {
        ensure!(g.group_type == h.group_type && g.nodes.len() == h.nodes.elements.len(), "meta:group", "{h:?}");
        for (m, n) in g.nodes.iter().zip(&h.nodes.elements) {
            ensure!(n.name.to_str() == Some(&m.name) && m.tracks.len() == n.tracks.elements.len(), "meta:node", "{n:?}");
            for (s, t) in m.tracks.iter().zip(&n.tracks.elements) {
                let k = Kind::of(&s.values);
                let count = s.values.len();
                ensure!(t.name.to_str() == Some(&s.name), "meta:track-name", "{t:?}");
                ensure!(t.flags.track_type as u8 == k.code(), "meta:type", "{t:?}");
                ensure!(t.frame_count as usize == count, "meta:frame-count", "{t:?} for {count} frames");
                let f = s.transform_flags;
                let (x, y) = (t.transform_flags, [f.override_translation, f.override_rotation, f.override_scale, f.override_compensate_scale]);
                ensure!([x.override_translation(), x.override_rotation(), x.override_scale(), x.override_compensate_scale()] == y, "meta:transform-flags", "{t:?}");
                use raw::CompressionType as Ct;
                let ct = t.flags.compression_type;
                ensure!((count <= 1) == matches!(ct, Ct::Constant | Ct::ConstTransform), "meta:compression", "{ct:?} for {count} frames");
                ensure!(count > 1 || (ct == Ct::ConstTransform) == (k == Kind::Transform), "meta:compression", "{ct:?} for {k:?}");
                ensure!(t.data_offset as usize == pos, "layout:offset", "track data at {} instead of {pos}", t.data_offset);
                let end = pos + t.data_size as usize;
                ensure!(end <= buffer.len(), "layout:range", "{pos}..{end} of {}", buffer.len());
                let dec = decode_track(k, ct == Ct::Compressed, count, &buffer[pos..end])?;
                compare(k, ct == Ct::Compressed, &frames(&s.values), &dec.frames)?;
                if k == Kind::Transform && count > 0 {
                    ensure!(dec.compensate == s.compensate_scale, "meta:compensate-scale", "{} instead of {}", dec.compensate, s.compensate_scale);
                }
                pos = end;
            }
        }
    }
    ensure!(pos == buffer.len(), "layout:cover", "tracks end at {pos} of {}", buffer.len());
    Ok(true)
}

pub(super) type Judge = fn(&mut Ctx, &AnimData) -> RunResult;

const LENS: [usize; 17] = [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 34, 35, 40];

pub(super) fn common(thorough: bool, judge: Judge) -> Vec<Scenario> {
    let mut out = vec![];
    for k in KINDS {
        let kdev = if thorough { 4 } else { 3 };
        out.push(scenario(format!("values-{k:?}"), kdev, move |ctx: &mut Ctx| {
            let n = LENS[ctx.free(LENS.len())];
            let minor = ctx.choose(2) as u16;
            let comp = ctx.choose(2) == 1;
            let fl = ctx.choose(5);
            let f = gen_frames(ctx, k, n);
            ctx.note(|| format!("{k:?} x {n}, minor {minor}, compensate {comp}: {f:x?}"));
            let mut t = track("Track", values(k, &f));
            t.compensate_scale = comp;
            match fl {
                1 => t.transform_flags.override_translation = true,
                2 => t.transform_flags.override_rotation = true,
                3 => t.transform_flags.override_scale = true,
                4 => t.transform_flags.override_compensate_scale = true,
                _ => {}
            }
            judge(ctx, &one(minor, t))
        }));
    }
    // tracks whose values repeat, or end like, those of tracks before them
    for k in KINDS {
        out.push(scenario(format!("repeats-{k:?}"), 0, move |ctx: &mut Ctx| {
            let n = [1, 2, 3, 9, 33, 100, 300, 1000][ctx.free(if thorough { 8 } else { 7 })];
            let minor = ctx.free(2) as u16;
            let (folders, of) = (ctx.free(3), ctx.free(2));
            let mut c = Ctx::new(vec![], false);
            let a = gen_frames(&mut c, k, n);
            let variants = [a.clone(), a[n / 2..].to_vec(), a[..n - n / 2].to_vec(), vec![a[n - 1].clone(); n]];
            let count = if thorough { 4 } else { 3 };
            for code in 0..4usize.pow(count) {
                ctx.case();
                let tracks: Vec<TrackData> = (0..count)
                    .map(|i| {
                        let mut t = track(&format!("t{}", i % 2), values(k, &variants[code / 4usize.pow(i) % 4]));
                        t.compensate_scale = of == 1;
                        t
                    })
                    .collect();
                let node = |ts: Vec<TrackData>| NodeData { name: "n".into(), tracks: ts };
                let group = |nodes: Vec<NodeData>| GroupData { group_type: GroupType::Transform, nodes };
                let groups = match folders {
                    0 => vec![group(vec![node(tracks)])],
                    1 => vec![group(tracks.into_iter().map(|t| node(vec![t])).collect())],
                    _ => tracks.into_iter().map(|t| group(vec![node(vec![t])])).collect(),
                };
                judge(ctx, &anim_of(minor, groups))?;
            }
            Ok(true)
        }));
    }
    // all boolean sequences of the short lengths, all pairs of positions for the long ones
    out.push(scenario("bool-all", 0, move |ctx: &mut Ctx| {
        let n = ctx.free(if thorough { 15 } else { 11 });
        for bits in 0..1u32 << n {
            ctx.case();
            let v: Vec<bool> = (0..n).map(|i| bits >> i & 1 == 1).collect();
            judge(ctx, &one((bits % 2) as u16, track("b", TrackValues::Boolean(v))))?;
        }
        Ok(true)
    }));
    out.push(scenario("bool-long", 0, move |ctx: &mut Ctx| {
        let n = 33 + ctx.free(if thorough { 40 } else { 16 });
        let a = ctx.free(n);
        let inv = ctx.free(2) == 1;
        for b in a..n {
            ctx.case();
            let v: Vec<bool> = (0..n).map(|i| (i == a || i == b) != inv).collect();
            judge(ctx, &one(0, track("b", TrackValues::Boolean(v))))?;
        }
        Ok(true)
    }));
    // two index values: every pair of boundary values, every position of the odd one
    out.push(scenario("pattern-pairs", 0, move |ctx: &mut Ctx| {
        const V: [u32; 12] = [0, 1, 2, 0x7fffff, 0x800000, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, u32::MAX];
        let a = V[ctx.free(12)];
        let b = V[ctx.free(12)];
        let n = [2, 10, 11, 12, 13][ctx.free(5)];
        for at in 0..n {
            ctx.case();
            judge(ctx, &one(1, track("p", TrackValues::PatternIndex((0..n).map(|i| if i == at { b } else { a }).collect()))))?;
        }
        Ok(true)
    }));
    // three floats of a boundary palette, in all orders, within a long track
    out.push(scenario("float-triples", 0, move |ctx: &mut Ctx| {
        const V: [f32; 10] = [0.0, 1.0, -1.0, 0.1, 1e-45, 1.1754944e-38, 16777216.0, 3.4028235e38, -3.4028235e38, 0.99999994];
        let a = V[ctx.free(10)];
        let b = V[ctx.free(10)];
        for c in V {
            for n in [3usize, 12, 21] {
                ctx.case();
                judge(ctx, &one(0, track("f", TrackValues::Float((0..n).map(|i| [a, b, c][i % 3]).collect()))))?;
            }
        }
        Ok(true)
    }));
    // every vector spike: position x component
    out.push(scenario("spikes", 0, move |ctx: &mut Ctx| {
        let k = [Kind::Transform, Kind::Uv, Kind::Vec4][ctx.free(3)];
        let n = [7usize, 9, 10, 16][ctx.free(4)];
        let base = ctx.free(3);
        for at in 0..n {
            for c in 0..k.comps() {
                if k == Kind::Transform && (3..7).contains(&c) {
                    continue;
                }
                ctx.case();
                let mut f: Frames = (0..n)
                    .map(|i| {
                        (0..k.comps())
                            .map(|c| {
                                let rot = k == Kind::Transform && (3..7).contains(&c);
                                match (rot, base) {
                                    (true, _) => qpat(0, i, n)[c - 3],
                                    (_, 0) => 1.0,
                                    (_, 1) => i as f32,
                                    _ => c as f32,
                                }
                                .to_bits()
                            })
                            .collect()
                    })
                    .collect();
                f[at][c] = (-3.5f32).to_bits();
                judge(ctx, &one(0, track("s", values(k, &f))))?;
            }
        }
        Ok(true)
    }));
    // all lists of tracks over kind x length class
    let m = if thorough { 4 } else { 3 };
    out.push(scenario("lists", 0, move |ctx: &mut Ctx| {
        let n = ctx.free(m) + 1;
        let nl = if n == 4 { 2 } else if n == 3 { 3 } else { 5 };
        let ts: Vec<TrackData> = (0..n)
            .map(|i| {
                let k = KINDS[ctx.free(6)];
                let len = match (ctx.free(nl), n) {
                    (0, _) => 1,
                    (1, _) => 37,
                    (2, _) => 3,
                    (3, _) => 0,
                    _ => 8,
                };
                let f = gen_frames_default(k, len, i);
                track(&format!("t{i}"), values(k, &f))
            })
            .collect();
        judge(ctx, &one(0, ts[0].clone()).with(ts))
    }));
    // all shapes of groups, nodes and tracks
    out.push(scenario("shapes", 0, move |ctx: &mut Ctx| {
        let top = if thorough { 4 } else { 3 };
        let gt = [GroupType::Transform, GroupType::Visibility, GroupType::Material, GroupType::Camera];
        let mut c = ctx.free(6);
        let ng = ctx.free(top);
        let groups = (0..ng)
            .map(|gi| GroupData {
                group_type: gt[(gi + c) % 4],
                nodes: (0..ctx.free(3))
                    .map(|ni| NodeData {
                        name: ["n", "", "ö", "a longer node name"][(gi + ni + c) % 4].into(),
                        tracks: (0..ctx.free(3))
                            .map(|_| {
                                c += 1;
                                let k = KINDS[c % 6];
                                track(["T", "", "Visibility", "CustomVector31"][c % 4], values(k, &gen_frames_default(k, [1, 12, 4, 38, 0, 2, 7][c % 7], c)))
                            })
                            .collect(),
                    })
                    .collect(),
            })
            .collect();
        judge(ctx, &anim_of((c % 2) as u16, groups))
    }));
    // long tracks
    out.push(scenario("long", 0, move |ctx: &mut Ctx| {
        let k = KINDS[ctx.free(6)];
        let n = [255usize, 256, 257, 1000, 65535, 65536, 65537, if thorough { 200_000 } else { 5000 }][ctx.free(8)];
        let f = gen_frames_default(k, n, 1);
        judge(ctx, &one(1, track("long", values(k, &f))))
    }));
    // many tracks, nodes or groups, and tracks that lie far behind in the buffer
    out.push(scenario("many", 0, move |ctx: &mut Ctx| {
        let k = KINDS[ctx.free(6)];
        let n = [127usize, 128, 129, 255, 256, 257, 300, 1025][ctx.free(8)];
        let level = ctx.free(3);
        let t = |i: usize| track(&format!("t{i}"), values(k, &gen_frames_default(k, [1, 3, 12][i % 3], i)));
        let node = |i: usize, tracks: Vec<TrackData>| NodeData { name: format!("n{i}"), tracks };
        let group = |nodes: Vec<NodeData>| GroupData { group_type: GroupType::Material, nodes };
        let groups = match level {
            0 => vec![group(vec![node(0, (0..n).map(t).collect()), node(1, vec![t(1)])])],
            1 => vec![group((0..n).map(|i| node(i, vec![t(i)])).collect())],
            _ => (0..n).map(|i| group(vec![node(i, vec![t(i)])])).collect(),
        };
        judge(ctx, &anim_of(1, groups))
    }));
    out.push(scenario("far", 0, move |ctx: &mut Ctx| {
        let (a, b) = (KINDS[ctx.free(6)], KINDS[ctx.free(6)]);
        let n = [2000usize, if thorough { 400_000 } else { 17_000 }][ctx.free(2)];
        let ts = vec![track("a", values(a, &gen_frames_default(a, n, 3))), track("b", values(b, &gen_frames_default(b, 5, 4))), track("c", values(Kind::Float, &gen_frames_default(Kind::Float, 30, 5)))];
        judge(ctx, &one(1, ts[0].clone()).with(ts))
    }));
    out
}

trait With {
    fn with(self, t: Vec<TrackData>) -> AnimData;
}
impl With for AnimData {
    fn with(mut self, t: Vec<TrackData>) -> AnimData {
        self.groups[0].nodes[0].tracks = t;
        anim_of(self.minor_version, self.groups)
    }
}

pub(super) fn gen_frames_default(k: Kind, n: usize, seed: usize) -> Frames {
    (0..n)
        .map(|i| match k {
            Kind::Transform => {
                let q = qpat(0, i + seed, n);
                let g = |c: usize| fpat(0, i + c + seed, n).to_bits();
                vec![g(0), g(1), g(2), q[0].to_bits(), q[1].to_bits(), q[2].to_bits(), q[3].to_bits(), g(5), g(9), g(11)]
            }
            Kind::Uv => (0..5).map(|c| fpat(0, i * (c + 1) + seed, n).to_bits()).collect(),
            Kind::Vec4 => (0..4).map(|c| fpat(0, i * (c + 1) + seed, n).to_bits()).collect(),
            Kind::Float => vec![fpat(0, i + seed, n).to_bits()],
            Kind::Pattern => vec![(i * (seed + 1)) as u32],
            Kind::Bool => vec![((i * 5 + seed) % 3 == 0) as u32],
        })
        .collect()
}

fn c12(thorough: bool) -> Vec<Scenario> {
    let mut out = common(thorough, survives);
    // version 1.2: groups in order of the first track of each type, one node per track
    out.push(scenario("v12-order", 0, move |ctx: &mut Ctx| {
        use raw::*;
        let n = ctx.free(if thorough { 7 } else { 5 });
        let ty = [TrackTypeV1::Transform, TrackTypeV1::UvTransform, TrackTypeV1::Visibility];
        let tys: Vec<usize> = (0..n).map(|_| ctx.free(3)).collect();
        let a = Anim::V12 {
            name: "a".into(),
            unk1: 0.0,
            final_frame_index: 7.0,
            unk2: 1.0,
            unk3: 2.0,
            tracks: tys.iter().enumerate().map(|(i, t)| TrackV1 { name: format!("t{i}").as_str().into(), track_type: ty[*t], properties: Default::default() }).collect::<Vec<_>>().into(),
            buffers: Default::default(),
        };
        let mut c = Cursor::new(vec![]);
        a.write(&mut c).or_fail("write")?;
        let bytes = c.into_inner();
        ctx.hash_bytes(&bytes);
        let d = read(&bytes)?;
        for _ in 0..3 {
            ensure!(read(&bytes)? == d, "v12:repeat", "two reads of one file differ");
        }
        ensure!(d.final_frame_index == 7.0 && (d.major_version, d.minor_version) == (1, 2), "v12:meta", "{d:?}");
        let mut want: Vec<(usize, Vec<String>)> = vec![];
        for (i, t) in tys.iter().enumerate() {
            let name = format!("t{i}");
            match want.iter_mut().find(|w| w.0 == *t) {
                Some(w) => w.1.push(name),
                None => want.push((*t, vec![name])),
            }
        }
        let gt = [GroupType::Transform, GroupType::Material, GroupType::Visibility];
        let got: Vec<(GroupType, Vec<String>)> = d.groups.iter().map(|g| (g.group_type, g.nodes.iter().map(|n| n.name.clone()).collect())).collect();
        let want: Vec<(GroupType, Vec<String>)> = want.into_iter().map(|(t, n)| (gt[t], n)).collect();
        ensure!(got == want, "v12:groups", "{got:?} instead of {want:?}");
        ensure!(d.groups.iter().flat_map(|g| &g.nodes).all(|n| n.tracks.len() == 1), "v12:tracks", "{d:?}");
        Ok(true)
    }));
    out
}

fn c13(thorough: bool) -> Vec<Scenario> {
    let mut out = common(thorough, laid_out);
    out.push(scenario("final-frame", 0, move |ctx: &mut Ctx| {
        const F: [f32; 16] = [f32::NAN, f32::NEG_INFINITY, -1.0, -1e-30, -0.0, 0.0, 0.5, 1.0, 1.9999999, 2.0, 2.5, 3.0, 3.5, 4.0, 1e30, f32::INFINITY];
        let n = ctx.free(4);
        let lens: Vec<usize> = (0..n).map(|_| ctx.free(6)).collect();
        let split = ctx.free(3);
        for f in F {
            ctx.case();
            let ts: Vec<TrackData> = lens.iter().map(|l| track("t", TrackValues::Float(vec![1.0; *l]))).collect();
            let node = |t: Vec<TrackData>| NodeData { name: "n".into(), tracks: t };
            let group = |n: Vec<NodeData>| GroupData { group_type: GroupType::Camera, nodes: n };
            // the longest track may be anywhere
            let groups = match split {
                0 => vec![group(vec![node(ts)])],
                1 => vec![group(ts.into_iter().map(|t| node(vec![t])).collect())],
                _ => ts.into_iter().map(|t| group(vec![node(vec![]), node(vec![t])])).collect(),
            };
            let mut d = anim_of(1, groups);
            d.final_frame_index = f;
            let max = lens.iter().copied().max().unwrap_or(0);
            let ok = f >= 0.0 && f >= max as f32 - 1.0;
            ctx.hash_bytes(format!("{lens:?}{f}{split}").as_bytes());
            match Anim::try_from(&d) {
                Ok(_) => {
                    ensure!(ok, "reject:final-frame", "final frame {f} accepted for lengths {lens:?}");
                    laid_out(ctx, &d)?;
                }
                Err(error::Error::InvalidFinalFrameIndex { final_frame_index }) => {
                    ensure!(!ok, "accept:final-frame", "final frame {f} rejected for lengths {lens:?}");
                    ensure!(final_frame_index.to_bits() == f.to_bits(), "error:final-frame", "{final_frame_index}");
                    let mut c = Cursor::new(vec![]);
                    ensure!(d.write(&mut c).is_err() && c.into_inner().is_empty(), "reject:write", "written");
                }
                Err(e) => return fail("error:kind", format!("{e} for final frame {f}")),
            }
        }
        Ok(true)
    }));
    out.push(scenario("versions", 0, move |ctx: &mut Ctx| {
        let v = [0u16, 1, 2, 3, 12, 20, 21, 256, 258, 512, 65535];
        let (a, b) = (v[ctx.free(v.len())], v[ctx.free(v.len())]);
        for body in 0..2 {
            ctx.case();
            let mut d = if body == 0 { anim_of(0, vec![]) } else { crate::samples::anim(0, crate::samples::tracks(9)) };
            d.major_version = a;
            d.minor_version = b;
            ctx.hash_u64((a as u64) << 32 | b as u64);
            let ok = a == 2 && b <= 1;
            match Anim::try_from(&d) {
                Ok(_) => {
                    ensure!(ok, "reject:version", "{a}.{b} accepted");
                    laid_out(ctx, &d)?;
                }
                Err(error::Error::UnsupportedVersion { major_version, minor_version }) => {
                    ensure!(!ok && (major_version, minor_version) == (a, b), "accept:version", "{a}.{b} rejected as {major_version}.{minor_version}");
                    let mut c = Cursor::new(vec![]);
                    ensure!(d.write(&mut c).is_err() && c.into_inner().is_empty(), "reject:write", "written");
                }
                Err(e) => return fail("error:kind", format!("{e} for version {a}.{b}")),
            }
        }
        Ok(true)
    }));
    out
}

// ---------------------------------------------------------------------------------------------
// C29: hand-encoded track data

pub(super) struct Enc {
    pub(super) kind: Kind,
    pub(super) compression: raw::CompressionType,
    pub(super) count: usize,
    pub(super) data: Vec<u8>,
    /// what a reader must return
    pub(super) want: Frames,
    pub(super) compensate: bool,
}

fn le32(v: &mut Vec<u8>, x: u32) {
    v.extend(x.to_le_bytes());
}

fn put_frame(out: &mut Vec<u8>, k: Kind, f: &[u32], compensate: u32) {
    if k == Kind::Bool {
        out.push(f[0] as u8);
        return;
    }
    for x in f {
        le32(out, *x);
    }
    if k == Kind::Transform {
        le32(out, compensate);
    }
}

#[derive(Clone)]
pub(super) struct Layout {
    /// bytes between the header and the first region
    pub(super) gap: usize,
    /// bits in front of the default value
    pub(super) swapped: bool,
    /// further bytes after the last region
    pub(super) tail: usize,
}

/// Encodes compressed data with explicit ranges and raw stored numbers.
pub(super) fn enc_compressed(k: Kind, flags: u16, ranges: &[Range], default: &[u32], compensate: u32, raws: &[Vec<u64>], signs: &[bool], lay: &Layout) -> Enc {
    let (st, sign) = stored(k, flags);
    let mut s = BitSink::default();
    for (i, f) in raws.iter().enumerate() {
        for (j, (_, r)) in st.iter().enumerate() {
            s.put(f[j], range_bits(k, &ranges[*r]));
        }
        if sign {
            s.put(signs[i] as u64, 1);
        }
    }
    let head = 16 + 16 * k.ranges();
    let mut def = vec![];
    put_frame(&mut def, k, default, compensate);
    let (d_at, b_at) = if lay.swapped {
        (head + lay.gap + s.bytes.len(), head + lay.gap)
    } else {
        (head + lay.gap, head + lay.gap + def.len() + lay.gap)
    };
    let mut b = vec![];
    b.extend(4u16.to_le_bytes());
    b.extend(flags.to_le_bytes());
    b.extend((d_at as u16).to_le_bytes());
    b.extend((bits_per_entry(k, flags, ranges) as u16).to_le_bytes());
    le32(&mut b, b_at as u32);
    le32(&mut b, raws.len() as u32);
    if k == Kind::Bool {
        b.extend([0u8; 16]);
    } else {
        for r in ranges {
            le32(&mut b, r.min);
            le32(&mut b, r.max);
            b.extend(r.bits.to_le_bytes());
        }
    }
    let end = (d_at + def.len()).max(b_at + s.bytes.len());
    b.resize(end, 0xa5);
    b[d_at..d_at + def.len()].copy_from_slice(&def);
    b[b_at..b_at + s.bytes.len()].copy_from_slice(&s.bytes);
    b.resize(end + lay.tail, 0x5a);
    let mut want = decode_bits(k, flags, ranges, default, &s.bytes, raws.len()).unwrap();
    if bits_per_entry(k, flags, ranges) == 0 {
        want.truncate(1);
    }
    Enc { kind: k, compression: raw::CompressionType::Compressed, count: raws.len(), data: b, want, compensate: k == Kind::Transform && compensate != 0 && !raws.is_empty() }
}

pub(super) fn enc_direct(k: Kind, ct: raw::CompressionType, f: Frames, compensate: u32) -> Enc {
    let mut data = vec![];
    for x in &f {
        put_frame(&mut data, k, x, compensate);
    }
    let mut want = f;
    if k == Kind::Bool {
        for x in &mut want {
            x[0] = (x[0] != 0) as u32;
        }
    }
    Enc { kind: k, compression: ct, count: want.len(), data, compensate: k == Kind::Transform && compensate != 0 && !want.is_empty(), want }
}

pub(super) fn track_type(k: Kind) -> raw::TrackTypeV2 {
    use raw::TrackTypeV2::*;
    match k {
        Kind::Transform => Transform,
        Kind::Uv => UvTransform,
        Kind::Float => Float,
        Kind::Pattern => PatternIndex,
        Kind::Bool => Boolean,
        Kind::Vec4 => Vector4,
    }
}

/// Reads a file with the given tracks placed at the given offsets and compares every track.
fn decode_case(ctx: &mut Ctx, minor: u16, encs: &[Enc], offsets: &[usize], buffer: Vec<u8>, after: Judge) -> RunResult {
    let tracks: Vec<raw::TrackV2> = encs
        .iter()
        .zip(offsets)
        .enumerate()
        .map(|(i, (e, o))| raw::TrackV2 {
            name: format!("t{i}").as_str().into(),
            flags: raw::TrackFlags { track_type: track_type(e.kind), compression_type: e.compression },
            frame_count: e.count as u32,
            transform_flags: Default::default(),
            data_offset: *o as u32,
            data_size: e.data.len() as u64,
        })
        .collect();
    let groups = vec![raw::Group { group_type: GroupType::Transform, nodes: vec![raw::Node { name: "n".into(), tracks: tracks.into() }].into() }];
    let a = match minor {
        0 => Anim::V20 { final_frame_index: 0.0, unk1: 1, unk2: 3, name: "".into(), groups: groups.into(), buffer: buffer.into() },
        _ => Anim::V21 { final_frame_index: 0.0, unk1: 1, unk2: 3, name: "".into(), groups: groups.into(), buffer: buffer.into(), unk_data: raw::UnkData { unk1: Default::default(), unk2: Default::default() } },
    };
    let mut c = Cursor::new(vec![]);
    a.write(&mut c).or_fail("write")?;
    let bytes = c.into_inner();
    ctx.hash_bytes(&bytes);
    ctx.step();
    let d = read(&bytes)?;
    let got = &d.groups[0].nodes[0].tracks;
    ensure!(got.len() == encs.len(), "decode:tracks", "{}", got.len());
    for (i, (t, e)) in got.iter().zip(encs).enumerate() {
        ensure!(t.name == format!("t{i}"), "decode:name", "{}", t.name);
        let k = e.kind;
        ensure!(Kind::of(&t.values) == k, "decode:type", "{:?} instead of {k:?}", Kind::of(&t.values));
        ensure!(t.compensate_scale == e.compensate, "decode:compensate-scale", "{} instead of {}", t.compensate_scale, e.compensate);
        let f = frames(&t.values);
        ensure!(f.len() == e.want.len(), "decode:frames", "{k:?}: {} frames instead of {}", f.len(), e.want.len());
        let float = !matches!(k, Kind::Pattern | Kind::Bool);
        for (fi, (x, y)) in e.want.iter().zip(&f).enumerate() {
            for c in 0..k.comps() {
                let same = if x[c] == y[c] {
                    true
                } else if float && e.compression == raw::CompressionType::Compressed {
                    let (p, q) = (f32::from_bits(x[c]) as f64, f32::from_bits(y[c]) as f64);
                    if k == Kind::Transform && c == 6 {
                        (p * p - q * q).abs() <= 1e-6 && (p == 0.0 || q == 0.0 || (p < 0.0) == (q < 0.0))
                    } else {
                        (p - q).abs() <= ulp(p.abs().max(q.abs()))
                    }
                } else {
                    false
                };
                ensure!(same, "decode:value", "{k:?} track {i} frame {fi} component {c}: {:x} ({}) instead of {:x} ({})", y[c], f32::from_bits(y[c]), x[c], f32::from_bits(x[c]));
            }
        }
    }
    after(ctx, &d)
}

fn single(ctx: &mut Ctx, e: Enc, after: Judge) -> RunResult {
    let b = e.data.clone();
    decode_case(ctx, 0, &[e], &[0], b, after)
}

fn raw_num(p: usize, i: usize, j: usize, bits: u64) -> u64 {
    if bits == 0 {
        return 0;
    }
    let m = (1u64 << bits) - 1;
    match p {
        0 => (i as u64 * 0x9e37_79b9 + j as u64 * 0x85eb_ca6b + 12345).wrapping_mul(0x2545_f491) >> 7 & m,
        1 => 0,
        2 => m,
        3 => if (i + j) % 2 == 0 { m } else { 0 },
        4 => 1 << ((i + j) as u64 % bits),
        _ => m ^ (1 << ((i + j) as u64 % bits)),
    }
}

fn c29(thorough: bool) -> Vec<Scenario> {
    encodings(thorough, |_, _| Ok(true))
}

/// Animations with every encoding a file may use, and what to check on each after reading it.
pub(super) fn encodings(thorough: bool, after: Judge) -> Vec<Scenario> {
    let mut out = vec![];
    const BITS: [u64; 12] = [24, 0, 1, 2, 3, 7, 8, 9, 16, 17, 31, 32];
    // min, max pairs (f32)
    const R: [(f32, f32); 8] = [(-1.0, 1.0), (0.0, 0.0), (0.0, 1.0), (2.0, -2.0), (1.0, 1.0000001), (-0.7, 0.7), (1000.0, 1000000.0), (-0.0, 0.0)];
    for k in KINDS {
        out.push(scenario(format!("compressed-{k:?}"), if thorough { 3 } else { 2 }, move |ctx: &mut Ctx| {
            let flags = match k {
                Kind::Transform => ctx.free(16) as u16,
                Kind::Uv => ctx.choose(16) as u16,
                _ => 0,
            };
            let flags = if k == Kind::Transform { flags ^ 0b1101 } else { flags };
            let lay = match ctx.choose(5) {
                0 => Layout { gap: 0, swapped: false, tail: 0 },
                1 => Layout { gap: 3, swapped: false, tail: 0 },
                2 => Layout { gap: 0, swapped: true, tail: 0 },
                3 => Layout { gap: 5, swapped: true, tail: 2 },
                _ => Layout { gap: 0, swapped: false, tail: 9 },
            };
            let n = [3usize, 0, 1, 2, 9, 40][ctx.choose(6)];
            let pat = ctx.choose(6);
            let comp = [0u32, 1, 2][ctx.choose(3)];
            let ranges: Vec<Range> = (0..k.ranges())
                .map(|_| match k {
                    Kind::Bool => Range { min: 0, max: 0, bits: 1 },
                    Kind::Pattern => {
                        let m = [(0u32, 5u32), (3, 3), (7, u32::MAX), (u32::MAX, 0)][ctx.choose(4)];
                        Range { min: m.0, max: m.1, bits: BITS[ctx.choose(12)] }
                    }
                    _ => {
                        let r = R[if k == Kind::Transform { [0usize, 1, 2, 3, 5, 4, 6, 7][ctx.choose(8)] } else { ctx.choose(8) }];
                        let r = if k == Kind::Transform && r == (-1.0, 1.0) { (-0.5, 0.5) } else { r };
                        Range { min: r.0.to_bits(), max: r.1.to_bits(), bits: BITS[ctx.choose(12)] }
                    }
                })
                .collect();
            // the default differs from both ends of every range
            let default: Vec<u32> = (0..k.comps()).map(|c| if k == Kind::Bool { 1 } else { (10.5 + c as f32).to_bits() }).collect();
            let (st, _) = stored(k, flags);
            let raws: Vec<Vec<u64>> = (0..n).map(|i| st.iter().enumerate().map(|(j, (_, r))| raw_num(pat, i, j, range_bits(k, &ranges[*r]))).collect()).collect();
            let signs: Vec<bool> = (0..n).map(|i| (i + pat) % 3 == 1).collect();
            ctx.note(|| format!("{k:?} flags {flags:#x} ranges {ranges:x?} raw {raws:x?} signs {signs:?}"));
            let e = enc_compressed(k, flags, &ranges, &default, comp, &raws, &signs, &lay);
            single(ctx, e, after)
        }));
    }
    // every bit count x every stored number pattern of one float
    out.push(scenario("bit-counts", 0, move |ctx: &mut Ctx| {
        let bits = ctx.free(33) as u64;
        let r = R[ctx.free(8)];
        let k = [Kind::Float, Kind::Vec4, Kind::Pattern][ctx.free(3)];
        for pat in 0..6 {
            for n in [1usize, 2, 7, 33] {
                ctx.case();
                let rg = if k == Kind::Pattern { Range { min: r.0.to_bits(), max: r.1.to_bits(), bits } } else { Range { min: r.0.to_bits(), max: r.1.to_bits(), bits } };
                let ranges = vec![rg; k.ranges()];
                let raws: Vec<Vec<u64>> = (0..n).map(|i| (0..k.comps()).map(|j| raw_num(pat, i, j, range_bits(k, &rg))).collect()).collect();
                let default = vec![5.5f32.to_bits(); k.comps()];
                let e = enc_compressed(k, 0, &ranges, &default, 0, &raws, &vec![false; n], &Layout { gap: 0, swapped: false, tail: 0 });
                single(ctx, e, after)?;
            }
        }
        Ok(true)
    }));
    // all values of small bit counts
    out.push(scenario("all-codes", 0, move |ctx: &mut Ctx| {
        let bits = ctx.free(if thorough { 12 } else { 9 }) as u64 + 1;
        let r = R[ctx.free(8)];
        let rg = Range { min: r.0.to_bits(), max: r.1.to_bits(), bits };
        let raws: Vec<Vec<u64>> = (0..1u64 << bits).map(|x| vec![x]).collect();
        let n = raws.len();
        ctx.cases += n as u64;
        let e = enc_compressed(Kind::Float, 0, &[rg], &[0], 0, &raws, &vec![false; n], &Layout { gap: 0, swapped: false, tail: 0 });
        single(ctx, e, after)
    }));
    // uncompressed data under every non-compressed type, any number of frames
    out.push(scenario("direct", 0, move |ctx: &mut Ctx| {
        use raw::CompressionType as Ct;
        let k = KINDS[ctx.free(6)];
        let ct = [Ct::Direct, Ct::ConstTransform, Ct::Constant][ctx.free(3)];
        let n = [0usize, 1, 2, 3, 17, 100][ctx.free(6)];
        let comp = [0u32, 1, 2, u32::MAX][ctx.free(4)];
        let pat = ctx.free(4);
        let f: Frames = (0..n)
            .map(|i| {
                (0..k.comps())
                    .map(|c| match (k, pat) {
                        (Kind::Bool, p) => [(i % 2) as u32, 0, 1, (i % 5 * 51) as u32][p],
                        (_, 0) => (i as f32 + c as f32 * 0.5).to_bits(),
                        (_, 1) => 0,
                        (_, 2) => [0x8000_0000u32, 1, 0x7f7f_ffff, 0x7f80_0000, 0xff80_0000][(i + c) % 5],
                        _ => 0x3f80_0000 + (i * 10 + c) as u32,
                    })
                    .collect()
            })
            .collect();
        let e = enc_direct(k, ct, f, comp);
        single(ctx, e, after)
    }));
    // several tracks: any order, gaps, shared and overlapping ranges
    out.push(scenario("placements", 0, move |ctx: &mut Ctx| {
        use raw::CompressionType as Ct;
        let n = ctx.free(3) + 1;
        let mk = |x: usize| -> Enc {
            let k = KINDS[x / 2];
            if x % 2 == 0 {
                enc_direct(k, Ct::Direct, gen_frames_default(k, 3, x), 1)
            } else {
                let rg = Range { min: (-0.5f32).to_bits(), max: 0.5f32.to_bits(), bits: 11 };
                let rg = if k == Kind::Pattern { Range { min: 4, max: 100, bits: 7 } } else { rg };
                let ranges = vec![rg; k.ranges()];
                let flags = if matches!(k, Kind::Transform | Kind::Uv) { 13 } else { 0 };
                let (st, _) = stored(k, flags);
                let raws: Vec<Vec<u64>> = (0..5).map(|i| st.iter().enumerate().map(|(j, (_, r))| raw_num(0, i, j, range_bits(k, &ranges[*r]))).collect()).collect();
                enc_compressed(k, flags, &ranges, &vec![1; k.comps()], 0, &raws, &[true, false, false, true, false], &Layout { gap: 0, swapped: false, tail: 0 })
            }
        };
        let idx: Vec<usize> = (0..n).map(|_| ctx.free(12)).collect();
        let encs: Vec<Enc> = idx.iter().map(|x| mk(*x)).collect();
        let place = ctx.free(4);
        let mut buffer = vec![];
        let mut offsets = vec![0; n];
        let order: Vec<usize> = if place == 1 { (0..n).rev().collect() } else { (0..n).collect() };
        for i in order {
            if place == 2 {
                buffer.extend([0xeeu8; 5]);
            }
            if place == 3 {
                // equal tracks share one range
                if let Some(j) = (0..i).find(|j| idx[*j] == idx[i]) {
                    offsets[i] = offsets[j];
                    continue;
                }
            }
            offsets[i] = buffer.len();
            buffer.extend(&encs[i].data);
        }
        if place == 2 {
            buffer.extend([1, 2, 3]);
        }
        decode_case(ctx, (place % 2) as u16, &encs, &offsets, buffer, after)
    }));
    out
}
