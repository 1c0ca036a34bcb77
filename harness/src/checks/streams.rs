//! C35: files at any aligned position of a stream, whatever else the stream holds.
use crate::explore::*;
use crate::far::Far;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, fmt, samples, Check};
use serde_json::Value;
use ssbh_data::prelude::*;
use ssbh_lib::prelude::*;
use std::io::{Read, Seek, SeekFrom, Write};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C35",
        level: "exploration",
        rule: "one case = one file value written to and read from one position of a stream with given earlier and later contents, or one sequence of files in one stream; distinct by the file and the place",
        assumptions: &["positions are multiples of 16; adj files extend to the end of the stream, pointers of meshex files count from the start of the stream"],
        scenarios: c35,
        hang_s: 60,
    }]
}

const FILL: u8 = 0xa5;

/// Where a file goes: its position, and what the stream holds before it is written.
#[derive(Clone, Copy, Debug)]
struct Place {
    /// what comes before this position of the stream is neither written nor needed
    base: u64,
    at: usize,
    /// length of the earlier contents relative to the position (at least zero contents)
    held: i64,
    fill: u8,
}

fn place(ctx: &mut Ctx, free: bool, overwrite: bool) -> Place {
    let at = [16usize, 0, 32, 48, 80, 112, 4096, 65_536][if free { ctx.free(8) } else { ctx.choose(8) }];
    let helds: &[i64] = if overwrite { &[0, -7, 1, 16, 100, 1000, 100_000] } else { &[0, -7, -1000] };
    let held = helds[if free { ctx.free(helds.len()) } else { ctx.choose(helds.len()) }];
    let fill = [FILL, 0, 0xff][if free { ctx.free(3) } else { ctx.choose(3) }];
    // some beyond 4 GiB, or across that position
    let bases = [0, (1 << 31) - 128, (1 << 32) - 128, (1 << 32) - 4112, 1 << 32, 1 << 33, 1 << 48];
    let base = if free && at <= 112 && held.unsigned_abs() <= 100 && fill == FILL { bases[ctx.free(bases.len())] } else { bases[ctx.choose(bases.len())] };
    Place { base, at, held, fill }
}

type WriteAt<'a> = &'a dyn Fn(&mut Far) -> Result<(), String>;
type ReadAt<'a> = &'a dyn Fn(&mut Far) -> Result<Value, String>;

/// What kinds of files promise.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// positions in the file are relative to themselves
    Relative,
    /// positions in the file count from the start of the stream
    Absolute,
    /// the file extends to the end of the stream
    ToEnd,
}

fn check(ctx: &mut Ctx, p: Place, kind: Kind, write: WriteAt, read: ReadAt) -> RunResult {
    let mut fresh = Far::of(vec![]);
    if write(&mut fresh).is_err() {
        return Ok(false);
    }
    let fresh = fresh.into_last();
    let want = read(&mut Far::of(fresh.clone())).or_fail("read:start")?;
    ctx.hash_bytes(&fresh);
    ctx.hash_bytes(format!("{p:?}").as_bytes());
    ctx.note(|| format!("{p:?}: file of {} bytes: {}", fresh.len(), want.to_string().chars().take(400).collect::<String>()));
    // write
    let held = (p.at as i64 + p.held).max(0) as usize;
    let before: Vec<u8> = (0..held).map(|i| if i < p.at { (i % 251) as u8 ^ p.fill } else { p.fill }).collect();
    let mut c = Far::new(vec![(p.base, before.clone())], p.fill);
    c.set_position(p.base + p.at as u64);
    write(&mut c).map_err(|e| failure("write", format!("the file can be written at the start of a stream but not at {p:?}: {e}")))?;
    ctx.step();
    let got = c.into_last();
    for i in 0..p.at.min(got.len()) {
        let b = before.get(i).copied().unwrap_or(0);
        ensure!(got[i] == b, "before", "{p:?}: byte {i} before the file changes from {b:02x} to {:02x}", got[i]);
    }
    let end = p.at + fresh.len();
    ensure!(got.len() == end.max(held), "length", "{p:?}: a file of {} bytes leaves a stream of {} bytes", fresh.len(), got.len());
    for i in end..held {
        ensure!(got[i] == before[i], "after", "{p:?}: byte {i} after the file changes from {:02x} to {:02x}", before[i], got[i]);
    }
    if kind != Kind::Absolute {
        for i in 0..fresh.len() {
            let old = before.get(p.at + i).copied().unwrap_or(0);
            let b = got[p.at + i];
            // bytes between the parts of a file are not written
            ensure!(b == fresh[i] || fresh[i] == 0 && b == old, "bytes", "{p:?}: byte {i:#x} of the file is {b:02x} instead of {:02x}", fresh[i]);
        }
    }
    // read it where it is
    let mut c = Far::new(vec![(p.base, got)], p.fill);
    c.set_position(p.base + p.at as u64);
    let v = read(&mut c).map_err(|e| failure("reread", format!("the file written at {p:?} can not be read there: {e}")))?;
    ctx.step();
    if let Some(d) = json_diff(&want, &v) {
        return fail(&format!("value:{}", path_key(&d)), format!("{p:?}: {d}"));
    }
    if kind == Kind::Absolute {
        return Ok(true);
    }
    // the same file between other contents
    let mut s: Vec<u8> = vec![p.fill; p.at];
    s.extend(&fresh);
    if kind == Kind::Relative {
        s.extend(vec![p.fill; (p.held.unsigned_abs() as usize).min(200)]);
    }
    let mut c = Far::new(vec![(p.base, s)], p.fill);
    c.set_position(p.base + p.at as u64);
    let v = read(&mut c).map_err(|e| failure("copied", format!("a file copied to {p:?} can not be read there: {e}")))?;
    ctx.step();
    if let Some(d) = json_diff(&want, &v) {
        return fail(&format!("copied:{}", path_key(&d)), format!("{p:?}: {d}"));
    }
    Ok(true)
}

fn raw_case(ctx: &mut Ctx, r: &Root, ver: &Version, val: &Val, p: Place) -> RunResult {
    let j = file_json(r, ver, val);
    let f = fmt::from_json(&j).or_fail("json")?;
    let generic = check(
        ctx,
        p,
        Kind::Relative,
        &|c| f.write(c).map_err(|e| e.to_string()),
        &|c| SsbhFile::read(c).map_err(|e| e.to_string()).map(|f| fmt::json(&f)),
    )?;
    // through the type of the format
    macro_rules! typed {
        ($($t:ident),*) => {
            match f.data {
                $(ssbh_lib::Ssbh::$t(v) => check(
                    ctx,
                    p,
                    Kind::Relative,
                    &|c| v.data.write(c).map_err(|e| e.to_string()),
                    &|c| $t::read(c).map_err(|e| e.to_string()).map(|v| serde_json::to_value(&v).unwrap()),
                ),)*
            }
        };
    }
    typed!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr)?;
    Ok(generic)
}

struct Sample {
    name: &'static str,
    kind: Kind,
    write: Box<dyn Fn(&mut Far) -> Result<(), String> + Send + Sync>,
    read: fn(&mut Far) -> Result<Value, String>,
}
impl Sample {
    fn new<T: SsbhData + serde::Serialize + Send + Sync + 'static>(name: &'static str, kind: Kind, d: T) -> Sample {
        Sample { name, kind, write: Box::new(move |c| SsbhData::write(&d, c).map_err(|e| e.to_string())), read: |c| <T as SsbhData>::read(c).map_err(|e| e.to_string()).map(|d| serde_json::to_value(&d).unwrap()) }
    }
}

fn data() -> Vec<Sample> {
    use Kind::*;
    let mut large = samples::meshex();
    for g in large.mesh_object_groups.clone() {
        large.mesh_object_groups.push(g);
    }
    vec![
        Sample::new("anim20", Relative, samples::anim(0, samples::tracks(3))),
        Sample::new("anim21", Relative, samples::anim(1, samples::tracks(12))),
        Sample::new("mesh8", Relative, samples::mesh(8)),
        Sample::new("mesh9", Relative, samples::mesh(9)),
        Sample::new("mesh10", Relative, samples::mesh(10)),
        Sample::new("skel", Relative, samples::skel()),
        Sample::new("matl", Relative, samples::matl()),
        Sample::new("modl", Relative, samples::modl()),
        Sample::new("hlpb", Relative, samples::hlpb()),
        Sample::new("meshex", Absolute, samples::meshex()),
        Sample::new("meshex2", Absolute, large),
        Sample::new("meshex0", Absolute, MeshExData { mesh_object_groups: vec![] }),
        Sample::new("adj", ToEnd, samples::adj()),
    ]
}

/// Appends a file and tells where it starts.
fn append(c: &mut Far, write: WriteAt, gap: usize) -> Result<u64, Failure> {
    let end = c.seek(SeekFrom::End(0)).unwrap();
    c.write_all(&vec![FILL; (16 - end as usize % 16) % 16 + 16 * gap]).unwrap();
    let at = c.position();
    write(c).or_fail("append")?;
    Ok(at)
}

fn c35(thorough: bool) -> Vec<Scenario> {
    let s = Schema::get();
    let mut out = vec![];
    for (ri, r) in s.roots.iter().enumerate() {
        if matches!(r.name.as_str(), "MeshEx" | "Adj") {
            continue;
        }
        for (vi, v) in r.versions.iter().enumerate() {
            let rots = match r.name.as_str() {
                "Matl" => 9,
                "Nrpd" => 15,
                _ => 1,
            };
            let k = if thorough { 3 } else { 2 };
            out.push(scenario(format!("{}-{}-shape", r.name, v.name), k, move |ctx: &mut Ctx| {
                let s = Schema::get();
                let (r, v) = (&s.roots[ri], &s.roots[ri].versions[vi]);
                let p = if ctx.free(2) == 0 { place(ctx, false, true) } else { Place { base: 0, at: 80, held: 1000, fill: 0xff } };
                let val = Gen::structural(1).val(ctx, &v.body);
                raw_case(ctx, r, v, &val, p)
            }));
            out.push(scenario(format!("{}-{}-place", r.name, v.name), 0, move |ctx: &mut Ctx| {
                let s = Schema::get();
                let (r, v) = (&s.roots[ri], &s.roots[ri].versions[vi]);
                let p = place(ctx, true, true);
                let len = 1 + ctx.free(if thorough { 5 } else { 2 });
                let rot = ctx.free(rots);
                let val = Gen { rot, ..Gen::standard(len) }.val(ctx, &v.body);
                raw_case(ctx, r, v, &val, p)
            }));
        }
    }
    if thorough {
        for (ri, r) in s.roots.iter().enumerate() {
            for (vi, v) in r.versions.iter().enumerate() {
                out.push(scenario(format!("{}-{}-values", r.name, v.name), 1, move |ctx: &mut Ctx| {
                    let s = Schema::get();
                    let (r, v) = (&s.roots[ri], &s.roots[ri].versions[vi]);
                    let p = [Place { base: 0, at: 48, held: 1000, fill: 0xff }, Place { base: 0, at: 4096, held: -7, fill: FILL }][ctx.free(2)];
                    let rot = ctx.free(match r.name.as_str() {
                        "Matl" => 9,
                        "Nrpd" => 15,
                        _ => 1,
                    });
                    let val = Gen { rot, ..Gen::standard(2) }.val(ctx, &v.body);
                    raw_case(ctx, r, v, &val, p)
                }));
            }
        }
    }
    let all = std::sync::Arc::new(data());
    let a = all.clone();
    out.push(scenario("data-place", 0, move |ctx: &mut Ctx| {
        let d = &a[ctx.free(a.len())];
        ctx.hash_bytes(d.name.as_bytes());
        let p = place(ctx, true, d.kind == Kind::Relative);
        check(ctx, p, d.kind, &*d.write, &d.read)
    }));
    // several files in one stream
    let n = if thorough { 4 } else { 3 };
    let a = all.clone();
    out.push(scenario("sequence", 0, move |ctx: &mut Ctx| {
        let mut c = Far::of(vec![]);
        let mut files = vec![];
        for i in 0..n {
            let mut d = ctx.free(a.len() + 1);
            if i == 0 && d == a.len() {
                d = 0;
            }
            if d == a.len() {
                break;
            }
            // the last file extends to the end
            if a[d].kind == Kind::ToEnd && ctx.free(2) == 0 {
                files.push((d, append(&mut c, &*a[d].write, i)?));
                break;
            }
            if a[d].kind == Kind::ToEnd {
                return Ok(false);
            }
            files.push((d, append(&mut c, &*a[d].write, i)?));
        }
        ctx.note(|| format!("{:?}", files.iter().map(|(d, at)| (a[*d].name, *at)).collect::<Vec<_>>()));
        for (d, at) in &files {
            ctx.hash_u64(*d as u64);
            let mut f = Far::of(vec![]);
            (a[*d].write)(&mut f).or_fail("write")?;
            f.set_position(0);
            let want = (a[*d].read)(&mut f).or_fail("read")?;
            c.set_position(*at);
            let got = (a[*d].read)(&mut c).map_err(|e| failure("sequence:read", format!("the {} file at {at}: {e}", a[*d].name)))?;
            ctx.steps += 2;
            if let Some(x) = json_diff(&want, &got) {
                return fail(&format!("sequence:{}:{}", a[*d].name, path_key(&x)), x);
            }
        }
        Ok(true)
    }));
    // a file that grows or shrinks when it is written again over itself
    let a = all.clone();
    out.push(scenario("overwrite", 0, move |ctx: &mut Ctx| {
        let rel: Vec<&Sample> = a.iter().filter(|d| d.kind == Kind::Relative).collect();
        let (x, y) = (rel[ctx.free(rel.len())], rel[ctx.free(rel.len())]);
        let at = 16 * ctx.free(4) as u64;
        ctx.hash_bytes(format!("{} {} {at}", x.name, y.name).as_bytes());
        ctx.note(|| format!("{} over {} at {at}", y.name, x.name));
        let mut c = Far::of(vec![]);
        c.set_position(at);
        (x.write)(&mut c).or_fail("write")?;
        c.set_position(at);
        (y.write)(&mut c).or_fail("overwrite")?;
        let mut f = Far::of(vec![]);
        (y.write)(&mut f).or_fail("write")?;
        f.set_position(0);
        let want = (y.read)(&mut f).or_fail("read")?;
        c.set_position(at);
        let got = (y.read)(&mut c).or_fail("overwrite:read")?;
        ctx.steps += 5;
        if let Some(d) = json_diff(&want, &got) {
            return fail(&format!("overwrite:{}", path_key(&d)), d);
        }
        Ok(true)
    }));
    // raw meshex and adj values
    out.push(scenario("raw-other", 1, |ctx: &mut Ctx| {
        let p = place(ctx, true, false);
        match ctx.free(2) {
            0 => {
                let mut d = samples::meshex();
                for g in &mut d.mesh_object_groups {
                    g.mesh_object_name = ["a", "", "longer name of an object", "é"][ctx.choose(4)].into();
                    for e in &mut g.entry_flags {
                        e.draw_model = ctx.choose(2) == 0;
                    }
                }
                let m = MeshEx::from(&d);
                check(ctx, p, Kind::Absolute, &|c| m.write(c).map_err(|e| e.to_string()), &|c| MeshEx::read(c).map_err(|e| e.to_string()).map(|v| serde_json::to_value(&v).unwrap()))
            }
            _ => {
                let mut d = samples::adj();
                for e in &mut d.entries {
                    e.mesh_object_index = ctx.choose(4) * 77;
                    let n = ctx.choose(3);
                    e.vertex_adjacency.truncate(e.vertex_adjacency.len().saturating_sub(n));
                }
                let Ok(m) = Adj::try_from(&d) else { return Ok(false) };
                check(ctx, p, Kind::ToEnd, &|c| m.write(c).map_err(|e| e.to_string()), &|c| Adj::read(c).map_err(|e| e.to_string()).map(|v| serde_json::to_value(&v).unwrap()))
            }
        }
    }));
    // a reader that was used before
    let a = all;
    out.push(scenario("reader-used", 0, move |ctx: &mut Ctx| {
        let d = &a[ctx.free(a.len())];
        let times = 1 + ctx.free(3);
        ctx.hash_bytes(format!("{} {times}", d.name).as_bytes());
        let mut f = Far::of(vec![]);
        (d.write)(&mut f).or_fail("write")?;
        f.set_position(0);
        let want = (d.read)(&mut f).or_fail("read")?;
        for _ in 0..times {
            let mut rest = vec![];
            f.read_to_end(&mut rest).or_fail("read")?;
            f.set_position(0);
            let got = (d.read)(&mut f).or_fail("read:again")?;
            ctx.step();
            ensure!(got == want, "read:again", "reading {} once more gives another value", d.name);
        }
        Ok(true)
    }));
    out
}
