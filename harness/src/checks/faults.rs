//! C05 / C06: malformed input.
use crate::explore::*;
use crate::samples::*;
use crate::schema::*;
use crate::util::*;
use crate::{alloc, fmt, Check};
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C05",
            level: "exploration",
            rule: "one case = one mutated file (truncation, byte, word, pair of fields, removed or inserted bytes, or a short file over a word alphabet) given to the real reader: no panic, no overflow, bounded memory, termination; accepted values are rewritten and read again; distinct by file bytes",
            assumptions: &["mutations start from one representative file per format version and union variant"],
            scenarios: c05,
            hang_s: 120,
        },
        Check {
            id: "C06",
            level: "exploration",
            rule: "one case = one mutated file given to the real high-level reader: no panic, no overflow, bounded memory, termination; distinct by file bytes",
            assumptions: &["mutations start from one representative file per data type, version and track kind"],
            scenarios: c06,
            hang_s: 120,
        },
    ]
}

/// Memory beyond this many bytes plus 64 bytes per input byte counts as out of proportion.
const ALLOW: u64 = 256 << 20;

#[derive(Clone)]
enum Probe {
    /// SsbhFile::read, then rewrite and re-read
    Raw,
    MeshEx,
    Adj,
    Data(fn(&[u8]) -> bool),
}

fn describe(b: &[u8]) -> String {
    format!("file of {} bytes {}", b.len(), hexs(b))
}

fn guarded<T>(what: &str, b: &[u8], f: impl FnOnce() -> T) -> Result<T, Failure> {
    let (r, peak) = alloc::peak_of(|| catch(f));
    match r {
        Err((loc, msg)) => {
            let f = panic_failure(&loc, &msg);
            Err(Failure { key: format!("{what}:{}", f.key), msg: format!("{} on {}", f.msg, describe(b)) })
        }
        Ok(v) => {
            if peak > ALLOW + 64 * b.len() as u64 {
                return fail(&format!("{what}:memory"), format!("{peak} bytes of memory for {}", describe(b)));
            }
            Ok(v)
        }
    }
}

macro_rules! typed_probe {
    ($t:ty, $b:expr, $deep:expr) => {{
        let b = $b;
        let r = guarded("read", b, || <$t>::read(&mut std::io::Cursor::new(b)).map_err(|e| e.to_string()))?;
        match r {
            Err(_) => Ok(false),
            Ok(v) => {
                let w = guarded("rewrite", b, || {
                    let mut c = std::io::Cursor::new(vec![]);
                    v.write(&mut c).map(|_| c.into_inner())
                })?;
                if let Ok(w) = w {
                    let v2 = guarded("reread", b, || <$t>::read(&mut std::io::Cursor::new(&w)).map_err(|e| e.to_string()))?;
                    let v2 = v2.map_err(|e| failure("reread:error", format!("{e}; {}", describe(b))))?;
                    let w2 = guarded("rewrite2", b, || {
                        let mut c = std::io::Cursor::new(vec![]);
                        v2.write(&mut c).map(|_| c.into_inner())
                    })?;
                    let w2 = w2.map_err(|e| failure("rewrite2:error", format!("{e}; {}", describe(b))))?;
                    if let Some(d) = bytes_diff(&w, &w2) {
                        return fail("reread:differs", format!("{d}; {}", describe(b)));
                    }
                    if $deep {
                        let (x, y) = (serde_json::to_value(&v).unwrap(), serde_json::to_value(&v2).unwrap());
                        if let Some(d) = json_diff(&x, &y) {
                            return fail("reread:value", format!("{d}; {}", describe(b)));
                        }
                    }
                }
                Ok(true)
            }
        }
    }};
}

/// Ok(true) when the file was accepted.
fn probe(p: &Probe, b: &[u8], deep: bool) -> RunResult {
    match p {
        Probe::Raw => {
            let r = guarded("read", b, || fmt::read(b))?;
            let v = match r {
                Err(_) => return Ok(false),
                Ok(v) => v,
            };
            let w = guarded("rewrite", b, || fmt::write(&v))?.map_err(|e| failure("rewrite:error", format!("{e}; {}", describe(b))))?;
            let v2 = guarded("reread", b, || fmt::read(&w))?.map_err(|e| failure("reread:error", format!("{e}; {}", describe(b))))?;
            let w2 = guarded("rewrite2", b, || fmt::write(&v2))?.map_err(|e| failure("rewrite2:error", format!("{e}; {}", describe(b))))?;
            if let Some(d) = bytes_diff(&w, &w2) {
                return fail("reread:differs", format!("{d}; {}", describe(b)));
            }
            if deep {
                if let Some(d) = json_diff(&fmt::json(&v), &fmt::json(&v2)) {
                    return fail("reread:value", format!("{d}; {}", describe(b)));
                }
            }
            Ok(true)
        }
        Probe::MeshEx => typed_probe!(ssbh_lib::prelude::MeshEx, b, deep),
        Probe::Adj => typed_probe!(ssbh_lib::prelude::Adj, b, deep),
        Probe::Data(f) => Ok(guarded("read", b, || f(b))?),
    }
}

/// Values that are interesting in a field of `size` bytes at `pos` of a file of `len` bytes.
fn hostile(size: usize, pos: u64, len: u64, set: Set) -> Vec<u64> {
    let mask = if size == 8 { u64::MAX } else { (1u64 << (size * 8)) - 1 };
    if set == Set::Tiny {
        return vec![0, 1, mask, mask >> 1, (len.wrapping_sub(pos)) & mask];
    }
    let mut v = vec![0, 1, 2, 8, mask, mask >> 1, (mask >> 1) + 1, len.wrapping_sub(pos), len];
    if set == Set::Full {
        v.extend([3, 4, 5, 6, 7, 9, 12, 16, 24, 32, 33, 63, 64, 65, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 1 << 20, 1 << 24, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 40, 1 << 56, 1 << 60, 1 << 61, i64::MAX as u64, 1 << 63]);
        v.extend([len.wrapping_sub(pos).wrapping_sub(1), len.wrapping_sub(pos) + 1, len - 1, len + 1, pos.wrapping_neg(), pos.wrapping_neg().wrapping_sub(1), pos.wrapping_neg().wrapping_add(1), mask - 1, mask - 7, 0x7fc0_0000, 0x7f80_0000]);
    }
    let mut out: Vec<u64> = vec![];
    for x in v {
        if x == x & mask && !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
enum Set {
    Tiny,
    Small,
    Full,
}

fn put(b: &mut [u8], pos: usize, size: usize, v: u64) {
    b[pos..pos + size].copy_from_slice(&v.to_le_bytes()[..size]);
}

struct Base {
    name: String,
    bytes: Vec<u8>,
    /// fields for pair mutations
    fields: Vec<(usize, usize)>,
    probe: Probe,
}

fn mutations(out: &mut Vec<Scenario>, base: Base, word_step: usize, pair: Set) {
    let base = Arc::new(base);
    let n = base.name.clone();
    let tails = if pair == Set::Tiny || pair == Set::Small && word_step == 4 { 1 } else { 2 };
    let b = base.clone();
    out.push(scenario(format!("{n}-cut"), 0, move |ctx: &mut Ctx| {
        let mut f = b.bytes.clone();
        match ctx.free(3) {
            0 => {
                let at = ctx.free(f.len() + 1);
                f.truncate(at);
            }
            1 => {
                let k = [1usize, 4, 8, 16][ctx.free(4)];
                let at = ctx.free(f.len());
                f.drain(at..(at + k).min(f.len()));
            }
            _ => {
                let fill = [0u8, 0xff, 1][ctx.free(3)];
                let k = [1usize, 4, 8][ctx.free(3)];
                let at = ctx.free(f.len() + 1);
                f.splice(at..at, std::iter::repeat(fill).take(k));
            }
        }
        ctx.note(|| describe(&f));
        one(ctx, &b.probe, &f)
    }));
    let b = base.clone();
    out.push(scenario(format!("{n}-byte"), 0, move |ctx: &mut Ctx| {
        let at = ctx.free(b.bytes.len());
        let mut f = b.bytes.clone();
        let o = f[at];
        let vals = [0, 1, 0x7f, 0x80, 0xff, o ^ 1, o.wrapping_add(1), o.wrapping_sub(1), o ^ 0x80, o ^ 0x10, 2, 4, 8, 64, 255 - o, o << 1];
        f[at] = vals[ctx.free(vals.len())];
        ctx.note(|| describe(&f));
        one(ctx, &b.probe, &f)
    }));
    let b = base.clone();
    out.push(scenario(format!("{n}-word"), 0, move |ctx: &mut Ctx| {
        let size = [2usize, 4, 8][ctx.free(3)];
        let step = word_step.min(size);
        let at = ctx.free((b.bytes.len().saturating_sub(size)) / step + 1) * step;
        if at + size > b.bytes.len() {
            return Ok(false);
        }
        let h = hostile(size, at as u64, b.bytes.len() as u64, Set::Full);
        let v = h[ctx.free(h.len())];
        let mut f = b.bytes.clone();
        put(&mut f, at, size, v);
        ctx.note(|| describe(&f));
        one(ctx, &b.probe, &f)
    }));
    // counts and lengths that go on far beyond the data, in a file with much more of it
    let b = base.clone();
    out.push(scenario(format!("{n}-tail"), 0, move |ctx: &mut Ctx| {
        let at = ctx.free((b.bytes.len().saturating_sub(4)) / 4 + 1) * 4;
        let size = [4usize, 8][ctx.free(2)];
        let vals = [5000u64, 0x7fff_ffff, 1 << 32, 1 << 44, 1 << 61];
        let v = vals[ctx.free(if size == 4 { 2 } else { 5 })];
        if at + size > b.bytes.len() {
            return Ok(false);
        }
        let mut f = b.bytes.clone();
        put(&mut f, at, size, v);
        let fill = [0u8, 1][ctx.free(tails)];
        f.resize(f.len() + (192 << 10), fill);
        ctx.note(|| format!("{v:#x} ({size} bytes) at {at:#x} and many bytes {fill} after {}", describe(&b.bytes)));
        ctx.step();
        ctx.hash_u64((at * 16 + size) as u64 * 2 + fill as u64);
        ctx.hash_u64(v);
        let r = probe(&b.probe, &f, false).map_err(|mut e| {
            e.msg = format!("{} ... {v:#x} ({size} bytes) at {at:#x} and many bytes {fill} after the file {}", e.msg.chars().take(300).collect::<String>(), describe(&b.bytes));
            e
        })?;
        ctx.hash_u64(r as u64);
        Ok(true)
    }));
    let b = base.clone();
    out.push(scenario(format!("{n}-pair"), 0, move |ctx: &mut Ctx| {
        // one execution = all pairs whose first member is this mutation
        if b.fields.len() < 2 {
            return Ok(false);
        }
        let i = ctx.free(b.fields.len() - 1);
        let len = b.bytes.len() as u64;
        let (p, s) = b.fields[i];
        let h = hostile(s, p as u64, len, pair);
        let v = h[ctx.free(h.len())];
        let mut f = b.bytes.clone();
        put(&mut f, p, s, v);
        ctx.hash_bytes(&f);
        
        for &(q, t) in &b.fields[i + 1..] {
            for w in hostile(t, q as u64, len, pair) {
                let save = f[q..q + t].to_vec();
                put(&mut f, q, t, w);
                ctx.case();
                probe(&b.probe, &f, false)?;
                f[q..q + t].copy_from_slice(&save);
            }
        }
        Ok(true)
    }));
}

fn one(ctx: &mut Ctx, p: &Probe, f: &[u8]) -> RunResult {
    ctx.step();
    ctx.hash_bytes(f);
    let r = probe(p, f, true)?;
    ctx.hash_u64(r as u64);
    Ok(true)
}

pub struct RawBase {
    pub name: String,
    pub root: &'static str,
    pub bytes: Vec<u8>,
}

/// One file per format, version and union rotation.
pub fn raw_files() -> Vec<RawBase> {
    let s = Schema::get();
    let mut out = vec![];
    for b in raw_bases() {
        let root = s.roots.iter().find(|r| b.name.starts_with(r.name.as_str())).unwrap();
        out.push(RawBase { name: b.name, root: &root.name, bytes: b.bytes });
    }
    out
}

fn raw_bases() -> Vec<Base> {
    let s = Schema::get();
    let mut out = vec![];
    for r in &s.roots {
        for vi in 0..r.versions.len() {
            let rots: Vec<usize> = match r.name.as_str() {
                "Matl" => (0..9).collect(),
                "Nrpd" => (0..15).collect(),
                _ => vec![usize::MAX],
            };
            for rot in rots {
                let val = default_val(r, vi, 1, rot);
                let e = encode_file(r, &r.versions[vi], &val, Layout::Canonical, true);
                let fields = e.marks.iter().filter(|m| matches!(m.kind, MarkKind::Offset | MarkKind::Count | MarkKind::Tag | MarkKind::Symbol)).map(|m| (m.pos as usize, m.size as usize)).collect();
                let tag = if rot == usize::MAX { String::new() } else { format!("-u{rot}") };
                out.push(Base { name: format!("{}-{}{tag}", r.name, r.versions[vi].name), bytes: e.buf, fields, probe: Probe::Raw });
            }
        }
    }
    out
}

fn word_fields(b: &[u8], from: usize, step: usize) -> Vec<(usize, usize)> {
    (from..b.len() - b.len() % step).step_by(step).map(|p| (p, step)).collect()
}

fn c05(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for b in raw_bases() {
        mutations(&mut out, b, if thorough { 1 } else { 4 }, if thorough { Set::Full } else { Set::Small });
    }
    let m = bytes_of(&meshex());
    let f = word_fields(&m, 0, 4);
    mutations(&mut out, Base { name: "MeshEx".into(), bytes: m, fields: f, probe: Probe::MeshEx }, 1, if thorough { Set::Small } else { Set::Tiny });
    let a = bytes_of(&adj());
    let f = word_fields(&a, 0, 4);
    mutations(&mut out, Base { name: "Adj".into(), bytes: a, fields: f, probe: Probe::Adj }, 1, if thorough { Set::Small } else { Set::Tiny });
    // short files over an alphabet of words
    let s = Schema::get();
    let depth = if thorough { 6 } else { 4 };
    for r in &s.roots {
        for v in &r.versions {
            let mut head = b"HBSS".to_vec();
            head.extend(64u64.to_le_bytes());
            head.extend(0u32.to_le_bytes());
            head.extend(&r.magic);
            head.extend(v.major.to_le_bytes());
            head.extend(v.minor.to_le_bytes());
            out.push(short(format!("{}-{}-short", r.name, v.name), head, depth, Probe::Raw));
        }
    }
    out.push(short("MeshEx-short".into(), vec![], depth + 1, Probe::MeshEx));
    out.push(short("Adj-short".into(), vec![], depth, Probe::Adj));
    out.push(short("Any-short".into(), vec![], depth, Probe::Raw));
    out
}

fn short(name: String, head: Vec<u8>, depth: usize, p: Probe) -> Scenario {
    scenario(name, 0, move |ctx: &mut Ctx| {
        const WORDS: [u64; 12] = [0, 1, 8, 16, 4, 24, u64::MAX, 1 << 32, 2, i64::MAX as u64, 0x0000_0001_0000_0001, u64::MAX - 30];
        let mut f = head.clone();
        let n = ctx.free(depth + 1);
        for _ in 0..n {
            let w = WORDS[ctx.free(WORDS.len())];
            f.extend(w.to_le_bytes());
        }
        let tail = ctx.free(3);
        f.extend(&[0x41u8, 0, 0, 0, 0, 0, 0, 0, 7, 7, 7, 7, 7, 7, 7, 7][..[0, 4, 16][tail]]);
        ctx.note(|| describe(&f));
        one(ctx, &p, &f)
    })
}

fn c06(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for s in data_samples() {
        let from = if s.name == "shaderbin" { 288 } else if s.name == "meshex" || s.name == "adj" { 0 } else { 24 };
        let fields = if s.name.starts_with("sh") {
            // the shader program itself is opaque: header words and the entry tables
            let base = s.bytes.len() - shader_binary(&["buf", "uniform", "in", "gl_Position"], 32).len();
            let mut v: Vec<(usize, usize)> = word_fields(&s.bytes[..base], 24.min(base), 4);
            v.extend((base + 288..base + 288 + 108).step_by(4).map(|p| (p, 4)));
            v.push((base + 2504, 4));
            v.extend((base + 2928..s.bytes.len() - 3).step_by(4).filter(|p| (p - base - 2928) % 92 < 56).map(|p| (p, 4)));
            v
        } else {
            let step = if s.name == "anim12" && !thorough { 12 } else { 4 };
            (from..s.bytes.len() - 3).step_by(step).map(|p| (p, 4)).collect()
        };
        mutations(&mut out, Base { name: s.name.into(), bytes: s.bytes, fields, probe: Probe::Data(s.ok) }, 1, if thorough { Set::Small } else { Set::Tiny });
    }
    out
}
