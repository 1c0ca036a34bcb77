//! C36: the program that tests a folder of files, run as a process in a scratch directory.
use super::io::Scratch;
use crate::explore::*;
use crate::samples::*;
use crate::schema::{encode_file, Layout, Schema};
use crate::util::*;
use crate::{ensure, Check};
use ssbh_data::adj_data::*;
use ssbh_lib::prelude::*;
use std::collections::BTreeSet;
use std::io::Cursor;
use std::path::Path;
use std::process::{Command, Stdio};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C36",
        level: "exploration",
        rule: "one case = one run of the test program on one folder; distinct by the names, places and contents of the files",
        assumptions: &["the library itself, run in the check's process, is the reference for what a file is read and written as", "files live in a scratch directory of the check"],
        scenarios: c36,
        hang_s: 60,
    }]
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Verdict {
    Same,
    Changed,
    Unreadable,
    /// readable, but the value read can not be written
    Unwritable,
}

fn judge(ext: &str, b: &[u8]) -> Option<Verdict> {
    macro_rules! go {
        ($t:ty) => {
            match <$t>::read(&mut Cursor::new(b)) {
                Err(_) => Verdict::Unreadable,
                Ok(v) => {
                    let mut c = Cursor::new(vec![]);
                    match v.write(&mut c) {
                        Err(_) => Verdict::Unwritable,
                        Ok(()) if c.get_ref() == b => Verdict::Same,
                        Ok(()) => Verdict::Changed,
                    }
                }
            }
        };
    }
    Some(match ext {
        "numatb" | "numdlb" | "numshb" | "nusktb" | "nurpdb" | "nufxlb" | "nuanmb" | "nuhlpb" | "nushdb" => go!(SsbhFile),
        "numshexb" => go!(MeshEx),
        "adjb" => go!(Adj),
        _ => return None,
    })
}

#[derive(Clone)]
struct File {
    /// path in the folder
    path: String,
    bytes: Vec<u8>,
}

/// The folder without the files that can be read but not written: what the program does at those is
/// for the family "unwritable" alone.
fn run(ctx: &mut Ctx, files: &[File]) -> RunResult {
    let ext = |f: &File| Path::new(&f.path).extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
    let rest: Vec<File> = files.iter().filter(|f| judge(&ext(f), &f.bytes) != Some(Verdict::Unwritable)).cloned().collect();
    if rest.is_empty() && !files.is_empty() {
        return Ok(false);
    }
    run_all(ctx, &rest)
}

fn run_all(ctx: &mut Ctx, files: &[File]) -> RunResult {
    let s = Scratch::new();
    let mut want = BTreeSet::new();
    for f in files {
        let p = s.0.join(&f.path);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, &f.bytes).unwrap();
        let ext = Path::new(&f.path).extension().map(|e| e.to_string_lossy().to_string()).unwrap_or_default();
        match judge(&ext, &f.bytes) {
            None | Some(Verdict::Same) => {}
            Some(v) => {
                want.insert((f.path.clone(), v));
            }
        }
        ctx.hash_bytes(f.path.as_bytes());
        ctx.hash_bytes(&f.bytes);
    }
    ctx.note(|| format!("{:?}, to be reported: {want:?}", files.iter().map(|f| (f.path.as_str(), f.bytes.len())).collect::<Vec<_>>()));
    let exe = Path::new(&std::env::var("MC_CLI_DIR").expect("MC_CLI_DIR names the folder of the programs")).join("ssbh_test");
    let o = Command::new(exe).arg(&s.0).env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", "2").stdin(Stdio::null()).output().or_fail("spawn")?;
    ctx.step();
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let mut got: BTreeSet<(String, bool)> = BTreeSet::new();
    let mut lines = 0;
    for l in text.lines() {
        let (p, unreadable) = match (l.strip_prefix("Read/write not 1:1 for "), l.strip_prefix("Error reading ")) {
            (Some(p), _) => (p, false),
            (_, Some(p)) => (p, true),
            _ => continue,
        };
        lines += 1;
        let shown: Vec<&File> = files.iter().filter(|f| format!("{:?}", s.0.join(&f.path)) == p || s.0.join(&f.path).display().to_string() == p).collect();
        ensure!(shown.len() == 1, "reported:other", "a report for {p}, which is none of the files");
        got.insert((shown[0].path.clone(), unreadable));
    }
    ensure!(o.status.success(), "status", "the program ends with {}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>());
    ensure!(lines == got.len(), "reported:twice", "a file is reported more than once: {text}");
    for (p, v) in &want {
        let ok = match v {
            Verdict::Changed => got.contains(&(p.clone(), false)),
            Verdict::Unreadable => got.contains(&(p.clone(), true)),
            _ => got.contains(&(p.clone(), true)) || got.contains(&(p.clone(), false)),
        };
        ensure!(ok, format!("missing:{v:?}"), "{p} is {v:?}, but the reports are {got:?}");
    }
    for (p, u) in &got {
        ensure!(want.iter().any(|w| &w.0 == p), "extra", "{p} is reported (unreadable: {u}) without reason");
    }
    for f in files {
        ensure!(std::fs::read(s.0.join(&f.path)).ok().as_deref() == Some(&f.bytes[..]), "touched", "{} was changed by the program", f.path);
    }
    let mut n = 0;
    count(&s.0, &mut n);
    ensure!(n == files.iter().map(|f| &f.path).collect::<BTreeSet<_>>().len(), "created", "the program left {n} files");
    Ok(!want.is_empty())
}
fn count(d: &Path, n: &mut usize) {
    for e in std::fs::read_dir(d).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            count(&e.path(), n)
        } else {
            *n += 1
        }
    }
}

struct Sample {
    ext: &'static str,
    good: Vec<u8>,
    /// the same value in another placement
    moved: Option<Vec<u8>>,
}

fn samples_() -> Vec<Sample> {
    let mut v = vec![];
    for r in Schema::get().roots.iter() {
        let ext = match r.name.as_str() {
            "Hlpb" => "nuhlpb",
            "Matl" => "numatb",
            "Modl" => "numdlb",
            "Mesh" => "numshb",
            "Skel" => "nusktb",
            "Anim" => "nuanmb",
            "Nrpd" => "nurpdb",
            "Nufx" => "nufxlb",
            "Shdr" => "nushdb",
            _ => continue,
        };
        for vi in 0..r.versions.len() {
            let val = default_val(r, vi, 2, 0);
            let e = |l| encode_file(r, &r.versions[vi], &val, l, false).buf;
            v.push(Sample { ext, good: e(Layout::Canonical), moved: Some(e(Layout::Gap(16))) });
        }
    }
    v.push(Sample { ext: "numshexb", good: bytes_of(&meshex()), moved: None });
    v.push(Sample { ext: "adjb", good: bytes_of(&adj()), moved: None });
    v
}

const STATES: usize = 13;
fn state(s: &Sample, n: usize) -> Option<Vec<u8>> {
    let mut b = s.good.clone();
    match n {
        0 => {}
        1 => b = s.moved.clone()?,
        2 => b.truncate(b.len() - 1),
        3 => b.truncate(b.len() / 2),
        4 => b.truncate(5),
        5 => b.clear(),
        6 => b.push(0),
        7 => b.extend([0; 16]),
        8 => b.extend([1; 2]),
        9 => b[0] ^= 1,
        10 => b[16] ^= 1,
        11 => {
            // the size of the header, or the first entry count
            b[4] ^= 1
        }
        _ => {
            // entries without their flags, which can not be written
            if s.ext != "numshexb" {
                return None;
            }
            b[32..40].fill(0);
        }
    }
    Some(b)
}

const PLACES: [&str; 9] = ["", "sub/", "1/2/3/4/5/6/7/8/9/10/11/12/", "sub/deep/er/", "two words/", "model.numshb.d/", "日本/", ".hidden/", "a.b/c.d/"];
const STEMS: [&str; 5] = ["model", "a.b.c", "two words", "日本", "x.json"];
/// Extensions that the program does not test.
const OTHERS: [&str; 8] = ["txt", "json", "nulstb", "numshb.bak", "numshb.json", "xnumshb", "numshbx", "bin"];

fn c36(thorough: bool) -> Vec<Scenario> {
    let all = std::sync::Arc::new(samples_());
    let mut out = vec![];
    let a = all.clone();
    out.push(scenario("one", 0, move |ctx: &mut Ctx| {
        let s = &a[ctx.free(a.len())];
        let n = ctx.free(STATES);
        let at = ctx.free(if thorough { PLACES.len() } else { 3 });
        let name = if thorough { ctx.free(STEMS.len()) } else { (n + at) % STEMS.len() };
        let Some(b) = state(s, n) else { return Ok(false) };
        run(ctx, &[File { path: format!("{}{}.{}", PLACES[at], STEMS[name], s.ext), bytes: b }])?;
        Ok(true)
    }));
    // what follows from the construction of the file alone
    let a = all.clone();
    out.push(scenario("verdicts", 0, move |ctx: &mut Ctx| {
        let s = &a[ctx.free(a.len())];
        let n = ctx.free(STATES);
        let Some(b) = state(s, n) else { return Ok(false) };
        ctx.hash_bytes(&b);
        let got = judge(s.ext, &b).unwrap();
        let ssbh = !["numshexb", "adjb"].contains(&s.ext);
        let ok = match n {
            0 => got == Verdict::Same,
            1 => got == Verdict::Changed,
            3 | 4 | 9 | 10 if ssbh => got == Verdict::Unreadable,
            5 => got == Verdict::Unreadable,
            6 | 7 | 8 if ssbh => got == Verdict::Changed,
            _ => true,
        };
        ensure!(ok, "verdict", "{} in state {n} is {got:?}", s.ext);
        Ok(true)
    }));
    // any contents under any extension
    let a = all.clone();
    out.push(scenario("other-type", 0, move |ctx: &mut Ctx| {
        let s = &a[ctx.free(a.len())];
        let e = ctx.free(a.len() + OTHERS.len());
        let ext = if e < a.len() { a[e].ext } else { OTHERS[e - a.len()] };
        let Some(b) = state(s, [0, 1, 3][ctx.free(3)]) else { return Ok(false) };
        let at = ctx.free(2);
        run(ctx, &[File { path: format!("{}file.{ext}", PLACES[at]), bytes: b }])?;
        Ok(true)
    }));
    // pairs of files: neither hides the other
    let a = all.clone();
    out.push(scenario("two", 0, move |ctx: &mut Ctx| {
        let (x, y) = (ctx.free(a.len()), ctx.free(a.len()));
        let states = [0, 1, 3, 7, 12];
        let (i, j) = (states[ctx.free(5)], states[ctx.free(5)]);
        let (Some(b), Some(c)) = (state(&a[x], i), state(&a[y], j)) else { return Ok(false) };
        if !thorough && (x * 31 + y) % 3 != 0 && i != 12 && j != 12 {
            return Ok(false);
        }
        run(ctx, &[File { path: format!("a.{}", a[x].ext), bytes: b }, File { path: format!("sub/b.{}", a[y].ext), bytes: c }])?;
        Ok(true)
    }));
    // files that can be read but not written, each beside a file that has to be reported
    let a = all.clone();
    out.push(scenario("unwritable", 0, move |ctx: &mut Ctx| {
        let s = &a[ctx.free(a.len())];
        let at = ctx.free(s.good.len() + 1);
        let mut files = vec![];
        if at == s.good.len() {
            files.extend(state(s, 12));
        } else {
            for v in [s.good[at] ^ 1, 0, 0xff] {
                let mut b = s.good.clone();
                b[at] = v;
                files.push(b);
            }
            files.push(s.good[..at].to_vec());
        }
        for b in files {
            if judge(s.ext, &b) != Some(Verdict::Unwritable) {
                continue;
            }
            let other = File { path: "sub/other.nuanmb".into(), bytes: b"nothing".to_vec() };
            let r = run_all(ctx, &[File { path: format!("x.{}", s.ext), bytes: b.clone() }, other]);
            if let Err(f) = r {
                // how it ends tells which defect it is
                let why = |m: &str| m.contains("Inconsistent entry count");
                return Err(match f.key.as_str() {
                    "status" if s.ext == "numshexb" && why(&f.msg) => Failure { key: "status:meshex-entry-count".into(), ..f },
                    _ => f,
                });
            }
        }
        Ok(true)
    }));
    // many files: all states of all types, but for some
    let a = all;
    out.push(scenario("many", if thorough { 2 } else { 1 }, move |ctx: &mut Ctx| {
        let mut files = vec![];
        let copies = 1 + ctx.free(3);
        let only = ctx.choose(a.len() + 1);
        let skip = ctx.choose(STATES + 1);
        for c in 0..copies {
            for (i, s) in a.iter().enumerate() {
                for n in 0..STATES {
                    if skip == n + 1 || only > 0 && only != i + 1 {
                        continue;
                    }
                    if let Some(b) = state(s, n) {
                        files.push(File { path: format!("{}{i}-{n}-{c}.{}", PLACES[(i + n + c) % PLACES.len()], s.ext), bytes: b });
                    }
                }
            }
        }
        run(ctx, &files)?;
        Ok(true)
    }));
    // all small files of the types without an identifier
    out.push(scenario("small", 0, move |ctx: &mut Ctx| {
        let ext = ["adjb", "numshexb"][ctx.free(2)];
        let len = ctx.free(if thorough { 9 } else { 7 });
        let first = if len > 3 { (ctx.free(3), ctx.free(3)) } else { (0, 0) };
        let all = 3usize.pow(if len > 3 { len - 2 } else { len } as u32);
        let mut files = vec![];
        for mut n in 0..all {
            let mut b = if len > 3 { vec![[0, 1, 255][first.0], [0, 1, 255][first.1]] } else { vec![] };
            while b.len() < len {
                b.push([0, 1, 255][n % 3]);
                n /= 3;
            }
            // as they are, and after an empty list
            files.push(File { path: format!("f{}.{ext}", hexs(&b).replace(' ', "")), bytes: b.clone() });
            files.push(File { path: format!("empty/f{}.{ext}", hexs(&b).replace(' ', "")), bytes: [&[0; 4], &b[..]].concat() });
        }
        run(ctx, &files)
    }));
    // all cuts and single edits of every file
    let a = std::sync::Arc::new(samples_());
    out.push(scenario("edits", 0, move |ctx: &mut Ctx| {
        let s = &a[ctx.free(a.len())];
        let kind = ctx.free(5);
        let moved = ctx.free(if thorough { 2 } else { 1 });
        let base = if moved == 1 { s.moved.clone() } else { Some(s.good.clone()) };
        let Some(base) = base else { return Ok(false) };
        let part = ctx.free(base.len().div_ceil(400));
        let mut files = vec![];
        for at in part * 400..base.len().min(part * 400 + 400) {
            let mut b = base.clone();
            match kind {
                0 => b.truncate(at),
                1 => b[at] ^= 1,
                2 => b[at] = 0xff,
                3 => b[at] = 0,
                _ => b.insert(at, b[at]),
            }
            files.push(File { path: format!("{}{at}.{}", PLACES[at % 3], s.ext), bytes: b });
        }
        run(ctx, &files)
    }));
    // large files, and large folders
    out.push(scenario("large", 0, move |ctx: &mut Ctx| {
        let n = [70_000usize, 1 << 20, 17 << 20][ctx.free(3)];
        let a = AdjData { entries: vec![AdjEntryData { mesh_object_index: 1, vertex_adjacency: vec![1; n / 2] }] };
        let anim = encode_file(root("Nufx"), &root("Nufx").versions[0], &default_val(root("Nufx"), 0, n / 2000, 0), Layout::Canonical, false).buf;
        let tail = ctx.free(2);
        let mut files = vec![File { path: "a/large.adjb".into(), bytes: bytes_of(&a) }, File { path: "large.nufxlb".into(), bytes: anim }];
        for f in &mut files {
            f.bytes.extend(vec![1; tail]);
        }
        run(ctx, &files)
    }));
    let a = std::sync::Arc::new(samples_());
    out.push(scenario("crowd", 0, move |ctx: &mut Ctx| {
        let n = [999usize, 3000][ctx.free(2)];
        let place = ["", "a/", "a/b/c/"][ctx.free(3)];
        let files = (0..n)
            .map(|i| {
                let s = &a[i % a.len()];
                let spread = if ctx.steps > 0 { 0 } else { i / 40 };
                File { path: format!("{place}{spread}/{i}.{}", s.ext), bytes: state(s, [0, 2, 7][i % 3]).unwrap() }
            })
            .collect::<Vec<_>>();
        run(ctx, &files)
    }));
    out.push(scenario("none", 0, |ctx: &mut Ctx| {
        run(ctx, &[])?;
        Ok(true)
    }));
    out
}
