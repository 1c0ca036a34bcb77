//! C27: the command line converters, run as processes on files in a scratch directory.
use super::io::Scratch;
use super::lib_misc::unions_of;
use crate::explore::*;
use crate::samples::*;
use crate::schema::{encode_file, Gen, Layout, Schema};
use crate::util::*;
use crate::{ensure, Check};
use serde_json::Value;
use ssbh_data::prelude::*;
use ssbh_lib::prelude::{Adj, MeshEx, SsbhFile};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C27",
        level: "exploration",
        rule: "one case = one run of one converter on one input file with one choice of names and one state of the output path; distinct by tool, input bytes, names and state",
        assumptions: &["the library itself, run in the check's process, is the reference for the converted value", "files live in a scratch directory of the check"],
        scenarios: c27,
        hang_s: 60,
    }]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tool {
    Lib,
    Data,
}

fn exe(t: Tool) -> &'static Path {
    static P: OnceLock<(PathBuf, PathBuf)> = OnceLock::new();
    let p = P.get_or_init(|| {
        let d = PathBuf::from(std::env::var("MC_CLI_DIR").expect("MC_CLI_DIR names the folder of the converters"));
        (d.join("ssbh_lib_json"), d.join("ssbh_data_json"))
    });
    match t {
        Tool::Lib => &p.0,
        Tool::Data => &p.1,
    }
}

/// What a file of one type is in the library.
#[derive(Clone)]
struct Kind {
    ext: &'static str,
    /// bytes to JSON text
    text: fn(&[u8]) -> Option<String>,
    /// bytes to what the library writes for the value
    rewrite: fn(&[u8]) -> Option<Vec<u8>>,
    /// JSON text to what the library writes for the value; the inner option is empty when the value can not be written
    from_text: fn(&str) -> Option<Option<Vec<u8>>>,
}

macro_rules! kind {
    ($t:ty, $ext:expr) => {
        Kind {
            ext: $ext,
            text: |b| <$t>::read(&mut Cursor::new(b)).ok().map(|v| serde_json::to_string_pretty(&v).unwrap()),
            rewrite: |b| {
                let v = <$t>::read(&mut Cursor::new(b)).ok()?;
                let mut c = Cursor::new(vec![]);
                v.write(&mut c).ok()?;
                Some(c.into_inner())
            },
            from_text: |s| {
                let v: $t = serde_json::from_str(s).ok()?;
                let mut c = Cursor::new(vec![]);
                Some(v.write(&mut c).ok().map(|_| c.into_inner()))
            },
        }
    };
}

fn data_kinds() -> Vec<Kind> {
    vec![
        kind!(MeshData, "numshb"),
        kind!(SkelData, "nusktb"),
        kind!(AnimData, "nuanmb"),
        kind!(ModlData, "numdlb"),
        kind!(MatlData, "numatb"),
        kind!(HlpbData, "nuhlpb"),
        kind!(MeshExData, "numshexb"),
        kind!(AdjData, "adjb"),
    ]
}
fn lib_kinds() -> Vec<Kind> {
    vec![kind!(SsbhFile, ""), kind!(MeshEx, "numshexb"), kind!(Adj, "adjb")]
}
/// The kind a binary input with this extension is read as.
fn kind_of(t: Tool, ext: &str) -> Option<Kind> {
    match t {
        Tool::Data => data_kinds().into_iter().find(|k| k.ext == ext),
        Tool::Lib => {
            let mut k = lib_kinds();
            k.iter().position(|k| k.ext == ext).map(|i| k.remove(i)).or_else(|| Some(lib_kinds().remove(0)))
        }
    }
}
fn root_ext(name: &str) -> &'static str {
    match name {
        "Hlpb" => "nuhlpb",
        "Matl" => "numatb",
        "Modl" => "numdlb",
        "Mesh" => "numshb",
        "Skel" => "nusktb",
        "Anim" => "nuanmb",
        "Nlst" => "nulstb",
        "Nrpd" => "nurpdb",
        "Nufx" => "nufxlb",
        _ => "nushdb",
    }
}

type Files = BTreeMap<String, Option<Vec<u8>>>;
fn list(dir: &Path) -> Files {
    let mut m = Files::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let n = e.file_name().to_string_lossy().to_string();
        m.insert(n, std::fs::read(e.path()).ok());
    }
    m
}

/// Runs a converter and reports how the files in the directory differ from the expected ones.
fn run(ctx: &mut Ctx, t: Tool, dir: &Path, input: &str, output: Option<&str>) -> Result<bool, Failure> {
    ctx.step();
    let mut c = Command::new(exe(t));
    c.current_dir(dir).env("RUST_BACKTRACE", "0").arg(input).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some(o) = output {
        c.arg(o);
    }
    let st = c.status().or_fail("spawn")?;
    use std::os::unix::process::ExitStatusExt;
    ensure!(st.signal().is_none(), "signal", "{t:?} {input} was ended by a signal: {st}");
    Ok(st.success())
}
fn same(key: &str, got: &Files, want: &Files, what: &str) -> Result<(), Failure> {
    for (n, w) in want {
        match got.get(n) {
            None => return fail(&format!("{key}:missing"), format!("{what}: {n} was not written; files {:?}", got.keys())),
            Some(g) if g != w => {
                // texts count as equal when their values are
                if let (Some(w), Some(g)) = (w, g) {
                    if let (Ok(w), Ok(g)) = (serde_json::from_slice::<Value>(w), serde_json::from_slice::<Value>(g)) {
                        if w == g {
                            continue;
                        }
                    }
                }
                let d = match (w, g) {
                    (Some(w), Some(g)) => bytes_diff(w, g).unwrap_or_default(),
                    _ => "another kind of entry".into(),
                };
                return fail(&format!("{key}:content"), format!("{what}: {n} has other content than expected: {d}"));
            }
            _ => {}
        }
    }
    for n in got.keys() {
        if !want.contains_key(n) {
            return fail(&format!("{key}:extra"), format!("{what}: unexpected file {n}"));
        }
    }
    Ok(())
}

const STEMS: &[&str] = &["model", "a.b.c", "two words", "日本", "-x", "sub.numshb", "x.json"];

/// Binary to JSON and back through one tool; every name choice.
/// Files of 100 KB and more, written by the library from data with many elements.
fn large_files() -> Vec<Sample> {
    let mut out = vec![];
    let mut add = |ext: &'static str, bytes: Vec<u8>| out.push(Sample { name: ext.into(), ext, bytes });
    let mut x = mesh(10);
    x.objects.truncate(1);
    x.objects[0] = mesh_object("large", 0, 3000);
    x.objects[0].vertex_indices = (0..9000).map(|i| i * 7 % 3000).collect();
    add("numshb", bytes_of(&x));
    add("nuanmb", bytes_of(&anim(0, tracks(1200))));
    let mut x = skel();
    let b = x.bones[0].clone();
    x.bones = (0..600).map(|i| ssbh_data::skel_data::BoneData { name: format!("bone{i}"), ..b.clone() }).collect();
    add("nusktb", bytes_of(&x));
    let mut x = matl();
    let e = x.entries[0].clone();
    x.entries = (0..200)
        .map(|i| {
            let mut e = e.clone();
            e.material_label = format!("material{i}");
            e
        })
        .collect();
    add("numatb", bytes_of(&x));
    let mut x = modl();
    let e = x.entries[0].clone();
    x.entries = (0..2000)
        .map(|i| {
            let mut e = e.clone();
            e.mesh_object_subindex = i;
            e
        })
        .collect();
    add("numdlb", bytes_of(&x));
    let mut x = hlpb();
    let e = x.orient_constraints[0].clone();
    x.orient_constraints = vec![e; 600];
    add("nuhlpb", bytes_of(&x));
    let mut x = meshex();
    let e = x.mesh_object_groups[0].clone();
    x.mesh_object_groups = vec![e; 1500];
    add("numshexb", bytes_of(&x));
    let mut x = adj();
    x.entries[0].vertex_adjacency = (0..80_000).map(|i| i as i16).collect();
    add("adjb", bytes_of(&x));
    out
}

fn both_ways(ctx: &mut Ctx, t: Tool, kind: &Kind, ext: &str, json_ext: &str, bytes: &[u8]) -> RunResult {
    let text = match (kind.text)(bytes) {
        Some(x) => x,
        None => return fail("sample", "the library does not read the sample"),
    };
    // not every version that can be read can be written
    let back = (kind.rewrite)(bytes);
    let stem = STEMS[ctx.choose(STEMS.len())];
    let stem = if stem.starts_with('-') { format!("./{stem}") } else { stem.to_string() };
    let input = format!("{stem}.{ext}");
    let out1 = [None, Some("out.json"), Some("other.json"), Some("plain")][ctx.choose(4)];
    // the state of the output path: absent, a longer file, a shorter one
    let old: Option<Vec<u8>> = match ctx.choose(3) {
        0 => None,
        1 => Some(vec![b'x'; text.len().max(bytes.len() * 2) + 100]),
        _ => Some(vec![b'{'; 3]),
    };
    let out2 = [None, Some("new.bin"), Some("new.json")][ctx.choose(3)];
    ctx.note(|| format!("{t:?} {input} -> {out1:?} -> {out2:?}, existing output {:?}; text {}", old.as_ref().map(|o| o.len()), text.chars().take(300).collect::<String>()));
    let s = Scratch::new();
    let base = |n: &str| n.trim_start_matches("./").to_string();
    let mut want = Files::new();
    std::fs::write(s.0.join(&input), bytes).unwrap();
    want.insert(base(&input), Some(bytes.to_vec()));
    let json_name = out1.map(|x| x.to_string()).unwrap_or_else(|| format!("{input}.json"));
    if let Some(o) = &old {
        std::fs::write(s.0.join(&json_name), o).unwrap();
    }
    run(ctx, t, &s.0, &input, out1)?;
    want.insert(base(&json_name), Some(text.clone().into_bytes()));
    same("to-json", &list(&s.0), &want, &format!("{t:?} {input} {out1:?}"))?;
    // back: the direction comes from the extension of the input
    let json_input = if json_name.ends_with(".json") {
        json_name
    } else {
        std::fs::rename(s.0.join(&json_name), s.0.join("renamed.json")).unwrap();
        let v = want.remove(&base(&json_name)).unwrap();
        want.insert("renamed.json".into(), v);
        "renamed.json".to_string()
    };
    let bin_name = match out2 {
        Some(o) => o.to_string(),
        None => format!("{}.{json_ext}", &json_input[..json_input.len() - 5]),
    };
    if base(&bin_name) != base(&input) {
        if let Some(o) = &old {
            std::fs::write(s.0.join(&bin_name), o).unwrap();
            want.insert(base(&bin_name), Some(o.clone()));
        }
    }
    run(ctx, t, &s.0, &json_input, out2)?;
    if let Some(b) = back {
        want.insert(base(&bin_name), Some(b));
    }
    same("to-binary", &list(&s.0), &want, &format!("{t:?} {json_input} {out2:?}"))?;
    ctx.hash_bytes(bytes);
    ctx.hash_bytes(format!("{t:?} {input} {out1:?} {out2:?} {:?}", old.map(|o| o.len())).as_bytes());
    Ok(true)
}

/// One input file of any content: what the library makes of it decides.
fn any_input(ctx: &mut Ctx, t: Tool, ext: &str, content: &[u8], existing: bool, explicit: bool) -> RunResult {
    let s = Scratch::new();
    let input = format!("in.{ext}");
    std::fs::write(s.0.join(&input), content).unwrap();
    let mut want = Files::new();
    want.insert(input.clone(), Some(content.to_vec()));
    let out = explicit.then_some("out.x");
    // name and content of the output, if there is one
    let result: Option<(String, Vec<u8>)> = if ext == "json" {
        let kinds = if t == Tool::Lib { lib_kinds() } else { data_kinds() };
        let text = std::str::from_utf8(content).ok();
        let hits: Vec<(usize, Option<Vec<u8>>)> = match text {
            Some(x) => kinds.iter().enumerate().filter_map(|(i, k)| (k.from_text)(x).map(|r| (i, r))).collect(),
            None => vec![],
        };
        match hits.len() {
            0 => None,
            1 => hits[0].1.clone().map(|b| {
                let mut e = kinds[hits[0].0].ext.to_string();
                if e.is_empty() {
                    let v: Value = serde_json::from_str(text.unwrap()).unwrap();
                    let name = v.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
                    e = root_ext(&name).to_string();
                }
                (format!("in.{e}"), b)
            }),
            // a text that is valid for several types
            _ => return Ok(false),
        }
    } else {
        kind_of(t, ext).and_then(|k| catch(|| (k.text)(content)).ok().flatten()).map(|x| (format!("{input}.json"), x.into_bytes()))
    };
    if existing {
        let mut names: Vec<String> = vec!["out.x".into(), "in.json.json".into()];
        if ext != "json" {
            names.push(format!("{input}.json"));
        } else {
            names.extend(data_kinds().iter().map(|k| format!("in.{}", k.ext)));
            names.extend(["nulstb", "nurpdb", "nufxlb", "nushdb"].iter().map(|e| format!("in.{e}")));
        }
        for n in names {
            let old = vec![b'o'; 4000];
            std::fs::write(s.0.join(&n), &old).unwrap();
            want.insert(n, Some(old));
        }
    }
    if let Some((n, b)) = &result {
        want.insert(out.map(|o| o.to_string()).unwrap_or_else(|| n.clone()), Some(b.clone()));
    }
    ctx.note(|| format!("{t:?} {input} with {} bytes, expecting {:?}", content.len(), result.as_ref().map(|r| &r.0)));
    run(ctx, t, &s.0, &input, out)?;
    same(if result.is_some() { "convertible" } else { "not-convertible" }, &list(&s.0), &want, &format!("{t:?} {input} {out:?}"))?;
    ctx.hash_bytes(content);
    ctx.hash_bytes(format!("{t:?} {ext} {existing} {explicit}").as_bytes());
    Ok(true)
}

struct Sample {
    name: String,
    ext: &'static str,
    bytes: Vec<u8>,
}

fn raw_samples() -> Vec<Sample> {
    let mut v = vec![];
    for r in Schema::get().roots.iter() {
        for vi in 0..r.versions.len() {
            let val = default_val(r, vi, 1, 0);
            v.push(Sample { name: format!("{}-{}", r.name, r.versions[vi].name), ext: root_ext(&r.name), bytes: encode_file(r, &r.versions[vi], &val, Layout::Canonical, false).buf });
        }
    }
    v.push(Sample { name: "meshex".into(), ext: "numshexb", bytes: bytes_of(&meshex()) });
    v.push(Sample { name: "adj".into(), ext: "adjb", bytes: bytes_of(&adj()) });
    v
}
fn data_files() -> Vec<Sample> {
    let mut out = vec![];
    for d in data_samples() {
        let ext = match d.name.split(|c: char| c == '-' || c.is_ascii_digit()).next().unwrap() {
            "anim" => "nuanmb",
            "mesh" => "numshb",
            "skel" => "nusktb",
            "matl" => "numatb",
            "modl" => "numdlb",
            "hlpb" => "nuhlpb",
            "meshex" => "numshexb",
            "adj" => "adjb",
            _ => continue,
        };
        out.push(Sample { name: d.name.to_string(), ext, bytes: d.bytes });
    }
    // files without any contents
    macro_rules! empty {
        ($n:expr, $e:expr, $v:expr) => {
            out.push(Sample { name: format!("{}-empty", $n), ext: $e, bytes: bytes_of(&$v) });
        };
    }
    let mut m = mesh(10);
    m.objects.clear();
    empty!("mesh", "numshb", m);
    empty!("anim", "nuanmb", anim(0, vec![]));
    let mut x = skel();
    x.bones.clear();
    empty!("skel", "nusktb", x);
    let mut x = matl();
    x.entries.clear();
    empty!("matl", "numatb", x);
    let mut x = modl();
    x.entries.clear();
    empty!("modl", "numdlb", x);
    let mut x = hlpb();
    x.aim_constraints.clear();
    x.orient_constraints.clear();
    empty!("hlpb", "nuhlpb", x);
    let mut x = meshex();
    x.mesh_object_groups.clear();
    empty!("meshex", "numshexb", x);
    let mut x = adj();
    x.entries.clear();
    empty!("adj", "adjb", x);
    out
}

fn node_count(v: &Value) -> usize {
    1 + match v {
        Value::Object(m) => m.values().map(node_count).sum::<usize>(),
        Value::Array(a) => a.iter().map(node_count).sum::<usize>(),
        _ => 0,
    }
}
fn node<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        Value::Object(m) => m.values_mut().find_map(|x| node(x, n)),
        Value::Array(a) => a.iter_mut().find_map(|x| node(x, n)),
        _ => None,
    }
}

fn c27(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    // values of every raw format
    for (ri, r) in Schema::get().roots.iter().enumerate() {
        for vi in 0..r.versions.len() {
            for u in 0..unions_of(&r.name) {
                let ext = root_ext(&r.name);
                out.push(scenario(format!("raw-{}-{}-{u}", r.name, r.versions[vi].name), if thorough { 2 } else { 1 }, move |ctx| {
                    let r = &Schema::get().roots[ri];
                    let ver = &r.versions[vi];
                    let mut g = Gen::structural(1);
                    g.rot = u;
                    g.null_str = false;
                    let val = g.val(ctx, &ver.body);
                    let bytes = encode_file(r, ver, &val, Layout::Canonical, false).buf;
                    both_ways(ctx, Tool::Lib, &kind_of(Tool::Lib, ext).unwrap(), ext, ext, &bytes)
                }));
            }
        }
    }
    // large files
    for t in [Tool::Lib, Tool::Data] {
        for s in large_files() {
            let kind = kind_of(t, s.ext).unwrap();
            let (ext, b) = (s.ext, Arc::new(s.bytes));
            out.push(scenario(format!("large-{t:?}-{}", s.name), if thorough { 1 } else { 0 }, move |ctx| both_ways(ctx, t, &kind, ext, ext, &b)));
        }
    }
    // values of the high-level types and of the two formats that are no SSBH files
    for (t, samples) in [(Tool::Lib, raw_samples()), (Tool::Data, data_files())] {
        for s in samples {
            let kind = kind_of(t, s.ext).unwrap();
            let (ext, bytes) = (s.ext, Arc::new(s.bytes));
            let b = bytes.clone();
            out.push(scenario(format!("names-{t:?}-{}", s.name), if thorough { 4 } else { 2 }, move |ctx| both_ways(ctx, t, &kind, ext, ext, &b)));
            // the extension and the content disagree
            let b = bytes.clone();
            out.push(scenario(format!("extensions-{t:?}-{}", s.name), 0, move |ctx| {
                let exts = ["numshb", "nusktb", "nuanmb", "numdlb", "numatb", "nuhlpb", "numshexb", "adjb", "nulstb", "nurpdb", "nufxlb", "nushdb", "json", "bin", "NUMSHB", "json5"];
                let e = exts[ctx.free(exts.len())];
                let (ex, ou) = (ctx.free(2) == 1, ctx.free(2) == 1);
                any_input(ctx, t, e, &b, ex, ou)
            }));
            // cut off binary files
            let b = bytes.clone();
            let step = if thorough { 1 } else { 7 };
            out.push(scenario(format!("cut-{t:?}-{}", s.name), 0, move |ctx| {
                let i = ctx.free((b.len() + step) / step) * step;
                let (ex, ou) = if thorough { (ctx.free(2) == 1, ctx.free(2) == 1) } else { (i % 2 == 0, i % 4 < 2) };
                any_input(ctx, t, ext, &b[..i.min(b.len())], ex, ou)
            }));
            // broken texts: cut off, or with one value removed or replaced
            let kind = kind_of(t, s.ext).unwrap();
            let text = match (kind.text)(&bytes) {
                Some(x) => Arc::new(x),
                None => continue,
            };
            let n = text.len();
            let x = text.clone();
            let cuts = if thorough { 1500 } else { 40 };
            out.push(scenario(format!("cut-text-{t:?}-{}", s.name), 0, move |ctx| {
                let i = ctx.free(cuts.min(n)) * n / cuts.min(n);
                let (ex, ou) = (ctx.free(2) == 1, i % 2 == 0);
                any_input(ctx, t, "json", &x.as_bytes()[..i], ex, ou)
            }));
            let value: Value = serde_json::from_str(&text).unwrap();
            let nodes = node_count(&value).min(if thorough { 1000 } else { 60 });
            out.push(scenario(format!("edit-text-{t:?}-{}", s.name), 0, move |ctx| {
                let mut v = value.clone();
                let mut i = ctx.free(nodes);
                let w = ctx.free(if thorough { 5 } else { 3 });
                if let Some(p) = node(&mut v, &mut i) {
                    *p = match w {
                        0 => Value::Null,
                        1 => Value::String("?".into()),
                        2 => Value::Array(vec![]),
                        3 => Value::Object(Default::default()),
                        _ => serde_json::json!(-1),
                    };
                }
                let ex = ctx.free(2) == 1;
                any_input(ctx, t, "json", v.to_string().as_bytes(), ex, false)
            }));
        }
        // inputs that do not exist or are no files, and outputs that can not be created
        out.push(scenario(format!("no-file-{t:?}"), 0, move |ctx| {
            let ext = ["json", "numshb", "adjb", "numshexb", "numatb"][ctx.free(5)];
            let what = ctx.free(4);
            let explicit = ctx.free(2) == 1;
            let s = Scratch::new();
            let input = format!("in.{ext}");
            let out_name = if explicit { "out.y".to_string() } else { format!("{input}.json") };
            let good: Vec<Sample> = if t == Tool::Lib { raw_samples() } else { data_files() };
            let good = good.into_iter().find(|s| s.ext == if ext == "json" { "adjb" } else { ext }).unwrap();
            let content = if ext == "json" { (kind_of(t, "adjb").unwrap().text)(&good.bytes).unwrap().into_bytes() } else { good.bytes };
            let out_arg: String;
            match what {
                0 => out_arg = out_name.clone(),
                1 => {
                    std::fs::create_dir(s.0.join(&input)).unwrap();
                    out_arg = out_name.clone();
                }
                2 => {
                    // the output path is a directory
                    std::fs::write(s.0.join(&input), &content).unwrap();
                    std::fs::create_dir(s.0.join("out.y")).unwrap();
                    out_arg = "out.y".into();
                }
                _ => {
                    std::fs::write(s.0.join(&input), &content).unwrap();
                    out_arg = "missing/out.y".into();
                }
            }
            if what < 2 {
                std::fs::write(s.0.join(&out_arg), b"old content").unwrap();
            }
            let before = list(&s.0);
            ctx.note(|| format!("{t:?} {input} case {what} explicit {explicit}"));
            run(ctx, t, &s.0, &input, (explicit || what >= 2).then_some(out_arg.as_str()))?;
            same("no-file", &list(&s.0), &before, &format!("{t:?} {input} {out_arg}"))?;
            ctx.hash_bytes(format!("{t:?} {input} {what} {explicit}").as_bytes());
            Ok(true)
        }));
    }
    out
}
