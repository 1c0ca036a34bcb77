//! C39: the optional features of the crates add interfaces and change nothing else.
//!
//! `check.sh` builds /verif/variants once for each combination of features; every file of an
//! enumerated collection goes through each of these programs.
use super::io::Scratch;
use crate::explore::*;
use crate::samples::*;
use crate::schema::*;
use crate::util::*;
use crate::Check;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C39",
        level: "exploration",
        rule: "one case = one file taken through readers, writers and (with serde) JSON by the library built with one combination of features, or one byte string from which a value is generated (with arbitrary); distinct by combination and group of files",
        assumptions: &["JSON text is compared for files whose numbers are finite and whose strings are text; ssbh_lib and ssbh_data have the same features in a combination"],
        scenarios: c39,
        hang_s: 600,
    }]
}

const COMBOS: [&str; 12] = ["none", "serde", "serde_hex", "strum", "serde,strum", "serde_hex,strum", "arbitrary", "serde,arbitrary", "serde_hex,arbitrary", "strum,arbitrary", "serde,strum,arbitrary", "serde_hex,strum,arbitrary"];

fn dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VARIANTS").expect("MC_VARIANTS names the folder of the variants"))
}

fn program(i: usize) -> Result<PathBuf, Failure> {
    let p = dir().join(COMBOS[i]);
    if p.exists() {
        return Ok(p);
    }
    let log = std::fs::read_to_string(dir().join(format!("{}.log", COMBOS[i]))).unwrap_or_default();
    fail(&format!("build:{}", COMBOS[i]), format!("the library does not build with the features {}: {}", COMBOS[i], log.chars().take(1500).collect::<String>()))
}

/// Every value within one deviation.
fn each(run: &mut dyn FnMut(&mut Ctx)) {
    let mut c = Ctx::new(vec![], false);
    run(&mut c);
    let trace = c.trace.clone();
    for (pos, (arity, _)) in trace.iter().enumerate() {
        for alt in 1..*arity {
            run(&mut Ctx::new(vec![(pos as u32, alt)], false));
        }
    }
}

type Files = Vec<(u8, String, Vec<u8>)>;

fn files(thorough: bool) -> Files {
    let mut out: Files = vec![];
    for r in &Schema::get().roots {
        let kind = match r.name.as_str() {
            "MeshEx" => 1,
            "Adj" => 2,
            _ => 0,
        };
        if kind != 0 {
            continue;
        }
        for v in &r.versions {
            let rots = match r.name.as_str() {
                "Matl" => 9,
                "Nrpd" => 15,
                _ => 1,
            };
            for rot in 0..rots {
                for deflen in 1..=if thorough { 3 } else { 2 } {
                    each(&mut |ctx| {
                        let val = Gen { rot, ..if deflen == 1 { Gen::standard(1) } else { Gen::structural(deflen) } }.val(ctx, &v.body);
                        let e = encode_file(r, v, &val, Layout::Canonical, false);
                        out.push((kind, format!("{} {}", r.name, v.name), e.buf));
                    });
                }
            }
        }
    }
    // long lists
    for n in if thorough { vec![300, 1100, 5000] } else { vec![1100] } {
        for (name, what, b) in super::routes::long_files(n) {
            if n <= 1100 || b.len() < 4 << 20 {
                out.push((if name == "meshex" { 1 } else { (name == "adj") as u8 * 2 }, what, b));
            }
        }
    }
    for minor in 8..11 {
        let mut m = super::mesh::rmesh(minor, vec![super::mesh::robj(0)]);
        m.index = vec![1; 10000];
        m.objs[0].icount = 5000;
        let mut c = std::io::Cursor::new(vec![]);
        super::mesh::build(&m).write(&mut c).unwrap();
        out.push((0, format!("mesh 1.{minor} with 5000 indices"), c.into_inner()));
    }
    for s in data_samples() {
        let kind = match s.name {
            "meshex" => 1,
            "adj" => 2,
            "shaderbin" => 3,
            _ => 0,
        };
        let b = s.bytes;
        let step = if thorough { 1 } else { 3 };
        for n in (0..b.len()).step_by(step * (1 + b.len() / 2000)) {
            let name = format!("{} with another byte {n}", s.name);
            let mut c = b.clone();
            c[n] ^= 1;
            out.push((kind, name.clone(), c.clone()));
            c[n] = !b[n];
            out.push((kind, name, c));
        }
        for n in (0..b.len()).step_by(7 * step * (1 + b.len() / 2000)) {
            out.push((kind, format!("{} cut to {n}", s.name), b[..n].to_vec()));
        }
        out.push((kind, s.name.to_string(), b));
    }
    out
}

fn container(f: &Files) -> &'static Scratch {
    static S: OnceLock<Scratch> = OnceLock::new();
    S.get_or_init(|| {
        let s = Scratch::new();
        let mut b = vec![];
        for (k, _, d) in f {
            b.push(*k);
            b.extend((d.len() as u32).to_le_bytes());
            b.extend(d);
        }
        std::fs::write(s.0.join("files"), b).unwrap();
        s
    })
}

fn output(ctx: &mut Ctx, i: usize, args: &[String], to: &PathBuf) -> Result<Vec<String>, Failure> {
    let p = program(i)?;
    let o = Command::new(p).args(args).arg(to).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().map_err(|e| failure("setup:process", e.to_string()))?;
    let text = std::fs::read_to_string(to).unwrap_or_default();
    if !o.success() {
        return fail("process", format!("the program with features {} ends with {o}", COMBOS[i]));
    }
    ctx.step();
    Ok(text.lines().map(|l| l.to_string()).collect())
}

fn c39(thorough: bool) -> Vec<Scenario> {
    const PARTS: usize = 16;
    let all = Arc::new(files(thorough));
    // the reference: the plain library
    static BASE: OnceLock<Vec<std::sync::Mutex<Option<Vec<String>>>>> = OnceLock::new();
    let base = BASE.get_or_init(|| (0..PARTS).map(|_| Default::default()).collect());
    let run = move |ctx: &mut Ctx, i: usize, part: usize, all: &Files| -> Result<Vec<String>, Failure> {
        let s = Scratch::new();
        let c = container(all).0.join("files");
        output(ctx, i, &["files".into(), c.to_string_lossy().into_owned(), part.to_string(), PARTS.to_string()], &s.0.join("out"))
    };
    let a = all.clone();
    let mut out = vec![];
    out.push(scenario("files", 0, move |ctx: &mut Ctx| {
        let i = ctx.free(COMBOS.len());
        let part = ctx.free(PARTS);
        ctx.hash_u64((i * PARTS + part) as u64);
        ctx.note(|| format!("features {}, part {part}", COMBOS[i]));
        let want = {
            let mut g = base[part].lock().unwrap();
            if g.is_none() {
                *g = Some(run(ctx, 0, part, &a)?);
            }
            g.clone().unwrap()
        };
        let got = run(ctx, i, part, &a)?;
        let mut k = 0;
        for l in &got {
            if let Some(f) = l.strip_prefix("FAIL ") {
                let n: usize = f.split(' ').next().unwrap().parse().unwrap();
                if !representable(&a[n].2, a[n].0) {
                    continue;
                }
                let what = f.split(' ').nth(1).unwrap_or("").trim_end_matches(':');
                return fail(&format!("json:{what}"), format!("features {}, {}: {f}", COMBOS[i], a[n].1));
            }
            ctx.case();
            if k >= want.len() || want[k] != *l {
                let n: usize = l.split(' ').next().unwrap().parse().unwrap();
                return fail(&format!("differs:{}", a[n].1.split(' ').next().unwrap()), format!("{} gives another result with the features {} than with none (hashes {l} instead of {})", a[n].1, COMBOS[i], want.get(k).map_or("nothing", |s| s)));
            }
            k += 1;
        }
        crate::ensure!(k == want.len(), "outcomes", "{k} of {} outcomes with the features {}", want.len(), COMBOS[i]);
        Ok(true)
    }));
    out.push(scenario("arbitrary", 0, move |ctx: &mut Ctx| {
        let i = if thorough { 6 + ctx.free(6) } else { [6, 11][ctx.free(2)] };
        let part = ctx.free(PARTS);
        ctx.hash_u64((i * PARTS + part) as u64);
        ctx.note(|| format!("features {}, part {part}", COMBOS[i]));
        let s = Scratch::new();
        let l = output(ctx, i, &["arbitrary".into(), part.to_string(), PARTS.to_string()], &s.0.join("out"))?;
        if let Some(f) = l.get(1) {
            let what = f.split(' ').nth(1).unwrap_or("").trim_end_matches(':');
            return fail(&format!("arbitrary:{what}"), f.clone());
        }
        let n: usize = l.first().and_then(|s| s.parse().ok()).unwrap_or(0);
        (0..n).for_each(|_| ctx.case());
        Ok(n > 0)
    }));
    out.push(scenario("names", 0, move |ctx: &mut Ctx| {
        let with: Vec<usize> = (0..COMBOS.len()).filter(|i| COMBOS[*i].contains("strum")).collect();
        let i = with[ctx.free(with.len())];
        ctx.hash_u64(i as u64);
        ctx.note(|| format!("features {}", COMBOS[i]));
        let s = Scratch::new();
        let l = output(ctx, i, &["names".into()], &s.0.join("out"))?;
        if let Some(f) = l.get(1) {
            let what = f.split(' ').nth(1).unwrap_or("").trim_end_matches(':');
            return fail(&format!("names:{what}"), format!("features {}: {f}", COMBOS[i]));
        }
        let n: u64 = l.first().and_then(|s| s.parse().ok()).unwrap_or(0);
        ctx.cases += n;
        Ok(n > 0)
    }));
    out
}

/// Whether JSON can hold the values of a file (finite numbers and text, C10 and C11), by the library
/// as it is linked here.
fn representable(b: &[u8], kind: u8) -> bool {
    use ssbh_data::prelude::*;
    use ssbh_lib::prelude::*;
    macro_rules! ok {
        ($($t:ident),*) => {
            true $(&& match $t::read(&mut std::io::Cursor::new(b)) {
                Err(_) => true,
                Ok(v) => serde_json::to_string(&v).ok().and_then(|t| serde_json::from_str::<$t>(&t).ok()).is_some_and(|w| format!("{w:?}") == format!("{v:?}")),
            })*
        };
    }
    match kind {
        1 => ok!(MeshEx, MeshExData),
        2 => ok!(Adj, AdjData),
        0 => ok!(SsbhFile, AnimData, MeshData, SkelData, MatlData, ModlData, HlpbData),
        _ => true,
    }
}
