//! `mc <ID>` runs the check of one property, `mc replay <file>` re-runs one recorded execution.
mod alloc;
mod animref;
mod checks;
mod explore;
mod far;
mod fmt;
mod meshref;
mod samples;
mod schema;
mod util;

use explore::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Tracking = alloc::Tracking;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: fn(thorough: bool) -> Vec<Scenario>,
    /// executions slower than this are reported as hangs
    pub hang_s: u64,
}

static STATE: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);

fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(id: &str, scenario: &str, devs: &[Dev], key: &str, msg: &str, n: usize) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{n}.json");
    let v = json!({"property": id, "scenario": scenario, "deviations": devs, "key": key, "message": msg, "tier": tier()});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn tier() -> String {
    std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Ends the process because the running execution can not be unwound (allocation failure, hang).
pub fn fatal(scenario: &str, devs: &[Dev], key: &str, msg: &str) -> ! {
    let id = STATE.lock().ok().and_then(|g| g.clone().map(|x| x.0)).unwrap_or_else(|| "unknown".into());
    let path = write_replay(&id, scenario, devs, key, msg, 0);
    let s = SAVED.swap(-1, std::sync::atomic::Ordering::SeqCst);
    if s >= 0 {
        unsafe { libc::dup2(s, 1) };
    }
    println!("{id}: {scenario} {devs:?}: {key}: {msg}");
    println!("VIOLATION property={id} replay={path}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

pub fn fatal_current(key: &str, msg: &str) -> ! {
    let cur = CURRENT.with(|c| c.try_borrow().ok().and_then(|x| x.clone()));
    let (s, d) = cur.unwrap_or_default();
    fatal(&s, &d, key, msg)
}

fn on_hang(s: &str, d: &[Dev], m: &str) -> ! {
    fatal(s, d, "hang", m)
}

/// known_findings.txt: `known: property=<id> key=<key> -- <text>` and
/// `fixed: property=<id> <commit> <text>` (documentation only).
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            if let Some((p, r)) = r.split_once(" key=") {
                if p == id {
                    let (k, t) = r.split_once(" -- ").unwrap_or((r, ""));
                    out.push((k.trim().to_string(), t.trim().to_string()));
                }
            }
        }
    }
    out
}

fn run_check(c: &Check) -> i32 {
    let t0 = Instant::now();
    let thorough = tier() == "thorough";
    *STATE.lock().unwrap() = Some((c.id.to_string(), tier()));
    let known = known_findings(c.id);
    silence();
    let scs = catch(|| (c.scenarios)(thorough));
    unsilence();
    let scs = match scs {
        Ok(s) => s,
        Err((loc, msg)) => {
            // the sample values of this check can not even be produced
            let path = write_replay(c.id, "setup", &[], &format!("setup:{loc}"), &msg, 1);
            println!("{}: preparing the explored values panicked at {loc}: {msg}", c.id);
            println!("VIOLATION property={} replay={path}", c.id);
            return 1;
        }
    };
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let lim = Limits { threads, max_found: 60, hang: Duration::from_secs(c.hang_s), deadline: None };
    let known_keys: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let is_known = move |k: &str| known_keys.iter().any(|x| x == k);
    silence();
    let (st, found) = explore(&scs, &lim, on_hang, &is_known);
    unsilence();
    let mut unknown: Vec<&Found> = vec![];
    let mut seen_known: BTreeMap<String, &Found> = BTreeMap::new();
    for f in &found {
        if is_known(&f.failure.key) {
            seen_known.entry(f.failure.key.clone()).or_insert(f);
        } else {
            unknown.push(f);
        }
    }
    for (k, t) in &known {
        match seen_known.get(k) {
            Some(f) => println!("KNOWN-FINDING: property={} {t} [{} {:?}]", c.id, f.scenario, f.devs),
            None => println!("note: listed finding not reproduced in this run: {k}"),
        }
    }
    let mut by_key: BTreeMap<&str, usize> = BTreeMap::new();
    for f in &unknown {
        *by_key.entry(&f.failure.key).or_default() += 1;
    }
    let evidence = json!({
        "property": c.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed(), "level": c.level,
        "coverage": {
            "evaluations": st.evaluations + st.cases,
            "executions": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": c.rule,
            "samples": st.samples,
            "exhaustive": !st.aborted,
            "library_calls": st.steps,
            "max_choice_points_in_one_execution": st.max_depth,
            "families": st.per_scenario.iter().map(|(n,k,e)| json!({"family": n, "deviation_bound": k, "executions": e})).collect::<Vec<Value>>(),
            "distinct_count_capped": st.distinct_capped,
        },
        "assumptions": c.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": unknown.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    std::fs::write(format!("{}/evidence/{}.json", verif_dir(), c.id), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    println!(
        "{}: {} executions, {} cases, {} distinct non-trivial, {} library calls, {} families, {:.1}s{}",
        c.id, st.evaluations, st.evaluations + st.cases, st.distinct.len(), st.steps, scs.len(), t0.elapsed().as_secs_f64(), if st.aborted { " (stopped early)" } else { "" }
    );
    if std::env::var_os("MC_FAMILIES").is_some() {
        for (n, k, e) in &st.per_scenario {
            println!("   {n} k={k}: {e}");
        }
    }
    if unknown.is_empty() {
        return 0;
    }
    let mut printed: Vec<&str> = vec![];
    let mut n = 0;
    for f in &unknown {
        if printed.contains(&f.failure.key.as_str()) || n >= 10 {
            continue;
        }
        printed.push(&f.failure.key);
        n += 1;
        let sc = scs.iter().find(|s| s.name == f.scenario).unwrap();
        silence();
        let (ctx, _) = run_one(sc, &f.devs, true);
        unsilence();
        let path = write_replay(c.id, &f.scenario, &f.devs, &f.failure.key, &f.failure.msg, n);
        let m: String = f.failure.msg.chars().take(1500).collect();
        println!("{}: {} {:?} (x{}): {}: {}", c.id, f.scenario, f.devs, by_key[f.failure.key.as_str()], f.failure.key, m);
        let d: String = ctx.desc.join("; ").chars().take(1500).collect();
        println!("    case: {d}");
        println!("VIOLATION property={} replay={path}", c.id);
    }
    1
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap().to_string();
    let devs: Vec<Dev> = serde_json::from_value(v["deviations"].clone()).unwrap();
    let sc = v["scenario"].as_str().unwrap();
    let all = checks::all();
    let c = all.iter().find(|c| c.id == id).expect("property");
    *STATE.lock().unwrap() = Some((id.clone(), tier()));
    for t in [false, true] {
        if let Some(s) = (c.scenarios)(t).into_iter().find(|s| s.name == sc) {
            let (ctx, r) = run_one(&s, &devs, true);
            println!("case: {}", ctx.desc.join("; "));
            match r {
                Ok(_) => {
                    println!("{id}: no violation");
                    return 0;
                }
                Err(f) => {
                    println!("{}: {}", f.key, f.msg);
                    println!("VIOLATION property={id} replay={path}");
                    return 1;
                }
            }
        }
    }
    println!("scenario {sc} not found");
    2
}

/// The library may print to standard output; only the results of the check belong there.
static SAVED: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

pub fn silence() {
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if saved >= 0 && null >= 0 {
            libc::dup2(null, 1);
            libc::close(null);
            SAVED.store(saved, std::sync::atomic::Ordering::SeqCst);
        }
    }
}

pub fn unsilence() {
    use std::io::Write;
    let s = SAVED.swap(-1, std::sync::atomic::Ordering::SeqCst);
    if s >= 0 {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(s, 1);
            libc::close(s);
        }
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("op") => checks::history::child(&args[2..]),
        Some("sched") => checks::schedules::child(&args[2..]),
        Some("replay") => replay(&args[2]),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        Some(id) => match checks::all().iter().find(|c| c.id == id) {
            Some(c) => run_check(c),
            None => {
                eprintln!("unknown property {id}");
                2
            }
        },
        None => 2,
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
