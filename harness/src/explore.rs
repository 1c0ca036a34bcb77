//! Stateless bounded-exhaustive explorer.
//!
//! A scenario is a deterministic function of a sequence of choices.  Choice 0 is the default
//! everywhere.  An execution is named by its list of *deviations* `(choice point, alternative)`.
//! The explorer visits **every** execution whose total deviation cost is at most `k` (free choice
//! points cost 0 and are therefore always explored completely), each exactly once, by extending an
//! execution only to the right of its last deviation.  There is no sampling anywhere.
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type Dev = (u32, u32);

pub struct Ctx {
    devs: Vec<Dev>,
    di: usize,
    /// (arity, cost) of every choice point met so far
    pub trace: Vec<(u32, u8)>,
    /// human readable description pieces of the case (only filled when `verbose`)
    pub verbose: bool,
    pub desc: Vec<String>,
    pub fp: u64,
    /// transitions: library calls performed by this execution
    pub steps: u64,
    /// further cases decided inside this execution (inner loops)
    pub cases: u64,
}

impl Ctx {
    pub fn new(devs: Vec<Dev>, verbose: bool) -> Self {
        Ctx { devs, di: 0, trace: Vec::new(), verbose, desc: Vec::new(), fp: 0xcbf29ce484222325, steps: 0, cases: 0 }
    }
    fn take(&mut self, n: usize, cost: u8) -> usize {
        let pos = self.trace.len() as u32;
        self.trace.push((n as u32, cost));
        if self.di < self.devs.len() && self.devs[self.di].0 == pos {
            let c = self.devs[self.di].1;
            self.di += 1;
            assert!((c as usize) < n, "explorer: replayed choice out of range (nondeterministic scenario)");
            c as usize
        } else {
            0
        }
    }
    /// A choice where every non-default alternative costs one deviation.
    pub fn choose(&mut self, n: usize) -> usize {
        self.take(n.max(1), 1)
    }
    /// A choice that is always explored completely, in combination with everything else.
    pub fn free(&mut self, n: usize) -> usize {
        self.take(n.max(1), 0)
    }
    /// A choice with an explicit cost.
    pub fn choose_cost(&mut self, n: usize, cost: u8) -> usize {
        self.take(n.max(1), cost)
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            self.desc.push(s);
        }
    }
    pub fn hash_bytes(&mut self, b: &[u8]) {
        for &x in b {
            self.fp = (self.fp ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn hash_u64(&mut self, v: u64) {
        self.hash_bytes(&v.to_le_bytes());
    }
    /// Counts one case of an inner loop.
    pub fn case(&mut self) {
        self.cases += 1;
        self.steps += 1;
    }
    pub fn step(&mut self) {
        self.steps += 1;
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub key: String,
    pub msg: String,
}

/// Ok(true) = non-trivial case, Ok(false) = trivial (vacuous) case.
pub type RunResult = Result<bool, Failure>;

pub fn fail<T>(key: &str, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { key: key.to_string(), msg: msg.into() })
}

#[derive(Clone)]
pub struct Found {
    pub scenario: String,
    pub devs: Vec<Dev>,
    pub failure: Failure,
}

pub type ScenarioFn = Arc<dyn Fn(&mut Ctx) -> RunResult + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub k: u8,
    pub f: ScenarioFn,
}

pub fn scenario<F: Fn(&mut Ctx) -> RunResult + Send + Sync + 'static>(name: impl Into<String>, k: u8, f: F) -> Scenario {
    Scenario { name: name.into(), k, f: Arc::new(f) }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub distinct_capped: bool,
    pub steps: u64,
    pub cases: u64,
    pub max_depth: usize,
    pub samples: Vec<String>,
    pub per_scenario: Vec<(String, u8, u64)>,
    pub aborted: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    pub static CURRENT: RefCell<Option<(String, Vec<Dev>)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn short_loc(loc: &str) -> String {
    // drop the directory in front of the crate and the line number: keys stay stable
    let p = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let parts: Vec<&str> = p.split('/').collect();
    let n = parts.len();
    parts[n.saturating_sub(3)..].join("/")
}

/// Digits are dropped from panic messages so that keys do not depend on the concrete numbers.
fn squash(msg: &str) -> String {
    let mut out = String::new();
    let mut digit = false;
    for c in msg.chars().take(120) {
        if c.is_ascii_digit() {
            if !digit {
                out.push('N');
            }
            digit = true;
        } else {
            digit = false;
            out.push(if c.is_control() { ' ' } else { c });
        }
    }
    out
}

/// Runs `f`, turning a panic into `Err((location, message))`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

pub fn panic_failure(loc: &str, msg: &str) -> Failure {
    Failure { key: format!("panic:{}:{}", short_loc(loc), squash(msg)), msg: format!("panicked at {loc}: {msg}") }
}

pub fn run_one(sc: &Scenario, devs: &[Dev], verbose: bool) -> (Ctx, RunResult) {
    CURRENT.with(|c| *c.borrow_mut() = Some((sc.name.clone(), devs.to_vec())));
    let mut ctx = Ctx::new(devs.to_vec(), verbose);
    let r = match catch(|| (sc.f)(&mut ctx)) {
        Ok(r) => r,
        Err((loc, msg)) => Err(panic_failure(&loc, &msg)),
    };
    CURRENT.with(|c| *c.borrow_mut() = None);
    (ctx, r)
}

struct Item {
    sc: usize,
    cost: u8,
    devs: Vec<Dev>,
}

struct Shared {
    queue: Mutex<Vec<Item>>,
    cv: Condvar,
    busy: AtomicUsize,
    stop: AtomicBool,
    found: Mutex<Vec<Found>>,
    nfound: AtomicUsize,
    evals: AtomicU64,
}

pub struct Limits {
    pub threads: usize,
    pub max_found: usize,
    pub hang: Duration,
    pub deadline: Option<Instant>,
}

/// Called for an execution that did not finish within the hang limit.
pub type HangFn = fn(&str, &[Dev], &str) -> !;

pub fn explore(scs: &[Scenario], lim: &Limits, on_hang: HangFn, is_known: &(dyn Fn(&str) -> bool + Sync)) -> (Stats, Vec<Found>) {
    let shared = Shared {
        queue: Mutex::new(scs.iter().enumerate().rev().map(|(i, _)| Item { sc: i, cost: 0, devs: vec![] }).collect()),
        cv: Condvar::new(),
        busy: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        found: Mutex::new(vec![]),
        nfound: AtomicUsize::new(0),
        evals: AtomicU64::new(0),
    };
    let counts: Vec<AtomicU64> = scs.iter().map(|_| AtomicU64::new(0)).collect();
    type Slot = Mutex<Option<(Instant, usize, Vec<Dev>)>>;
    let slots: Vec<Slot> = (0..lim.threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    let mut total = Stats::default();
    std::thread::scope(|s| {
        let handles: Vec<_> = (0..lim.threads)
            .map(|w| {
                let shared = &shared;
                let slots = &slots;
                let counts = &counts;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut st = Stats::default();
                        let mut local: Vec<Item> = vec![];
                        loop {
                            if shared.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if local.is_empty() {
                                let mut q = shared.queue.lock().unwrap();
                                loop {
                                    if let Some(i) = q.pop() {
                                        local.push(i);
                                        for _ in 0..15 {
                                            if q.len() > lim.threads * 4 {
                                                local.push(q.pop().unwrap());
                                            }
                                        }
                                        shared.busy.fetch_add(1, Ordering::SeqCst);
                                        break;
                                    }
                                    if shared.busy.load(Ordering::SeqCst) == 0 || shared.stop.load(Ordering::Relaxed) {
                                        shared.cv.notify_all();
                                        return st;
                                    }
                                    q = shared.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                                }
                            }
                            let it = local.pop().unwrap();
                            let sc = &scs[it.sc];
                            *slots[w].lock().unwrap() = Some((Instant::now(), it.sc, it.devs.clone()));
                            let want_sample = st.samples.len() < 1 || (it.devs.len() as u8 == sc.k && st.samples.len() < 2);
                            let (ctx, r) = run_one(sc, &it.devs, want_sample);
                            *slots[w].lock().unwrap() = None;
                            st.evaluations += 1;
                            shared.evals.fetch_add(1, Ordering::Relaxed);
                            counts[it.sc].fetch_add(1, Ordering::Relaxed);
                            st.steps += ctx.steps;
                            st.cases += ctx.cases;
                            st.max_depth = st.max_depth.max(ctx.trace.len());
                            if want_sample && !ctx.desc.is_empty() {
                                st.samples.push(format!("{} {:?}: {}", sc.name, it.devs, ctx.desc.join("; ")));
                            }
                            match r {
                                Ok(nt) => {
                                    if nt {
                                        st.nontrivial += 1;
                                        if st.distinct.len() < 4_000_000 {
                                            st.distinct.insert(ctx.fp ^ (it.sc as u64).wrapping_mul(0x9e3779b97f4a7c15));
                                        } else {
                                            st.distinct_capped = true;
                                        }
                                    }
                                }
                                Err(failure) => {
                                    let known = is_known(&failure.key);
                                    let n = if known { 0 } else { shared.nfound.fetch_add(1, Ordering::SeqCst) };
                                    let mut f = shared.found.lock().unwrap();
                                    if !known || !f.iter().any(|x| x.failure.key == failure.key) {
                                        f.push(Found { scenario: sc.name.clone(), devs: it.devs.clone(), failure });
                                    }
                                    drop(f);
                                    if n + 1 >= lim.max_found {
                                        st.aborted = true;
                                        shared.stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                            if let Some(d) = lim.deadline {
                                if Instant::now() > d {
                                    st.aborted = true;
                                    shared.stop.store(true, Ordering::SeqCst);
                                }
                            }
                            // children
                            let start = it.devs.last().map(|d| d.0 + 1).unwrap_or(0) as usize;
                            let mut children = vec![];
                            for p in (start..ctx.trace.len()).rev() {
                                let (n, c) = ctx.trace[p];
                                if it.cost + c > sc.k {
                                    continue;
                                }
                                for a in (1..n).rev() {
                                    let mut devs = it.devs.clone();
                                    devs.push((p as u32, a));
                                    children.push(Item { sc: it.sc, cost: it.cost + c, devs });
                                }
                            }
                            if !children.is_empty() {
                                let mut q = shared.queue.lock().unwrap();
                                q.append(&mut children);
                                drop(q);
                                shared.cv.notify_all();
                            }
                            if local.is_empty() {
                                shared.busy.fetch_sub(1, Ordering::SeqCst);
                            }
                        }
                        st
                    })
                    .unwrap()
            })
            .collect();
        // watchdog
        let wd = s.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for sl in &slots {
                    let g = sl.lock().unwrap();
                    if let Some((t, sc, devs)) = &*g {
                        if t.elapsed() > lim.hang {
                            on_hang(&scs[*sc].name, devs, "execution did not terminate within the time limit");
                        }
                    }
                }
            }
        });
        for h in handles {
            let st = h.join().expect("explorer worker died");
            total.evaluations += st.evaluations;
            total.nontrivial += st.nontrivial;
            total.steps += st.steps;
            total.cases += st.cases;
            total.max_depth = total.max_depth.max(st.max_depth);
            total.aborted |= st.aborted;
            total.distinct_capped |= st.distinct_capped;
            if total.distinct.is_empty() {
                total.distinct = st.distinct;
            } else {
                total.distinct.extend(st.distinct);
            }
            for x in st.samples {
                if total.samples.len() < 8 {
                    total.samples.push(x);
                }
            }
        }
        done.store(true, Ordering::Relaxed);
        wd.join().unwrap();
    });
    for (i, sc) in scs.iter().enumerate() {
        total.per_scenario.push((sc.name.clone(), sc.k, counts[i].load(Ordering::Relaxed)));
    }
    let mut found = shared.found.into_inner().unwrap();
    found.sort_by_key(|f| (f.devs.len(), f.devs.clone()));
    (total, found)
}
