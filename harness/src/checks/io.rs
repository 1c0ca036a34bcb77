//! C07 / C08: I/O faults.  C24: saving to files.
use super::faults::raw_files;
use crate::explore::*;
use crate::samples::*;
use crate::util::*;
use crate::{ensure, fmt, Check};
use serde_json::Value;
use ssbh_data::prelude::*;
use ssbh_data::anim_data::TrackValues;
use ssbh_lib::prelude::{Adj, Anim, Mesh, MeshEx, Modl, SsbhFile};
use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C07",
            level: "exploration",
            rule: "one case = one fault schedule (failing call and its persistence, interrupted calls, short reads) applied to one read of one file; distinct by file and schedule",
            assumptions: &["the injected reader follows the contract of std::io::Read and Seek", "one representative file per format version, union variant and data type"],
            scenarios: c07,
            hang_s: 60,
        },
        Check {
            id: "C08",
            level: "exploration",
            rule: "one case = one fault schedule (failing call and its persistence, interrupted calls, short writes, limited capacity) applied to one write of one value; distinct by value and schedule",
            assumptions: &["the injected writer follows the contract of std::io::Write and Seek", "one representative value per format version, union variant and data type"],
            scenarios: c08,
            hang_s: 60,
        },
        Check {
            id: "C24",
            level: "exploration",
            rule: "one case = one save of one (writable or unwritable) value to a path in one of the target states; distinct by value and target state",
            assumptions: &["files live in a scratch directory of the check"],
            scenarios: c24,
            hang_s: 60,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// fault schedules

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// the call with this number fails; with `sticky` all later calls fail, too
    fail_at: Option<u64>,
    sticky: bool,
    kind: Option<ErrorKind>,
    /// data calls with these numbers are interrupted once
    interrupt: Vec<u64>,
    /// every data call is preceded by an interruption
    interrupt_all: bool,
    /// data calls move at most this many bytes
    chunk: Option<usize>,
    /// the data call with this number moves at most this many bytes
    single: Vec<(u64, usize)>,
    /// the writer accepts no bytes at or beyond this position
    capacity: Option<u64>,
    /// data call that moves nothing from then on
    zero_at: Option<u64>,
}

struct Faulty<T> {
    inner: T,
    plan: Plan,
    call: u64,
    data_calls: u64,
    pending_interrupt: bool,
    /// sizes of the data calls of an undisturbed run
    sizes: Vec<(u64, usize)>,
}

impl<T> Faulty<T> {
    fn new(inner: T, plan: &Plan) -> Self {
        Faulty { inner, plan: plan.clone(), call: 0, data_calls: 0, pending_interrupt: false, sizes: vec![] }
    }
    fn enter(&mut self) -> std::io::Result<u64> {
        let n = self.call;
        self.call += 1;
        if let Some(f) = self.plan.fail_at {
            if n == f || (self.plan.sticky && n > f) {
                return Err(Error::new(self.plan.kind.unwrap_or(ErrorKind::Other), "injected"));
            }
        }
        Ok(n)
    }
    /// Number of bytes this data call may move.
    fn data(&mut self, want: usize) -> std::io::Result<usize> {
        let n = self.enter()?;
        if self.plan.interrupt_all {
            self.pending_interrupt = !self.pending_interrupt;
            if self.pending_interrupt {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        if self.plan.interrupt.contains(&n) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.sizes.push((n, want));
        self.data_calls += 1;
        if self.plan.zero_at.map_or(false, |z| n >= z) {
            return Ok(0);
        }
        let mut m = want;
        if let Some(c) = self.plan.chunk {
            m = m.min(c);
        }
        for &(at, k) in &self.plan.single {
            if at == n {
                m = m.min(k);
            }
        }
        Ok(m)
    }
}

impl<T: Read> Read for Faulty<T> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let m = self.data(buf.len())?;
        self.inner.read(&mut buf[..m])
    }
}
impl<T: Seek> Seek for Faulty<T> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.enter()?;
        self.inner.seek(p)
    }
}
impl Write for Faulty<Cursor<Vec<u8>>> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let mut m = self.data(buf.len())?;
        if let Some(c) = self.plan.capacity {
            let room = c.saturating_sub(self.inner.position());
            if room == 0 && !buf.is_empty() {
                return Err(Error::new(ErrorKind::Other, "no space left"));
            }
            m = m.min(room as usize);
        }
        self.inner.write(&buf[..m])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.enter()?;
        Ok(())
    }
}

const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::TimedOut];

// ---------------------------------------------------------------------------------------------
// C07

type Rd<'a> = Faulty<Cursor<&'a [u8]>>;
type ReadOp = fn(&mut Rd) -> Result<Value, String>;

fn raw_op(r: &mut Rd) -> Result<Value, String> {
    SsbhFile::read(r).map(|v| fmt::json(&v)).map_err(|e| e.to_string())
}
fn meshex_op(r: &mut Rd) -> Result<Value, String> {
    MeshEx::read(r).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
}
fn adj_op(r: &mut Rd) -> Result<Value, String> {
    Adj::read(r).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
}
fn data_op<T: SsbhData + serde::Serialize>(r: &mut Rd) -> Result<Value, String> {
    T::read(r).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
}
fn shdr_op(r: &mut Rd) -> Result<Value, String> {
    ShdrData::read(r).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
}
fn meta_op(r: &mut Rd) -> Result<Value, String> {
    ssbh_data::shdr_data::MetaData::read(r).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
}
macro_rules! typed_ops {
    ($($t:ident),*) => { vec![$((stringify!($t), {
        fn op(r: &mut Rd) -> Result<Value, String> {
            ssbh_lib::prelude::$t::read(r).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
        }
        op as ReadOp
    })),*] };
}

/// pieces that only large files consist of
const CHUNKS: [usize; 14] = [63, 64, 127, 255, 256, 1000, 1023, 4095, 4096, 8191, 8192, 8193, 16_384, 20_000];

struct ReadSubject {
    name: String,
    bytes: Vec<u8>,
    op: ReadOp,
    value: Value,
    calls: u64,
    sizes: Vec<(u64, usize)>,
}

fn read_subjects() -> Vec<ReadSubject> {
    let mut out = vec![];
    let mut add = |name: String, bytes: Vec<u8>, op: ReadOp| {
        let mut r = Faulty::new(Cursor::new(bytes.as_slice()), &Plan::default());
        let value = match catch(|| op(&mut r)) {
            Ok(Ok(v)) => v,
            // an unreadable sample is reported by the scenario itself
            Ok(Err(e)) => Value::String(format!("unreadable: {e}")),
            Err((l, m)) => Value::String(format!("unreadable: {l} {m}")),
        };
        let (calls, sizes) = (r.call, std::mem::take(&mut r.sizes));
        out.push(ReadSubject { name, bytes, op, value, calls, sizes });
    };
    let typed = typed_ops!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr);
    for f in raw_files() {
        let op = typed.iter().find(|t| t.0 == f.root).unwrap().1;
        add(format!("{}-file", f.name), f.bytes.clone(), raw_op);
        add(format!("{}-typed", f.name), f.bytes, op);
    }
    add("MeshEx".into(), bytes_of(&meshex()), meshex_op);
    fn large<T>(v: T, write: impl Fn(&T, &mut Cursor<Vec<u8>>) -> std::io::Result<()>) -> Vec<u8> {
        let mut c = Cursor::new(vec![]);
        write(&v, &mut c).unwrap();
        c.into_inner()
    }
    let large = [("Mesh", large(large_mesh(), |v, c| v.write(c))), ("Anim", large(large_anim(20_001), |v, c| v.write(c))), ("Modl", large(large_modl(100), |v, c| v.write(c)))];
    for (root, bytes) in large {
        add(format!("large-{root}"), bytes, typed.iter().find(|t| t.0 == root).unwrap().1);
    }
    // The last field of the header is not zero: what is read instead of it, after a failed return from a pointer, differs.
    let mut nonzero = bytes_of(&meshex());
    nonzero[48..52].copy_from_slice(&0x01020304u32.to_le_bytes());
    add("MeshEx-nonzero".into(), nonzero, meshex_op);
    add("Adj".into(), bytes_of(&adj()), adj_op);
    for s in data_samples() {
        let op: ReadOp = match s.name.split(|c: char| c.is_ascii_digit()).next().unwrap() {
            "anim" => data_op::<AnimData>,
            "mesh" => data_op::<MeshData>,
            "skel" => data_op::<SkelData>,
            "matl" => data_op::<MatlData>,
            "modl" => data_op::<ModlData>,
            "hlpb" => data_op::<HlpbData>,
            "meshex" => data_op::<MeshExData>,
            "adj" => data_op::<AdjData>,
            "shdr" => shdr_op,
            "shaderbin" => meta_op,
            x => panic!("no reader for {x}"),
        };
        add(format!("{}-data", s.name), s.bytes, op);
    }
    out
}

fn check_read(ctx: &mut Ctx, s: &ReadSubject, plan: &Plan, expect: Expect) -> RunResult {
    if let Value::String(e) = &s.value {
        return fail(&format!("{}:sample", s.name), e.clone());
    }
    ctx.step();
    ctx.note(|| format!("{} with {plan:?}", s.name));
    ctx.hash_bytes(format!("{plan:?}").as_bytes());
    let mut r = Faulty::new(Cursor::new(s.bytes.as_slice()), plan);
    let res = (s.op)(&mut r);
    judge(&s.name, plan, expect, res, |v| json_diff(&s.value, &v))
}

#[derive(Clone, Copy, PartialEq)]
enum Expect {
    Error,
    ErrorOrSame,
    Same,
}

fn judge<T>(name: &str, plan: &Plan, expect: Expect, res: Result<T, String>, diff: impl FnOnce(T) -> Option<String>) -> RunResult {
    match (expect, res) {
        (Expect::Same, Err(e)) => fail(&format!("{name}:error"), format!("{e} with {plan:?}")),
        (Expect::Error, Ok(_)) => fail(&format!("{name}:success"), format!("no error with {plan:?}")),
        (_, Ok(v)) => match diff(v) {
            Some(d) => fail(&format!("{name}:differs"), format!("{d} with {plan:?}")),
            None => Ok(true),
        },
        (_, Err(_)) => Ok(true),
    }
}

fn c07(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for s in read_subjects() {
        let s = Arc::new(s);
        let t = s.clone();
        out.push(scenario(format!("{}-fail", s.name), 0, move |ctx: &mut Ctx| {
            let n = ctx.free(t.calls.max(1) as usize) as u64;
            let sticky = ctx.free(2) == 0;
            let kind = KINDS[ctx.free(if thorough { 4 } else { 2 })];
            let plan = Plan { fail_at: Some(n), sticky, kind: Some(kind), ..Plan::default() };
            // a transient failure may be retried, but never changes the value
            check_read(ctx, &t, &plan, if sticky { Expect::Error } else { Expect::ErrorOrSame })
        }));
        let t = s.clone();
        out.push(scenario(format!("{}-chunk", s.name), 0, move |ctx: &mut Ctx| {
            let c = ctx.free(40 + CHUNKS.len());
            let c = if c < 40 { c + 1 } else { CHUNKS[c - 40] };
            let all = ctx.free(2) == 1;
            let plan = Plan { chunk: Some(c), interrupt_all: all, ..Plan::default() };
            check_read(ctx, &t, &plan, Expect::Same)
        }));
        let t = s.clone();
        out.push(scenario(format!("{}-short", s.name), 0, move |ctx: &mut Ctx| {
            // a single short or interrupted read; thorough: all pairs of positions
            let mut plan = Plan::default();
            let rounds = if t.calls < if thorough { 400 } else { 150 } { 2 } else { 1 };
            let mut from = 0;
            for _ in 0..rounds {
                let left = t.calls as usize + 2 - from;
                let at = from + ctx.free(left);
                from = at + 1;
                match ctx.free(if rounds == 2 { 3 } else { 4 }) {
                    0 => plan.interrupt.push(at as u64),
                    1 => plan.single.push((at as u64, 1)),
                    2 => plan.single.push((at as u64, t.sizes.iter().find(|x| x.0 == at as u64).map_or(2, |x| x.1.saturating_sub(1).max(1)))),
                    _ => plan.single.push((at as u64, 3)),
                }
                if from >= t.calls as usize + 2 {
                    break;
                }
            }
            check_read(ctx, &t, &plan, Expect::Same)
        }));
        if thorough {
            // a failure while reads are short
            let t = s.clone();
            out.push(scenario(format!("{}-short-fail", s.name), 0, move |ctx: &mut Ctx| {
                let chunk = [1usize, 2, 5][ctx.free(3)];
                let n = ctx.free(t.calls as usize) as u64;
                let plan = Plan { fail_at: Some(n), sticky: true, chunk: Some(chunk), interrupt_all: ctx.free(2) == 1, ..Plan::default() };
                check_read(ctx, &t, &plan, Expect::Error)
            }));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// C08

type Wr = Faulty<Cursor<Vec<u8>>>;
type WriteOp = Arc<dyn Fn(&mut Wr) -> Result<(), String> + Send + Sync>;
type SaveOp = Arc<dyn Fn(&Path) -> Result<(), String> + Send + Sync>;
type LoadOp = Arc<dyn Fn(&Path) -> Result<Value, String> + Send + Sync>;
type FromBytes = Arc<dyn Fn(&[u8]) -> Result<Value, String> + Send + Sync>;

/// A value with all its ways to be written.
struct WriteSubject {
    name: String,
    write: WriteOp,
    save: SaveOp,
    load: LoadOp,
    read: FromBytes,
}

macro_rules! subject {
    ($name:expr, $v:expr, $t:ty) => {{
        let v = Arc::new($v);
        let (a, b) = (v.clone(), v.clone());
        WriteSubject {
            name: $name,
            write: Arc::new(move |w: &mut Wr| a.write(w).map_err(|e| e.to_string())),
            save: Arc::new(move |p: &Path| b.write_to_file(p).map_err(|e| e.to_string())),
            load: Arc::new(|p: &Path| <$t>::from_file(p).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())),
            read: Arc::new(|b: &[u8]| <$t>::read(&mut Cursor::new(b)).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())),
        }
    }};
}

macro_rules! typed_subjects {
    ($f:expr, $out:expr, $($t:ident),*) => { match $f.root {
        $(stringify!($t) => {
            use ssbh_lib::prelude::$t;
            if let Ok(v) = $t::read(&mut Cursor::new(&$f.bytes)) {
                $out.push(subject!(format!("{}-typed", $f.name), v, $t));
            }
        })*
        _ => {}
    } };
}

pub fn raw_meshex(entries: usize, flags: usize) -> MeshEx {
    use ssbh_lib::formats::meshex as m;
    use ssbh_lib::Ptr64;
    let s = || ssbh_lib::formats::mesh::BoundingSphere { center: ssbh_lib::Vector3::new(0.5, 1.0, -2.0), radius: 3.0 };
    MeshEx {
        all_data: Ptr64::new(m::AllData { bounding_sphere: s(), name: Ptr64::new("All".into()) }),
        mesh_object_groups: Ptr64::new(vec![m::MeshObjectGroup { bounding_sphere: s(), mesh_object_full_name: Ptr64::new("objShape".into()), mesh_object_name: Ptr64::new("obj".into()) }]),
        entries: Ptr64::new((0..entries).map(|i| m::MeshEntry { mesh_object_group_index: 0, unk1: ssbh_lib::Vector3::new(i as f32, 1.0, 0.0) }).collect()),
        entry_flags: Ptr64::new(m::EntryFlags((0..flags).map(|_| m::EntryFlag::new()).collect())),
        unk1: 0,
    }
}

/// Files with a buffer, an array or a string that is longer than what readers and writers usually handle in one piece.
fn large_mesh() -> Mesh {
    let mut m = mesh(10);
    m.objects.truncate(1);
    m.objects[0] = mesh_object("large", 0, 600);
    m.objects[0].vertex_indices = (0..6000).map(|i| i * 7 % 600).collect();
    m.objects[0].bone_influences.clear();
    Mesh::try_from(&m).unwrap()
}
fn large_anim(n: usize) -> Anim {
    let values = TrackValues::Float((0..3000).map(|i| i as f32 * 0.5 - 1.0).collect());
    let mut v = vec![track("Direct", values)];
    v.push(track("Bool", TrackValues::Boolean((0..3000).map(|i| i % 3 == 0).collect())));
    let mut a = Anim::try_from(&anim(0, v)).unwrap();
    // a buffer of any length
    if let Anim::V20 { buffer, .. } = &mut a {
        buffer.elements = (0..n as u32).map(|i| (i * 7 + i / 251) as u8).collect();
    }
    a
}
fn large_modl(n: usize) -> Modl {
    let mut m = modl();
    m.mesh_file_name = "long_name_".repeat(n);
    Modl::from(&m)
}
fn write_subjects() -> Vec<WriteSubject> {
    let mut out = vec![];
    out.push(subject!("large-mesh".into(), large_mesh(), Mesh));
    out.push(subject!("large-anim".into(), large_anim(20_001), Anim));
    out.push(subject!("large-modl".into(), large_modl(2000), Modl));
    for f in raw_files() {
        if let Ok(v) = fmt::read(&f.bytes) {
            out.push(subject!(format!("{}-file", f.name), v, SsbhFile));
        }
        typed_subjects!(f, out, Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr);
    }
    out.push(subject!("MeshEx".into(), MeshEx::from(&meshex()), MeshEx));
    out.push(subject!("Adj".into(), Adj::try_from(&adj()).unwrap(), Adj));
    for m in [0u16, 1] {
        out.push(subject!(format!("anim2{m}-direct-data"), anim(m, tracks(2)), AnimData));
        out.push(subject!(format!("anim2{m}-compressed-data"), anim(m, tracks(36)), AnimData));
    }
    for m in [8u16, 9, 10] {
        out.push(subject!(format!("mesh1{m}-data"), mesh(m), MeshData));
    }
    out.push(subject!("skel-data".into(), skel(), SkelData));
    out.push(subject!("matl-data".into(), matl(), MatlData));
    out.push(subject!("modl-data".into(), modl(), ModlData));
    out.push(subject!("hlpb-data".into(), hlpb(), HlpbData));
    out.push(subject!("meshex-data".into(), meshex(), MeshExData));
    out.push(subject!("adj-data".into(), adj(), AdjData));
    out
}

struct Baseline {
    s: WriteSubject,
    bytes: Vec<u8>,
    calls: u64,
    sizes: Vec<(u64, usize)>,
    error: Option<String>,
}

fn baseline(s: WriteSubject) -> Baseline {
    let mut w = Faulty::new(Cursor::new(vec![]), &Plan::default());
    let error = match catch(|| (s.write)(&mut w)) {
        Ok(r) => r.err(),
        Err((l, m)) => Some(format!("{l} {m}")),
    };
    Baseline { calls: w.call, sizes: std::mem::take(&mut w.sizes), bytes: w.inner.into_inner(), s, error }
}

fn check_write(ctx: &mut Ctx, b: &Baseline, plan: &Plan, expect: Expect) -> RunResult {
    if let Some(e) = &b.error {
        return fail(&format!("{}:sample", b.s.name), e.clone());
    }
    ctx.step();
    ctx.note(|| format!("{} with {plan:?}", b.s.name));
    ctx.hash_bytes(format!("{plan:?}").as_bytes());
    let mut w = Faulty::new(Cursor::new(vec![]), plan);
    let res = (b.s.write)(&mut w);
    judge(&b.s.name, plan, expect, res, |_| bytes_diff(&b.bytes, w.inner.get_ref()))
}

fn c08(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for s in write_subjects() {
        let b = Arc::new(baseline(s));
        let name = b.s.name.clone();
        let t = b.clone();
        out.push(scenario(format!("{name}-fail"), 0, move |ctx: &mut Ctx| {
            let n = ctx.free(t.calls.max(1) as usize) as u64;
            let (plan, e) = match ctx.free(3) {
                0 => (Plan { fail_at: Some(n), sticky: true, ..Plan::default() }, Expect::Error),
                1 => (Plan { fail_at: Some(n), kind: Some(ErrorKind::WouldBlock), ..Plan::default() }, Expect::ErrorOrSame),
                // the writer stops accepting bytes; harmless when none remain to be written
                _ => {
                    let left = t.sizes.iter().any(|x| x.0 >= n && x.1 > 0);
                    (Plan { zero_at: Some(n), ..Plan::default() }, if left { Expect::Error } else { Expect::ErrorOrSame })
                }
            };
            check_write(ctx, &t, &plan, e)
        }));
        let t = b.clone();
        out.push(scenario(format!("{name}-capacity"), 0, move |ctx: &mut Ctx| {
            let c = ctx.free(t.bytes.len().max(1)) as u64;
            let chunk = [None, Some(1), Some(3)][ctx.free(if thorough { 3 } else { 1 })];
            let plan = Plan { capacity: Some(c), chunk, ..Plan::default() };
            check_write(ctx, &t, &plan, Expect::Error)
        }));
        let t = b.clone();
        out.push(scenario(format!("{name}-chunk"), 0, move |ctx: &mut Ctx| {
            let c = ctx.free(40 + CHUNKS.len());
            let c = if c < 40 { c + 1 } else { CHUNKS[c - 40] };
            let all = ctx.free(2) == 1;
            let plan = Plan { chunk: Some(c), interrupt_all: all, ..Plan::default() };
            check_write(ctx, &t, &plan, Expect::Same)
        }));
        let t = b.clone();
        out.push(scenario(format!("{name}-short"), 0, move |ctx: &mut Ctx| {
            let mut plan = Plan::default();
            let rounds = if t.calls < if thorough { 400 } else { 150 } { 2 } else { 1 };
            let mut from = 0usize;
            for _ in 0..rounds {
                let at = from + ctx.free(t.calls as usize + 2 - from);
                from = at + 1;
                match ctx.free(if rounds == 2 { 3 } else { 4 }) {
                    0 => plan.interrupt.push(at as u64),
                    1 => plan.single.push((at as u64, 1)),
                    2 => plan.single.push((at as u64, t.sizes.iter().find(|x| x.0 == at as u64).map_or(2, |x| x.1.saturating_sub(1).max(1)))),
                    _ => plan.single.push((at as u64, 3)),
                }
                if from >= t.calls as usize + 2 {
                    break;
                }
            }
            check_write(ctx, &t, &plan, Expect::Same)
        }));
    }
    out
}

// ---------------------------------------------------------------------------------------------
// C24

/// A scratch directory that is removed again.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-scratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Values that cannot be written.
fn unwritable() -> Vec<WriteSubject> {
    let mut out: Vec<WriteSubject> = vec![];
    for (e, f) in [(0usize, 1usize), (1, 0), (2, 1), (1, 2), (300, 299)] {
        out.push(subject!(format!("MeshEx-{e}-entries-{f}-flags"), raw_meshex(e, f), MeshEx));
    }
    for (name, maj, min, last) in [("version", 1u16, 2u16, 40.0f32), ("minor", 2, 2, 40.0), ("negative", 2, 0, -1.0), ("short", 2, 1, 34.0)] {
        let mut a = anim(0, tracks(36));
        a.major_version = maj;
        a.minor_version = min;
        a.final_frame_index = last;
        out.push(subject!(format!("anim-{name}"), a, AnimData));
    }
    for ver in [8u16, 9, 10] {
        for defect in ["length", "range", "triangle", "subindex", "version"] {
            let mut m = mesh(ver);
            let o = &mut m.objects[1];
            match defect {
                "length" => o.texture_coordinates[0].data = ssbh_data::mesh_data::VectorData::Vector2(vec![[0.0, 1.0]; 2]),
                "range" => o.vertex_indices[2] = 3,
                "triangle" => o.vertex_indices.push(0),
                "subindex" => {
                    o.name = "obj".into();
                    o.subindex = 0;
                }
                _ => m.minor_version += 3,
            }
            out.push(subject!(format!("mesh1{ver}-{defect}"), m, MeshData));
        }
    }
    let mut m = mesh(10);
    m.objects[0].bone_influences[1].vertex_weights[0].vertex_index = 65536;
    out.push(subject!("mesh110-weight".into(), m, MeshData));
    let mut s = skel();
    s.bones[0].parent_index = Some(2);
    out.push(subject!("skel-cycle".into(), s, SkelData));
    for (maj, min) in [(1u16, 5u16), (1, 7), (2, 6)] {
        let mut m = matl();
        m.major_version = maj;
        m.minor_version = min;
        out.push(subject!(format!("matl-{maj}.{min}"), m, MatlData));
    }
    out
}

const TARGETS: [&str; 7] = ["missing", "longer", "shorter", "empty", "same-length", "directory", "missing-parent"];

fn listing(dir: &Path) -> Vec<(String, Option<Vec<u8>>)> {
    let mut v: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| {
            let e = e.unwrap();
            (e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).ok())
        })
        .collect();
    v.sort();
    v
}

fn save_case(ctx: &mut Ctx, s: &WriteSubject, bytes: Option<&[u8]>) -> RunResult {
    let t = ctx.free(TARGETS.len());
    // several saves in sequence must behave like the last one
    let repeat = ctx.free(2) + 1;
    let name = &s.name;
    ctx.note(|| format!("{name} saved {repeat} time(s) to a target that is {}", TARGETS[t]));
    ctx.hash_u64((t * 2 + repeat) as u64);
    let len = bytes.map_or(100, |b| b.len());
    let dir = Scratch::new();
    let mut path = dir.0.join("target.bin");
    std::fs::write(dir.0.join("other.bin"), b"bystander").unwrap();
    match t {
        1 => std::fs::write(&path, vec![0xA5; len + 77]).unwrap(),
        2 => std::fs::write(&path, vec![0xA5; len / 2]).unwrap(),
        3 => std::fs::write(&path, b"").unwrap(),
        4 => std::fs::write(&path, vec![0xA5; len]).unwrap(),
        5 => std::fs::create_dir(&path).unwrap(),
        6 => path = dir.0.join("no/target.bin"),
        _ => {}
    }
    let before = listing(&dir.0);
    for _ in 0..repeat {
        ctx.step();
        let r = (s.save)(&path);
        match bytes {
            Some(b) if t < 5 => {
                if let Err(e) = r {
                    return fail(&format!("{name}:save-error"), e);
                }
                let got = std::fs::read(&path).or_fail("save:missing")?;
                if let Some(d) = bytes_diff(b, &got) {
                    return fail("save:differs", format!("{name} ({}): {d}", TARGETS[t]));
                }
                let (x, y) = ((s.load)(&path).or_fail("save:load")?, (s.read)(b).or_fail("save:read")?);
                if let Some(d) = json_diff(&x, &y) {
                    return fail("load:differs", format!("{name}: {d}"));
                }
                ensure!(listing(&dir.0).len() == 2, "save:extra-files", "{name}: {:?}", listing(&dir.0).iter().map(|x| &x.0).collect::<Vec<_>>());
            }
            _ => {
                ensure!(r.is_err(), "save:no-error", "{name}: saving to a target that is {} succeeded", TARGETS[t]);
                let after = listing(&dir.0);
                ensure!(before == after, "save:not-preserved", "{name}: a failed save to a target that is {} changed the directory: {:?} -> {:?}", TARGETS[t], before.iter().map(|x| (&x.0, x.1.as_ref().map(|b| b.len()))).collect::<Vec<_>>(), after.iter().map(|x| (&x.0, x.1.as_ref().map(|b| b.len()))).collect::<Vec<_>>());
            }
        }
    }
    Ok(true)
}

/// /dev/full accepts to be opened and fails every write.
fn full_device() -> bool {
    use std::os::unix::fs::FileTypeExt;
    std::fs::metadata("/dev/full").map_or(false, |m| m.file_type().is_char_device()) && std::fs::OpenOptions::new().write(true).open("/dev/full").and_then(|mut f| f.write_all(b"x")).is_err()
}

fn c24(_thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let full = full_device();
    let mut subjects = write_subjects();
    // files larger than any buffer, of lengths that are no multiple of anything
    for n in [65_501usize, 131_072, 200_003, 1_048_577, 3_000_001] {
        subjects.push(subject!(format!("large-{n}"), large_anim(n), Anim));
    }
    for s in subjects {
        let b = Arc::new(baseline(s));
        let t = b.clone();
        out.push(scenario(format!("{}-save", b.s.name), 0, move |ctx: &mut Ctx| {
            if let Some(e) = &t.error {
                return fail(&format!("{}:sample", t.s.name), e.clone());
            }
            save_case(ctx, &t.s, Some(&t.bytes))
        }));
        if full {
            let t = b.clone();
            out.push(scenario(format!("{}-full", b.s.name), 0, move |_: &mut Ctx| {
                ensure!((t.s.save)(Path::new("/dev/full")).is_err(), "full:no-error", "{}: saving to a full device reported success", t.s.name);
                Ok(true)
            }));
        }
        // loading a damaged file from a path agrees with reading the same bytes
        let t = b.clone();
        out.push(scenario(format!("{}-load", b.s.name), 0, move |ctx: &mut Ctx| {
            let n = t.bytes.len();
            let mut f = t.bytes.clone();
            match ctx.free(3) {
                0 => f.truncate([0, 1, 4, 16, n / 2, n - 1][ctx.free(6)].min(n)),
                1 => {
                    let at = ctx.free(n.min(64));
                    f[at] ^= 0xff;
                }
                _ => f.extend(vec![0u8; 1 + ctx.free(3)]),
            }
            ctx.hash_bytes(&f);
            ctx.note(|| format!("{} loaded from a file of {} bytes", t.s.name, f.len()));
            let dir = Scratch::new();
            let p = dir.0.join("in.bin");
            std::fs::write(&p, &f).unwrap();
            ctx.step();
            match ((t.s.load)(&p), (t.s.read)(&f)) {
                (Ok(x), Ok(y)) => {
                    if let Some(d) = json_diff(&x, &y) {
                        return fail("load:differs", format!("{}: {d}", t.s.name));
                    }
                }
                (Err(_), Err(_)) => {}
                (x, y) => return fail("load:disagrees", format!("{}: from_file {} but read {}", t.s.name, x.is_ok(), y.is_ok())),
            }
            ensure!(std::fs::read(&p).unwrap() == f, "load:changed-file", "{}: loading changed the file", t.s.name);
            Ok(true)
        }));
    }
    for s in unwritable() {
        let b = Arc::new(baseline(s));
        let name = b.s.name.clone();
        out.push(scenario(format!("{name}-unwritable"), 0, move |ctx: &mut Ctx| {
            ensure!(b.error.is_some(), "unwritable:accepted", "{} was written", b.s.name);
            save_case(ctx, &b.s, None)
        }));
    }
    out
}
