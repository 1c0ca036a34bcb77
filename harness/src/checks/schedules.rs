//! C38, second part: two operations at the same time.
//!
//! The calls an operation makes on its stream are its scheduling points.  A controlled scheduler runs
//! two operations in two threads and hands the processor over at chosen points: all schedules with one
//! preemption, all with two for small operations.  The same pairs are also run nested: the second
//! operation inside one call of the first one's stream.  Each pair has a process of its own
//! (`mc sched …`); the outcomes are compared with those of the operations on their own.
use crate::explore::*;
use crate::samples::*;
use crate::schema::*;
use crate::util::*;
use ssbh_data::mesh_data::VectorData;
use ssbh_data::prelude::*;
use std::cell::{Cell, RefCell};
use std::fmt::{Debug, Display};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

type Hook = Box<dyn FnMut(usize)>;
thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}

/// A call of a stream: the place where another operation may run.
fn point() {
    let n = COUNT.get();
    COUNT.set(n + 1);
    let h = HOOK.take();
    if let Some(mut h) = h {
        h(n);
        HOOK.set(Some(h));
        COUNT.set(n + 1);
    }
}

struct Io(Cursor<Vec<u8>>);
impl Read for Io {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        point();
        self.0.read(b)
    }
}
impl Write for Io {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        point();
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        point();
        Ok(())
    }
}
impl Seek for Io {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        point();
        self.0.seek(p)
    }
}

pub struct Op {
    pub name: String,
    run: Box<dyn Fn() -> String + Send + Sync>,
}

fn shown<T: Debug, E: Display>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("error {e}"),
    }
}

fn save<T: SsbhData>(d: &T, at: usize) -> String
where
    T::WriteError: Display,
{
    let mut c = Io(Cursor::new(vec![0xa5; at]));
    c.0.set_position(at as u64);
    let w = shown(d.write(&mut c));
    format!("{w} {} {}", c.0.position(), hexs(c.0.get_ref()))
}

fn load<T: SsbhData + Debug>(b: &[u8]) -> String {
    let mut c = Io(Cursor::new(b.to_vec()));
    let r = shown(T::read(&mut c));
    format!("{r} {}", c.0.position())
}

fn short_anim(minor: u16, v: usize) -> AnimData {
    let mut t = tracks(3);
    t.rotate_left(2 * v);
    t.truncate(2);
    anim(minor, t)
}

fn short_mesh(minor: u16, v: usize) -> MeshData {
    let mut m = mesh(minor);
    m.objects.truncate(1);
    if let VectorData::Vector3(p) = &mut m.objects[0].positions[0].data {
        p[0][0] += v as f32;
    }
    m
}

pub fn ops() -> Vec<Op> {
    let mut out: Vec<Op> = vec![];
    macro_rules! op {
        ($name:expr, $body:expr) => {{
            let f = $body;
            out.push(Op { name: $name.to_string(), run: Box::new(move || f()) });
        }};
    }
    macro_rules! both {
        ($name:expr, $at:expr, $t:ty, $v:expr) => {{
            let d: $t = $v;
            let b = bytes_of(&d);
            op!(format!("write {}", $name), move || save(&d, $at));
            op!(format!("read {}", $name), move || load::<$t>(&b));
        }};
    }
    for v in 0..2usize {
        both!(format!("anim 2.{v}"), 48 * v, AnimData, short_anim(v as u16, v));
        both!(format!("mesh 1.{}", 8 + 2 * v), 16 - 16 * v, MeshData, short_mesh(8 + 2 * v as u16, v));
        let mut s = skel();
        s.bones.truncate(2);
        s.bones[1].transform[3][1] += v as f32;
        both!(format!("skel v{v}"), 32 * v, SkelData, s);
        let mut a = adj();
        a.entries[0].vertex_adjacency[0] += v as i16;
        both!(format!("adj v{v}"), 0, AdjData, a);
    }
    both!("matl", 0, MatlData, matl());
    let mut m = modl();
    m.entries.truncate(1);
    both!("modl", 0, ModlData, m);
    both!("hlpb", 0, HlpbData, hlpb());
    for v in 0..2usize {
        both!(format!("meshex v{v}"), 64 * v, MeshExData, {
            let mut m = meshex();
            m.mesh_object_groups.truncate(2 - v);
            m
        });
    }
    op!("mesh that is refused", || {
        let mut m = short_mesh(10, 1);
        m.objects[0].vertex_indices[0] = 77;
        save(&m, 0)
    });
    op!("skel that ends early", || load::<SkelData>(&bytes_of(&skel())[..300]));
    let b = shader_binary(&["buf", "uniform", "in", "gl_Position"], 32);
    let a12 = anim12(&anim12_bufs());
    op!("read anim 1.2", move || load::<AnimData>(&a12));
    op!("read shader", move || {
        let mut c = Io(Cursor::new(b.clone()));
        format!("{} {}", shown(ssbh_data::shdr_data::MetaData::read(&mut c).map_err(|e| e.to_string())), c.0.position())
    });
    for name in ["Nufx", "Matl", "Nlst"] {
        for v in 0..2usize {
            let ri = Schema::get().roots.iter().position(|r| r.name == name).unwrap();
            let r = &Schema::get().roots[ri];
            let val = default_val(r, v.min(r.versions.len() - 1), 1 + v, 1 + v);
            let e = encode_file(r, &r.versions[v.min(r.versions.len() - 1)], &val, Layout::Queue { lifo: true, gap: 3 }, false);
            let b = e.buf.clone();
            op!(format!("read raw {name} {v}"), move || {
                let mut c = Io(Cursor::new(b.clone()));
                format!("{} {}", shown(ssbh_lib::SsbhFile::read(&mut c)), c.0.position())
            });
            let f = crate::fmt::read(&e.buf).unwrap();
            op!(format!("write raw {name} {v}"), move || {
                let mut c = Io(Cursor::new(vec![]));
                let w = shown(f.write(&mut c));
                format!("{w} {} {}", c.0.position(), hexs(c.0.get_ref()))
            });
        }
    }
    op!("JSON of a mesh file", || {
        let f = crate::fmt::read(&bytes_of(&short_mesh(10, 0))).unwrap();
        let mut c = Io(Cursor::new(vec![]));
        let w = shown(serde_json::to_writer(&mut c, &f));
        let n = c.0.get_ref().len();
        c.0.set_position(0);
        let r: Result<ssbh_lib::SsbhFile, _> = serde_json::from_slice(c.0.get_ref());
        format!("{w} {n} {}", shown(r))
    });
    // without points of their own: they run as a whole at the points of others
    op!("helpers", || {
        let o = mesh_object("obj", 0, 6);
        let p = &o.positions[0].data;
        let mut s = format!("{:?} ", ssbh_data::mesh_data::calculate_smooth_normals(p, &o.vertex_indices));
        s += &format!("{:?} ", ssbh_data::mesh_data::transform_points(p, &mat([1.0, 2.0, 3.0], 0.5)));
        s += &format!("{:?} ", ssbh_data::adj_data::AdjEntryData::from_mesh_object(3, &o));
        let k = skel();
        s += &format!("{:?} ", k.calculate_world_transform(&k.bones[1]).map_err(|e| e.to_string()));
        s + &format!("{:?}", ssbh_data::meshex_data::MeshExData::from_mesh_objects(&[o]))
    });
    op!("files by path", || {
        let m = short_mesh(9, 1);
        let a = short_anim(1, 1);
        let s = skel();
        let w = (m.write_to_file("m").is_ok(), a.write_to_file("a").is_ok(), s.write_to_file("s").is_ok());
        format!("{w:?} {} {} {}", shown(MeshData::from_file("m")), shown(AnimData::from_file("a")), shown(ssbh_lib::SsbhFile::from_file("s")))
    });
    op!("JSON of data", || {
        let t = serde_json::to_string(&short_anim(1, 0)).unwrap();
        let b: Result<AnimData, _> = serde_json::from_str(&t);
        format!("{t} {}", shown(b))
    });
    out
}

fn outcome(o: &Op) -> String {
    match catch(|| (o.run)()) {
        Ok(s) => s,
        Err((at, msg)) => format!("panic {at} {msg}"),
    }
}

/// Whose turn it is.  An operation that waits for something the other one holds gives its turn back.
#[derive(Default)]
struct Baton {
    m: Mutex<(usize, [bool; 2], usize)>,
    c: Condvar,
}
impl Baton {
    fn pass(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.0 = 1 - me;
        self.c.notify_all();
        let mut waited = 0;
        while g.0 != me && !g.1[1 - me] {
            let (n, t) = self.c.wait_timeout(g, Duration::from_secs(3)).unwrap();
            g = n;
            waited += t.timed_out() as usize;
            if waited > 0 {
                g.2 += 1;
                break;
            }
        }
    }
    fn start(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.0 != me {
            g = self.c.wait(g).unwrap();
        }
    }
    fn done(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.1[me] = true;
        g.0 = 1 - me;
        self.c.notify_all();
    }
}

/// Runs both, changing from 0 to 1 at the first point given, back at the second one.
fn threads(a: &Op, b: &Op, at: [Option<usize>; 2]) -> ([String; 2], usize) {
    let baton = Arc::new(Baton::default());
    let go = |o: &Op, me: usize| {
        let bt = baton.clone();
        bt.start(me);
        COUNT.set(0);
        if let Some(k) = at[me] {
            let bt = bt.clone();
            HOOK.set(Some(Box::new(move |n| {
                if n == k {
                    bt.pass(me)
                }
            })));
        }
        let s = outcome(o);
        HOOK.set(None);
        bt.done(me);
        s
    };
    let r = std::thread::scope(|s| {
        let x = s.spawn(|| go(a, 0));
        let y = s.spawn(|| go(b, 1));
        [x.join().unwrap(), y.join().unwrap()]
    });
    let waits = baton.m.lock().unwrap().2;
    (r, waits)
}

/// The second operation inside a call of the first one's stream.
fn nested(a: &Op, b: &'static Op, k: usize) -> [String; 2] {
    let inner = std::rc::Rc::new(RefCell::new(String::new()));
    let i = inner.clone();
    COUNT.set(0);
    HOOK.set(Some(Box::new(move |n| {
        if n == k {
            *i.borrow_mut() = outcome(b);
        }
    })));
    let s = outcome(a);
    HOOK.set(None);
    let t = inner.borrow().clone();
    [s, t]
}

fn table() -> &'static Vec<Op> {
    static T: std::sync::OnceLock<Vec<Op>> = std::sync::OnceLock::new();
    T.get_or_init(ops)
}

/// The outcome of an operation and the number of its points.
fn count(o: &Op) -> (String, usize) {
    COUNT.set(0);
    let s = outcome(o);
    (s, COUNT.get())
}

/// Into how many processes the schedules of a pair with two preemptions are divided.
const PARTS: usize = 8;

/// `mc sched A B part DIR`: all schedules of a pair with one preemption (part 8) or a part of those
/// with two; prints their number and the first few differences.
pub fn child(args: &[String]) -> i32 {
    let n: Vec<usize> = args[..3].iter().map(|a| a.parse().unwrap()).collect();
    if std::env::set_current_dir(&args[3]).is_err() {
        return 2;
    }
    crate::silence();
    let t = table();
    let (a, b) = (&t[n[0]], &t[n[1]]);
    let (wa, na) = count(a);
    let (wb, nb) = count(b);
    let want = [wa, wb];
    let (mut cases, mut bad, mut waits) = (0usize, vec![], 0usize);
    let mut judge = |how: String, got: [String; 2]| {
        cases += 1;
        for i in 0..2 {
            if got[i] != want[i] && bad.len() < 3 {
                let p = got[i].bytes().zip(want[i].bytes()).take_while(|(x, y)| x == y).count();
                let cut = |s: &String| s.chars().skip(p.saturating_sub(20)).take(80).collect::<String>().replace('\n', " ");
                bad.push(format!("{} {how}: from character {p} of {} / {}: {:?} instead of {:?}", t[n[i]].name, got[i].len(), want[i].len(), cut(&got[i]), cut(&want[i])));
            }
        }
    };
    for k in (0..na).filter(|k| n[2] == PARTS || k % PARTS == n[2]) {
        if n[2] == PARTS {
            judge(format!("nested in call {k}"), nested(a, b, k));
            let (g, w) = threads(a, b, [Some(k), None]);
            waits += w;
            judge(format!("in two threads, change at call {k}"), g);
        } else {
            for j in 0..nb {
                let (g, w) = threads(a, b, [Some(k), Some(j)]);
                waits += w;
                judge(format!("in two threads, change at call {k} and back at call {j}"), g);
                // a library that serializes its operations would spend its time waiting here
                if waits > 5 {
                    break;
                }
            }
        }
        if waits > 5 {
            break;
        }
    }
    crate::unsilence();
    println!("{cases} {na} {nb} {waits}");
    for b in bad {
        println!("{b}");
    }
    0
}

fn pair(ctx: &mut Ctx, a: usize, b: usize, part: usize) -> RunResult {
    let t = table();
    ctx.hash_u64((a * t.len() + b) as u64 * 16 + part as u64);
    ctx.note(|| format!("{} / {} {}", t[a].name, t[b].name, if part < PARTS { "two preemptions" } else { "one preemption" }));
    let s = super::io::Scratch::new();
    let exe = std::env::current_exe().map_err(|e| failure("setup:exe", e.to_string()))?;
    let o = std::process::Command::new(exe)
        .args(["sched", &a.to_string(), &b.to_string(), &part.to_string()])
        .arg(&s.0)
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| failure("setup:process", e.to_string()))?;
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let mut lines = text.lines();
    let Some(head) = lines.next().filter(|_| o.status.success()) else {
        return fail("schedule:process", format!("the process that runs {:?} and {:?} at the same time ends with {}", t[a].name, t[b].name, o.status));
    };
    let n: usize = head.split(' ').next().unwrap().parse().unwrap();
    for _ in 0..n {
        ctx.case();
        ctx.step();
        ctx.step();
    }
    if let Some(l) = lines.next() {
        let who = if l.starts_with(&t[a].name) { &t[a].name } else { &t[b].name };
        return fail(&format!("schedule:{who}"), format!("{:?} and {:?} at the same time: {l}", t[a].name, t[b].name));
    }
    Ok(n > 0)
}

pub fn scenarios(thorough: bool) -> Vec<Scenario> {
    let n = table().len();
    // (operations that name files only run in the processes of their own)
    let counts: Vec<usize> = table().iter().map(|o| if o.name.contains("path") { 0 } else { count(o).1 }).collect();
    let limit = if thorough { 300 } else { 60 };
    let small: Vec<usize> = (0..n).filter(|i| (1..=limit).contains(&counts[*i])).collect();
    vec![
        scenario("schedules", 0, move |ctx| {
            let (a, b) = (ctx.free(n), ctx.free(n));
            pair(ctx, a, b, PARTS)
        }),
        scenario("schedules-two", 0, move |ctx| {
            let (a, b) = (small[ctx.free(small.len())], small[ctx.free(small.len())]);
            let part = ctx.free(PARTS);
            pair(ctx, a, b, part)
        }),
    ]
}
