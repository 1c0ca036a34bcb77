//! C38: what an operation yields depends on its arguments alone, not on what was done before or is done
//! meanwhile (see schedules.rs).
//!
//! Every history is executed by a fresh process (`mc op …`), so that it starts from the initial
//! state of the library; the outcome of an operation on its own is the reference.
use super::io::Scratch;
use crate::explore::*;
use crate::samples::*;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, Check};
use ssbh_data::adj_data::*;
use ssbh_data::anim_data::*;
use ssbh_data::hlpb_data::HlpbData;
use ssbh_data::matl_data::*;
use ssbh_data::mesh_data::*;
use ssbh_data::meshex_data::*;
use ssbh_data::modl_data::ModlData;
use ssbh_data::prelude::*;
use ssbh_data::shdr_data::*;
use ssbh_data::skel_data::*;
use std::fmt::{Debug, Display};
use std::io::Cursor;
use std::process::{Command, Stdio};
use std::sync::{Mutex, OnceLock};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C38",
        level: "exploration",
        rule: "one case = one history of operations, run by a process of its own, in which the outcome of every operation is compared with its outcome at the start of a process, or one schedule of two operations; distinct by history or pair",
        assumptions: &["operations in other threads take turns at the calls of streams, with one preemption (two for small operations): between two calls an operation is not interrupted"],
        scenarios: c38,
        hang_s: 300,
    }]
}

struct Op {
    name: String,
    /// belongs to the small set used for longer histories
    core: bool,
    run: Box<dyn Fn() -> String + Send + Sync>,
}

fn shown<T: Debug, E: Debug + Display>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("error {e:?} {e}"),
    }
}

fn errs<T: Debug>(r: Result<T, Box<dyn std::error::Error>>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("error {e:?} {e}"),
    }
}

/// Saves and loads, in memory and through a file whose name all operations share.
fn save_load<T: SsbhData + Debug>(d: &T, file: &str) -> String
where
    T::WriteError: Debug + Display,
{
    let mut c = Cursor::new(vec![]);
    let w = shown(d.write(&mut c));
    let b = c.into_inner();
    let r = errs(T::read(&mut Cursor::new(&b)));
    let f = shown(d.write_to_file(file));
    let g = errs(T::from_file(file));
    let h = ssbh_lib::SsbhFile::from_file(file).map(|f| crate::fmt::json(&f).to_string()).map_err(|e| e.to_string());
    format!("{w} {} {r} {f} {g} {h:?} {:?}", hexs(&b), std::fs::read(file).map(|x| x == b))
}

/// Three values of a kind that share all names and sizes; 0 and 1 differ in everything else, 0 and 2
/// in a single inner value.
fn mesh_v(minor: u16, v: usize) -> MeshData {
    if v == 2 {
        let mut m = mesh_v(minor, 0);
        if let VectorData::Vector3(p) = &mut m.objects[2].positions[0].data {
            p[2][1] += 40.0;
        }
        m.objects[2].bone_influences[1].vertex_weights[1].vertex_weight *= 0.5;
        return m;
    }
    let mut m = mesh(minor);
    let k = v as f32 * 0.375;
    m.objects.push(mesh_object("obj", 7, 6));
    m.objects.push(mesh_object("obj", 3, 6));
    for (i, o) in m.objects.iter_mut().enumerate() {
        o.sort_bias += v as i32;
        for l in [&mut o.positions, &mut o.normals] {
            for a in l.iter_mut() {
                if let VectorData::Vector3(p) = &mut a.data {
                    for (j, x) in p.iter_mut().enumerate() {
                        x[j % 3] += k * (i + 1) as f32;
                    }
                }
            }
        }
        if v == 1 {
            o.vertex_indices.reverse();
        }
        let n = o.positions[0].data.len() as u32;
        if i >= 2 {
            o.bone_influences = (0..5u32)
                .map(|b| BoneInfluence {
                    bone_name: format!("b{}", b ^ v as u32),
                    vertex_weights: (0..n).filter(|x| (x + b) % 3 != 0 || *x == v as u32).map(|x| VertexWeight { vertex_index: x, vertex_weight: 0.125 * (b + 1) as f32 + k }).collect(),
                })
                .collect();
        }
    }
    m
}

fn anim_v(minor: u16, v: usize) -> AnimData {
    if v == 2 {
        let mut a = anim_v(minor, 0);
        for t in &mut a.groups[0].nodes[0].tracks {
            match &mut t.values {
                TrackValues::Transform(x) => x[4].translation.y += 7.0,
                TrackValues::Float(x) => x[3] -= 0.25,
                TrackValues::Boolean(x) => x[5] ^= true,
                TrackValues::PatternIndex(x) => x[2] += 1,
                TrackValues::Vector4(x) => x[4].z -= 0.5,
                TrackValues::UvTransform(x) => x[4].rotation = -9.0,
            }
        }
        return a;
    }
    let mut t = tracks(9);
    for t in &mut t {
        match &mut t.values {
            TrackValues::Transform(x) => {
                if v == 1 {
                    x.reverse()
                }
            }
            TrackValues::Float(x) => x.iter_mut().for_each(|x| *x += v as f32),
            TrackValues::Boolean(x) => x.iter_mut().for_each(|x| *x ^= v == 1),
            TrackValues::PatternIndex(x) => x.iter_mut().for_each(|x| *x += v as u32),
            TrackValues::Vector4(x) => {
                if v == 1 {
                    x.rotate_left(2)
                }
            }
            TrackValues::UvTransform(x) => x.iter_mut().for_each(|x| x.rotation += v as f32),
        }
    }
    let mut a = anim(minor, t);
    let g = a.groups[0].clone();
    a.groups.push(GroupData { group_type: GroupType::Visibility, nodes: vec![g.nodes[0].clone(), g.nodes[0].clone()] });
    a
}

fn skel_v(v: usize) -> SkelData {
    let mut s = skel();
    for i in 3..8usize {
        s.bones.push(BoneData { name: if i % 2 == 0 { "a".into() } else { format!("b{i}") }, transform: mat([i as f32, 0.5, (v % 2) as f32], 0.125 * i as f32), parent_index: Some((i * 3 + v % 2) % i), billboard_type: BillboardType::Disabled });
    }
    match v {
        1 => s.bones[1].transform = mat([0.0, 4.0, 0.0], 0.75),
        2 => s.bones[2].transform[3][1] += 1.0,
        _ => {}
    }
    s
}

fn matl_v(v: usize) -> MatlData {
    let mut m = matl();
    let e = m.entries[0].clone();
    m.entries.push(e);
    if v == 2 {
        m.entries[1].vectors[0].data.z += 1.0;
        m.entries[1].samplers[0].data.lod_bias = 3.0;
        return m;
    }
    for (i, e) in m.entries.iter_mut().enumerate() {
        e.floats[0].data += v as f32;
        e.floats.push(ParamData::new(ParamId::CustomFloat1, i as f32));
        e.booleans[0].data ^= v == 1;
        e.textures[0].data = format!("/common/te{v}");
        e.samplers[0].data.lod_bias = v as f32;
    }
    m
}

fn modl_v(v: usize) -> ModlData {
    let mut m = modl();
    for i in 0..5 {
        let mut e = m.entries[0].clone();
        e.mesh_object_subindex = (i * 7 + v as u64) % 5;
        e.material_label = format!("m{}", (i as usize + v) % 3);
        m.entries.push(e);
    }
    m
}

fn hlpb_v(v: usize) -> HlpbData {
    let mut h = hlpb();
    let (a, o) = (h.aim_constraints[0].clone(), h.orient_constraints[0].clone());
    h.aim_constraints.push(a);
    h.orient_constraints.push(o.clone());
    h.orient_constraints.push(o);
    h.aim_constraints[0].unk1 += v as u32;
    h.orient_constraints[1].quat1 = v4(v as f32 * 0.5);
    h
}

fn meshex_v(v: usize) -> MeshExData {
    let mut m = meshex();
    m.mesh_object_groups[0].bounding_sphere.radius += v as f32;
    m.mesh_object_groups[1].bounding_sphere.center = v3(v as f32 * 3.0);
    if v == 1 {
        m.mesh_object_groups[0].entry_flags.reverse();
    }
    m
}

fn adj_v(v: usize) -> AdjData {
    let mut a = adj();
    a.entries[0].vertex_adjacency[0] += v as i16;
    a.entries.push(AdjEntryData { mesh_object_index: 1, vertex_adjacency: vec![v as i16; 18] });
    a
}

fn ops() -> Vec<Op> {
    let mut out: Vec<Op> = vec![];
    macro_rules! op {
        ($core:expr, $name:expr, $body:expr) => {{
            let f = $body;
            out.push(Op { name: $name.to_string(), core: $core, run: Box::new(move || f()) });
        }};
    }
    for v in 0..3usize {
        for minor in [0u16, 1] {
            op!(minor == 0 && v < 2, format!("anim 2.{minor} v{v}"), move || save_load(&anim_v(minor, v), "file"));
        }
        for minor in [8u16, 9, 10] {
            op!(minor == 10 || minor == 8 && v == 0, format!("mesh 1.{minor} v{v}"), move || save_load(&mesh_v(minor, v), "file"));
        }
        op!(v != 1, format!("skel v{v}"), move || save_load(&skel_v(v), "file"));
        op!(v == 0, format!("matl v{v}"), move || save_load(&matl_v(v), "file"));
        op!(v == 0, format!("modl v{v}"), move || save_load(&modl_v(v), "file"));
        op!(false, format!("hlpb v{v}"), move || save_load(&hlpb_v(v), "file"));
        op!(v == 1, format!("meshex v{v}"), move || save_load(&meshex_v(v), "file"));
        op!(false, format!("adj v{v}"), move || save_load(&adj_v(v), "file"));
        op!(false, format!("shdr v{v}"), move || {
            let names: [[&str; 4]; 3] = [["buf", "uniform", "in", "gl_Position"], ["bug", "uniforn", "on", "gl_Positiom"], ["buf", "unilorm", "in", "gl_Position"]];
            let b = shader_binary(&names[v], 32);
            let f = shdr_file("sh", &b);
            std::fs::write("file", &f).unwrap();
            format!("{} {} {}", errs(ShdrData::read(&mut Cursor::new(&f))), errs(ShdrData::from_file("file")), errs(MetaData::read(&mut Cursor::new(&b))))
        });
        op!(v != 1, format!("helpers v{v}"), move || {
            let m = mesh_v(10, v);
            let mut s = String::new();
            for o in &m.objects {
                let p = &o.positions[0].data;
                let n = o.normals.first().map(|a| a.data.clone()).unwrap_or(VectorData::Vector3(vec![[0.0, 0.0, 1.0]; p.len()]));
                let u = &o.texture_coordinates[0].data;
                s += &format!("{:?} ", calculate_smooth_normals(p, &o.vertex_indices));
                s += &format!("{:?} ", calculate_tangents_vec4(p, &n, u, &o.vertex_indices).map_err(|e| e.to_string()));
                s += &format!("{:?} ", transform_points(p, &mat([v as f32, 1.0, 2.0], 0.5)));
                s += &format!("{:?} ", transform_vectors(p, &mat([v as f32, 1.0, 2.0], 0.5)));
                s += &format!("{:?} ", AdjEntryData::from_mesh_object(3, o));
            }
            let sk = skel_v(v);
            for b in &sk.bones {
                s += &format!("{:?} ", sk.calculate_world_transform(b).map_err(|e| e.to_string()));
                s += &format!("{:?} ", calculate_relative_transform(&b.transform, Some(&sk.bones[1].transform)));
            }
            s + &format!("{:?}", MeshExData::from_mesh_objects(&m.objects))
        });
        op!(false, format!("json of data v{v}"), move || {
            let mut s = String::new();
            macro_rules! go {
                ($t:ty, $d:expr) => {{
                    let t = serde_json::to_string(&$d).unwrap();
                    let b: Result<$t, _> = serde_json::from_str(&t);
                    s += &format!("{t} {:?} ", b.map_err(|e| e.to_string()));
                }};
            }
            go!(AnimData, anim_v(1, v));
            go!(MeshData, mesh_v(8, v));
            go!(SkelData, skel_v(v));
            go!(MatlData, matl_v(v));
            go!(ModlData, modl_v(v));
            go!(HlpbData, hlpb_v(v));
            go!(MeshExData, meshex_v(v));
            go!(AdjData, adj_v(v));
            s
        });
    }
    // single small operations: nothing else happens in between
    for v in [0usize, 2] {
        op!(v == 2, format!("one object v{v}"), move || {
            let mut o = mesh_object("obj", 0, 5);
            if let (VectorData::Vector3(p), 2) = (&mut o.positions[0].data, v) {
                p[2][1] += 40.0;
            }
            let mut c = Cursor::new(vec![]);
            format!("{} {}", shown(MeshData { major_version: 1, minor_version: 10, objects: vec![o] }.write(&mut c)), hexs(&c.into_inner()))
        });
        op!(false, format!("one track v{v}"), move || {
            let mut t = tracks(5)[2].clone();
            if let (TrackValues::Float(x), 2) = (&mut t.values, v) {
                x[2] += 0.125;
            }
            let mut c = Cursor::new(vec![]);
            format!("{} {}", shown(anim(0, vec![t]).write(&mut c)), hexs(&c.into_inner()))
        });
        op!(false, format!("one chain v{v}"), move || {
            let mut s = skel();
            s.bones[1].transform[3][1] += v as f32;
            let mut c = Cursor::new(vec![]);
            format!("{} {}", shown(s.write(&mut c)), hexs(&c.into_inner()))
        });
        op!(false, format!("one face v{v}"), move || {
            let p = vec![[0.0f32, 0.0, 0.0], [1.0, v as f32, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 2.0]];
            let i = [0u32, 1, 2, 2, 1, 3];
            let d = VectorData::Vector3(p.clone());
            format!("{:?} {:?} {:?}", calculate_smooth_normals(&d, &i), AdjEntryData::from_vector_data(0, &d, &i), transform_points(&d, &mat([1.0, 2.0, 3.0], 0.5)))
        });
        op!(false, format!("one group v{v}"), move || {
            let mut m = meshex();
            m.mesh_object_groups[0].bounding_sphere.center.y += v as f32;
            let mut c = Cursor::new(vec![]);
            format!("{} {}", shown(m.write(&mut c)), hexs(&c.into_inner()))
        });
    }
    // long lists, where other algorithms may take over
    op!(false, "mesh of many objects", || {
        let mut m = mesh_v(10, 0);
        let o = m.objects[2].clone();
        m.objects = (0..150u64).map(|i| MeshObjectData { name: format!("o{}", i % 40), subindex: i / 40, ..o.clone() }).collect();
        save_load(&m, "file")
    });
    op!(false, "mesh of many bones", || {
        let mut m = mesh_v(10, 0);
        m.objects[2].bone_influences = (0..300).map(|i| BoneInfluence { bone_name: format!("b{}", i % 200), vertex_weights: vec![VertexWeight { vertex_index: i % 3, vertex_weight: i as f32 }] }).collect();
        save_load(&m, "file")
    });
    op!(false, "anim of many tracks", || {
        let mut a = anim_v(1, 0);
        let n = a.groups[0].nodes[0].clone();
        a.groups[0].nodes = (0..90).map(|i| NodeData { name: format!("n{}", i % 70), ..n.clone() }).collect();
        a.groups[1].nodes[0].tracks = (0..150).map(|i| TrackData { name: format!("t{}", i % 120), ..n.tracks[i % n.tracks.len()].clone() }).collect();
        save_load(&a, "file")
    });
    op!(false, "skel of many bones", || {
        let mut s = skel_v(0);
        for i in 8..200usize {
            s.bones.push(BoneData { name: format!("b{}", i % 150), transform: mat([1.0, 0.0, (i % 3) as f32], 0.1), parent_index: Some(i * 7 % i.min(90)), billboard_type: BillboardType::Disabled });
        }
        save_load(&s, "file")
    });
    op!(false, "materials of many entries", || {
        let mut m = matl_v(0);
        let e = m.entries[0].clone();
        m.entries = (0..150).map(|i| MatlEntryData { material_label: format!("m{}", i % 100), ..e.clone() }).collect();
        let mut d = modl_v(0);
        let e = d.entries[0].clone();
        d.entries = (0..150).map(|i| ssbh_data::modl_data::ModlEntryData { mesh_object_name: format!("o{}", i % 100), ..e.clone() }).collect();
        save_load(&m, "file") + &save_load(&d, "file")
    });
    op!(false, "groups of many objects", || {
        let o = mesh_v(10, 0).objects[2].clone();
        let l: Vec<_> = (0..150u64).map(|i| MeshObjectData { name: format!("o{}_VIS", i % 90), subindex: i / 90, ..o.clone() }).collect();
        let m = MeshExData::from_mesh_objects(&l);
        save_load(&m, "file") + &save_load(&AdjData { entries: (0..150).map(|i| AdjEntryData::from_mesh_object(i, &l[i])).collect() }, "file")
    });
    op!(false, "normals of many triangles", || {
        let p: Vec<[f32; 3]> = (0..600).map(|i| [(i % 7) as f32, (i % 11) as f32 * 0.5, (i * i % 13) as f32]).collect();
        let ix: Vec<u32> = (0..3000u32).map(|i| i * 17 % 600).collect();
        let d = VectorData::Vector3(p);
        format!("{:?} {:?} {:?}", calculate_smooth_normals(&d, &ix), AdjEntryData::from_vector_data(0, &d, &ix), transform_points(&d, &mat([1.0, 2.0, 3.0], 0.5)))
    });
    // operations that fail, some with several defects
    op!(true, "anim with too few frames", || {
        let mut a = anim_v(0, 0);
        a.final_frame_index = 3.0;
        save_load(&a, "file")
    });
    op!(false, "anim of another version", || {
        let mut a = anim_v(0, 0);
        a.minor_version = 7;
        save_load(&a, "file")
    });
    op!(true, "mesh with two pairs of equal names", || {
        let mut m = mesh_v(10, 0);
        for n in ["x", "y", "z", "x", "y", "z"] {
            m.objects.push(mesh_object(n, 1, 3));
        }
        save_load(&m, "file")
    });
    op!(true, "mesh with an index out of range in the third object", || {
        let mut m = mesh_v(8, 0);
        m.objects[2].vertex_indices[1] = 99;
        save_load(&m, "file")
    });
    op!(false, "mesh with weights that do not fit", || {
        let mut m = mesh_v(10, 0);
        m.objects[3].bone_influences[2].vertex_weights[1].vertex_index = 65536;
        save_load(&m, "file")
    });
    op!(true, "skel with two cycles", || {
        let mut s = skel_v(0);
        s.bones[2].parent_index = Some(3);
        s.bones[3].parent_index = Some(2);
        s.bones[6].parent_index = Some(7);
        s.bones[7].parent_index = Some(6);
        save_load(&s, "file")
    });
    op!(false, "skel with a parent that does not fit", || {
        let mut s = skel_v(0);
        s.bones[2].parent_index = Some(70000);
        save_load(&s, "file")
    });
    op!(false, "meshex entries that do not agree", || {
        let mut c = Cursor::new(vec![]);
        format!("{} {}", shown(super::io::raw_meshex(2, 1).write(&mut c)), c.into_inner().len())
    });
    op!(true, "truncated files", || {
        let mut s = String::new();
        for x in data_samples() {
            for n in [x.bytes.len() / 3, x.bytes.len() * 2 / 3, x.bytes.len() - 1] {
                s += &format!("{:?} ", (x.read)(&x.bytes[..n]));
            }
        }
        s
    });
    op!(false, "sample files", || data_samples().iter().map(|x| format!("{:?} ", (x.read)(&x.bytes))).collect::<String>());
    op!(false, "JSON that does not fit", || {
        let mut s = String::new();
        for t in ["{}", "[1", "{\"major_version\":1}", "\"abc\"", "{\"major_version\":1,\"minor_version\":7,\"model_name\":\"\\ud83d\\ude00\"}"] {
            s += &format!("{:?} ", serde_json::from_str::<ModlData>(t).map_err(|e| e.to_string()));
            s += &format!("{:?} ", serde_json::from_str::<ssbh_lib::SsbhByteBuffer>(t).map_err(|e| e.to_string()));
        }
        s
    });
    // the raw formats
    for (ri, r) in Schema::get().roots.iter().enumerate() {
        for vi in 0..r.versions.len() {
            for n in 1..3usize {
                let core = n == 2 && ["Nufx", "Nlst", "Matl"].contains(&r.name.as_str());
                op!(core, format!("raw {} {} {n}", r.name, r.versions[vi].name), move || {
                    let r = &Schema::get().roots[ri];
                    let val = default_val(r, vi, n, n);
                    let e = encode_file(r, &r.versions[vi], &val, Layout::Queue { lifo: true, gap: 3 }, false);
                    match crate::fmt::read(&e.buf) {
                        Ok(f) => {
                            let j = crate::fmt::json(&f);
                            let w = |r: Result<Vec<u8>, String>| r.map(|b| hexs(&b));
                            let mut s = format!("{f:?} {j} {:?} ", w(crate::fmt::write(&f)));
                            s += &format!("{:?} ", crate::fmt::from_json(&j).and_then(|f| w(crate::fmt::write(&f))));
                            s += &format!("{:?} {:?}", f.write_to_file("file").map_err(|e| e.to_string()), std::fs::read("file").map(|b| hexs(&b)));
                            s + &format!(" {:?}", ssbh_lib::SsbhFile::from_file("file").map(|f| crate::fmt::json(&f)))
                        }
                        Err(e) => e,
                    }
                });
            }
        }
    }
    out
}

/// The operations named on the command line, one line for each outcome.
pub fn child(args: &[String]) -> i32 {
    let (Some(reps), Some(dir)) = (args.first().and_then(|s| s.parse::<usize>().ok()), args.get(1)) else { return 2 };
    if std::env::set_current_dir(dir).is_err() {
        return 2;
    }
    let ops = ops();
    let mut out = String::new();
    crate::silence();
    for _ in 0..reps {
        for a in &args[2..] {
            // an operation that can not save leaves the file of the one before it alone (C24)
            let _ = std::fs::remove_file("file");
            let o = &ops[a.parse::<usize>().unwrap()];
            let s = match catch(|| (o.run)()) {
                Ok(s) => s,
                Err((at, msg)) => format!("panic {at} {msg}"),
            };
            let mut h = Ctx::new(vec![], false);
            h.hash_bytes(s.as_bytes());
            out += &format!("{:x} {} {}\n", h.fp, s.len(), s.chars().take(200).collect::<String>().replace('\n', " "));
        }
    }
    crate::unsilence();
    print!("{out}");
    0
}

/// Runs a history in a new process; `env` selects its surroundings.
fn run(path: &[usize], reps: usize, env: usize) -> Result<Vec<String>, Failure> {
    let s = Scratch::new();
    let exe = std::env::current_exe().map_err(|e| failure("setup:exe", e.to_string()))?;
    let mut c = Command::new(exe);
    c.arg("op").arg(reps.to_string()).arg(&s.0).args(path.iter().map(|x| x.to_string()));
    c.stdin(Stdio::null()).stderr(Stdio::null());
    match env {
        1 => {
            c.env_clear();
        }
        2 => {
            c.env("LANG", "de_DE.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Pacific/Auckland");
        }
        3 => {
            c.env("RUST_BACKTRACE", "full").env("RUST_LOG", "trace").env("HOME", "/nonexistent").env_remove("PATH");
        }
        4 => {
            c.current_dir("/").env("PWD", "/");
        }
        _ => {}
    }
    let o = c.output().map_err(|e| failure("setup:process", e.to_string()))?;
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
    ensure!(o.status.success() && l.len() == reps * path.len(), "process", "the process that runs operations {path:?} ends with {} after {} of {} outcomes", o.status, l.len(), reps * path.len());
    Ok(l)
}

/// The outcome of an operation at the start of a process.
fn alone(i: usize, n: usize) -> Result<String, Failure> {
    static BASE: OnceLock<Vec<Mutex<Option<String>>>> = OnceLock::new();
    let b = BASE.get_or_init(|| (0..n).map(|_| Mutex::new(None)).collect());
    let mut g = b[i].lock().unwrap();
    if g.is_none() {
        *g = Some(run(&[i], 1, 0)?.remove(0));
    }
    Ok(g.clone().unwrap())
}

fn table() -> &'static Vec<Op> {
    static T: OnceLock<Vec<Op>> = OnceLock::new();
    T.get_or_init(ops)
}

fn compare(ctx: &mut Ctx, path: &[usize], reps: usize, env: usize) -> RunResult {
    let ops = table();
    ctx.hash_u64(reps as u64 * 8 + env as u64);
    for i in path {
        ctx.hash_u64(*i as u64);
    }
    ctx.note(|| format!("{:?} x{reps} surroundings {env}", path.iter().map(|i| ops[*i].name.as_str()).collect::<Vec<_>>()));
    let got = run(path, reps, env)?;
    for (k, g) in got.iter().enumerate() {
        ctx.step();
        let i = path[k % path.len()];
        let want = alone(i, ops.len())?;
        if *g != want {
            let kind = if k > 0 { "history" } else { "process" };
            return fail(&format!("{kind}:{}", ops[i].name), format!("as number {} of this history the outcome of {:?} (hash, length, beginning) is {g} instead of {want}", k + 1, ops[i].name));
        }
    }
    Ok(true)
}

fn c38(thorough: bool) -> Vec<Scenario> {
    let n = table().len();
    let core: Vec<usize> = (0..n).filter(|i| table()[*i].core).collect();
    let m = core.len();
    let mut out = vec![];
    let (reps, again) = if thorough { (64, 8) } else { (12, 2) };
    out.push(scenario("repeated", 0, move |ctx| {
        let i = ctx.free(n);
        let a = ctx.free(again);
        ctx.hash_u64(a as u64);
        compare(ctx, &[i], reps, 0)
    }));
    out.push(scenario("surroundings", 0, move |ctx| {
        let i = ctx.free(n);
        let e = 1 + ctx.free(4);
        compare(ctx, &[i], 1, e)
    }));
    out.push(scenario("pairs", 0, move |ctx| {
        let (a, b) = (ctx.free(n), ctx.free(n));
        compare(ctx, &[a, b], 1, 0)
    }));
    let c = core.clone();
    out.push(scenario("triples", 0, move |ctx| {
        let p: Vec<usize> = (0..3).map(|i| if thorough && i < 2 { ctx.free(n) } else { c[ctx.free(m)] }).collect();
        compare(ctx, &p, 1, 0)
    }));
    if thorough {
        out.push(scenario("quadruples", 0, move |ctx| {
            let p: Vec<usize> = (0..4).map(|_| core[2 * ctx.free(m / 2)]).collect();
            compare(ctx, &p, 1, 0)
        }));
    }
    out.extend(super::schedules::scenarios(thorough));
    out
}
