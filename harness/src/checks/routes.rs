//! C32: every route between file, raw value and data agrees.  C33: load and save cycles are stable.
use super::data_json::{ty, Proj, G, TYPES};
use super::io::Scratch;
use super::mesh;
use crate::explore::*;
use crate::fmt;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, samples, Check};
use serde_json::{json, Value};
use ssbh_data::prelude::*;
use ssbh_data::shdr_data::ShdrData;
use ssbh_lib::prelude::*;
use std::io::Cursor;
use std::path::Path;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C32",
            level: "exploration",
            rule: "one case = one data value or one raw file taken through every route (owned and borrowed conversions, read, write, from_file, write_to_file, SsbhFile and typed access); distinct by value",
            assumptions: &["finite floats and UTF-8 strings"],
            scenarios: c32,
            hang_s: 60,
        },
        Check {
            id: "C33",
            level: "exploration",
            rule: "one case = one data value saved and loaded four times in a row; distinct by the first file",
            assumptions: &["finite floats and UTF-8 strings"],
            scenarios: c33,
            hang_s: 60,
        },
    ]
}

/// The conversions between a data type and its raw type, in all their forms.
trait Routes: Proj + Clone + Pieces<Self::Raw> {
    type Raw;
    fn to_ref(&self) -> Result<Self::Raw, String>;
    fn to_own(self) -> Result<Self::Raw, String>;
    fn of_ref(r: &Self::Raw) -> Result<Self, String>;
    fn of_own(r: Self::Raw) -> Result<Self, String>;
    fn raw_read(b: &[u8]) -> Result<Self::Raw, String>;
    fn raw_write(r: &Self::Raw) -> Result<Vec<u8>, String>;
    fn raw_load(p: &Path) -> Result<Self::Raw, String>;
    fn raw_save(r: &Self::Raw, p: &Path) -> Result<(), String>;
    fn raw_json(r: &Self::Raw) -> Value;
    fn tagged(_: SsbhFile) -> Option<Self::Raw> {
        None
    }
    /// Reading and writing by the methods of the type itself instead of those of the trait.
    fn own_read(b: &[u8]) -> Result<Self, String>;
    fn own_write(&self) -> Result<Vec<u8>, String>;
    fn own_load(p: &Path) -> Result<Self, String>;
    fn own_save(&self, p: &Path) -> Result<(), String>;
    const TAGGED: bool = false;
    const LOSSY: bool = false;
}

macro_rules! routes {
    ($d:ident, $r:ident $(, $tag:ident $(, $lossy:ident)?)?) => {
        impl Routes for $d {
            type Raw = $r;
            fn to_ref(&self) -> Result<$r, String> {
                $r::try_from(self).map_err(|e| e.to_string())
            }
            fn to_own(self) -> Result<$r, String> {
                $r::try_from(self).map_err(|e| e.to_string())
            }
            fn of_ref(r: &$r) -> Result<Self, String> {
                $d::try_from(r).map_err(|e| e.to_string())
            }
            fn of_own(r: $r) -> Result<Self, String> {
                $d::try_from(r).map_err(|e| e.to_string())
            }
            fn raw_read(b: &[u8]) -> Result<$r, String> {
                $r::read(&mut Cursor::new(b)).map_err(|e| e.to_string())
            }
            fn raw_write(r: &$r) -> Result<Vec<u8>, String> {
                let mut c = Cursor::new(vec![]);
                r.write(&mut c).map_err(|e| e.to_string())?;
                Ok(c.into_inner())
            }
            fn raw_load(p: &Path) -> Result<$r, String> {
                $r::from_file(p).map_err(|e| e.to_string())
            }
            fn raw_save(r: &$r, p: &Path) -> Result<(), String> {
                r.write_to_file(p).map_err(|e| e.to_string())
            }
            fn raw_json(r: &$r) -> Value {
                serde_json::to_value(r).expect("serializing never fails")
            }
            fn own_read(b: &[u8]) -> Result<Self, String> {
                $d::read(&mut Cursor::new(b)).map_err(|e| e.to_string())
            }
            fn own_write(&self) -> Result<Vec<u8>, String> {
                let mut c = Cursor::new(vec![]);
                $d::write(self, &mut c).map_err(|e| e.to_string())?;
                Ok(c.into_inner())
            }
            fn own_load(p: &Path) -> Result<Self, String> {
                $d::from_file(p).map_err(|e| e.to_string())
            }
            fn own_save(&self, p: &Path) -> Result<(), String> {
                $d::write_to_file(self, p).map_err(|e| e.to_string())
            }
            $($(const $lossy: bool = true;)?
            const TAGGED: bool = true;
            fn tagged(f: SsbhFile) -> Option<$r> {
                match f.data {
                    Ssbh::$tag(v) => Some(v.data),
                    _ => None,
                }
            })?
        }
    };
}
routes!(AnimData, Anim, Anim, LOSSY);
routes!(MeshData, Mesh, Mesh);
routes!(SkelData, Skel, Skel);
routes!(MatlData, Matl, Matl);
routes!(ModlData, Modl, Modl);
routes!(HlpbData, Hlpb, Hlpb);
routes!(MeshExData, MeshEx);
routes!(AdjData, Adj);

/// The conversions of the entries of a file, which are public as well.
trait Pieces<R> {
    /// This value was converted to the given raw value.
    fn pieces_to(&self, _: &R) -> Result<u64, Failure> {
        Ok(0)
    }
    /// This value was converted from the given raw value.
    fn pieces_of(&self, _: &R) -> Result<u64, Failure> {
        Ok(0)
    }
}
impl Pieces<Anim> for AnimData {}
impl Pieces<Mesh> for MeshData {}
impl Pieces<Skel> for SkelData {}
impl Pieces<MeshEx> for MeshExData {}
impl Pieces<Adj> for AdjData {}

/// Converting an entry on its own, borrowed or owned, is what happens to it as a part of the file.
fn piece<A, B>(key: &str, from: &A, part: &B) -> Result<u64, Failure>
where
    A: serde::Serialize + Clone,
    B: serde::Serialize + From<A> + for<'a> From<&'a A>,
{
    let show = |b: &B| serde_json::to_value(b).expect("serializing never fails");
    let whole = show(part);
    for (how, one) in [("borrowed", B::from(from)), ("owned", B::from(from.clone()))] {
        if let Some(d) = json_diff(&whole, &show(&one)) {
            return fail(&format!("piece:{key}:{how}:{}", path_key(&d)), format!("{key} converted with the file vs {how} on its own: {d}"));
        }
    }
    Ok(2)
}
fn pieces<A, B>(key: &str, from: &[A], parts: &[B]) -> Result<u64, Failure>
where
    A: serde::Serialize + Clone,
    B: serde::Serialize + From<A> + for<'a> From<&'a A>,
{
    ensure!(from.len() == parts.len(), &format!("piece:{key}:count"), "{} of {} entries converted", parts.len(), from.len());
    let mut n = 0;
    for (a, b) in from.iter().zip(parts) {
        n += piece(key, a, b)?;
    }
    Ok(n)
}
impl Pieces<Modl> for ModlData {
    fn pieces_to(&self, r: &Modl) -> Result<u64, Failure> {
        let Modl::V17 { entries, .. } = r;
        pieces("ModlEntry", &self.entries, &entries.elements)
    }
    fn pieces_of(&self, r: &Modl) -> Result<u64, Failure> {
        let Modl::V17 { entries, .. } = r;
        pieces("ModlEntryData", &entries.elements, &self.entries)
    }
}
impl Pieces<Hlpb> for HlpbData {
    fn pieces_to(&self, r: &Hlpb) -> Result<u64, Failure> {
        let Hlpb::V11 { aim_constraints, orient_constraints, .. } = r;
        Ok(pieces("AimConstraint", &self.aim_constraints, &aim_constraints.elements)? + pieces("OrientConstraint", &self.orient_constraints, &orient_constraints.elements)?)
    }
    fn pieces_of(&self, r: &Hlpb) -> Result<u64, Failure> {
        let Hlpb::V11 { aim_constraints, orient_constraints, .. } = r;
        Ok(pieces("AimConstraintData", &aim_constraints.elements, &self.aim_constraints)? + pieces("OrientConstraintData", &orient_constraints.elements, &self.orient_constraints)?)
    }
}
/// The parameters of one kind in the order of the file.
macro_rules! params {
    ($e:expr, $v:path) => {
        $e.attributes.elements.iter().filter_map(|a| match &*a.param.data { Some($v(p)) => Some(p.clone()), _ => None }).collect::<Vec<_>>()
    };
}
macro_rules! data_params {
    ($d:expr, $k:ident) => {
        $d.$k.iter().map(|p| p.data.clone()).collect::<Vec<_>>()
    };
}
macro_rules! show {
    ($x:expr) => {
        serde_json::to_value(&$x).expect("serializing never fails")
    };
}
impl Pieces<Matl> for MatlData {
    fn pieces_to(&self, r: &Matl) -> Result<u64, Failure> {
        use ssbh_lib::formats::matl::*;
        let mut n = 0;
        if let Matl::V16 { entries } = r {
            for (d, e) in self.entries.iter().zip(&entries.elements) {
                n += pieces("Sampler", &data_params!(d, samplers), &params!(e, ParamV16::Sampler))?;
                n += pieces("BlendStateV16", &data_params!(d, blend_states), &params!(e, ParamV16::BlendState))?;
                n += pieces("RasterizerStateV16", &data_params!(d, rasterizer_states), &params!(e, ParamV16::RasterizerState))?;
                if let Some(x) = json_diff(&show!(*e), &show!(MatlEntryV16::from(d))) {
                    return fail("piece:MatlEntryV16", format!("entry converted with the file vs on its own: {x}"));
                }
            }
        }
        // the older form of an entry has a conversion of its own
        for d in &self.entries {
            let e = MatlEntryV15::from(d);
            n += pieces("Sampler-V15", &data_params!(d, samplers), &params!(e, ParamV15::Sampler))?;
            n += pieces("BlendStateV15", &data_params!(d, blend_states), &params!(e, ParamV15::BlendState))?;
            n += pieces("RasterizerStateV15", &data_params!(d, rasterizer_states), &params!(e, ParamV15::RasterizerState))?;
        }
        Ok(n)
    }
    fn pieces_of(&self, r: &Matl) -> Result<u64, Failure> {
        use ssbh_data::matl_data::MatlEntryData;
        use ssbh_lib::formats::matl::*;
        let mut n = 0;
        match r {
            Matl::V16 { entries } => {
                for (d, e) in self.entries.iter().zip(&entries.elements) {
                    n += pieces("SamplerData", &params!(e, ParamV16::Sampler), &data_params!(d, samplers))?;
                    n += pieces("BlendStateData", &params!(e, ParamV16::BlendState), &data_params!(d, blend_states))?;
                    n += pieces("RasterizerStateData", &params!(e, ParamV16::RasterizerState), &data_params!(d, rasterizer_states))?;
                    if let Some(x) = json_diff(&show!(*d), &show!(MatlEntryData::from(e))) {
                        return fail("piece:MatlEntryData", format!("entry converted with the file vs on its own: {x}"));
                    }
                }
            }
            Matl::V15 { entries } => {
                for (d, e) in self.entries.iter().zip(&entries.elements) {
                    n += pieces("SamplerData-15", &params!(e, ParamV15::Sampler), &data_params!(d, samplers))?;
                    n += pieces("BlendStateData-15", &params!(e, ParamV15::BlendState), &data_params!(d, blend_states))?;
                    n += pieces("RasterizerStateData-15", &params!(e, ParamV15::RasterizerState), &data_params!(d, rasterizer_states))?;
                    if let Some(x) = json_diff(&show!(*d), &show!(MatlEntryData::from(e))) {
                        return fail("piece:MatlEntryData-15", format!("entry converted with the file vs on its own: {x}"));
                    }
                }
            }
        }
        Ok(n)
    }
}

macro_rules! dispatch {
    ($name:expr, $f:ident, $($a:expr),*) => {
        match $name {
            "anim" => $f::<AnimData>($($a),*),
            "mesh" => $f::<MeshData>($($a),*),
            "skel" => $f::<SkelData>($($a),*),
            "matl" => $f::<MatlData>($($a),*),
            "modl" => $f::<ModlData>($($a),*),
            "hlpb" => $f::<HlpbData>($($a),*),
            "meshex" => $f::<MeshExData>($($a),*),
            "adj" => $f::<AdjData>($($a),*),
            x => panic!("{x}"),
        }
    };
}

fn write<T: SsbhData>(d: &T) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    SsbhData::write(d, &mut c).map_err(|e| e.to_string())?;
    Ok(c.into_inner())
}
fn read<T: SsbhData>(b: &[u8]) -> Result<T, String> {
    <T as SsbhData>::read(&mut Cursor::new(b)).map_err(|e| e.to_string())
}
/// The scratch directory of this thread.
fn scratch() -> std::path::PathBuf {
    thread_local!(static DIR: Scratch = Scratch::new());
    DIR.with(|d| d.0.clone())
}
/// A file that may have been there before: longer and shorter than what is saved.
fn saved(dir: &Path, n: usize, f: impl FnOnce(&Path) -> Result<(), String>) -> Result<Vec<u8>, String> {
    let p = dir.join(format!("file{n}"));
    let _ = std::fs::remove_file(&p);
    if n % 2 == 1 {
        std::fs::write(&p, vec![0x5a; if n % 4 == 1 { 20_000 } else { 3 }]).unwrap();
    }
    f(&p)?;
    std::fs::read(&p).map_err(|e| e.to_string())
}
fn agree(key: &str, want: &Result<Vec<u8>, String>, got: Result<Vec<u8>, String>, what: &str) -> Result<(), Failure> {
    match (want, &got) {
        (Ok(a), Ok(b)) => match bytes_diff(a, b) {
            None => Ok(()),
            Some(d) => fail(&format!("{key}:bytes"), format!("{what} gives another file: {d}")),
        },
        (Err(_), Err(_)) => Ok(()),
        (a, b) => fail(&format!("{key}:result"), format!("{what} gives {:?} instead of {:?}", b.as_ref().map(|x| x.len()), a.as_ref().map(|x| x.len()))),
    }
}
fn alike(key: &str, want: &Result<Value, String>, got: Result<Value, String>, what: &str) -> Result<(), Failure> {
    match (want, &got) {
        (Ok(a), Ok(b)) => match json_diff(a, b) {
            None => Ok(()),
            Some(d) => fail(&format!("{key}:{}", path_key(&d)), format!("{what} gives another value: {d}")),
        },
        (Err(_), Err(_)) => Ok(()),
        (a, b) => fail(&format!("{key}:result"), format!("{what} gives {:?} instead of {:?}", b.as_ref().map(|_| "a value"), a.as_ref().map(|_| "a value"))),
    }
}

/// Everything that can be done with one file.
fn from_bytes<T: Routes>(ctx: &mut Ctx, dir: &Path, b: &[u8]) -> Result<Option<T>, Failure> {
    let p = dir.join("in");
    std::fs::write(&p, b).unwrap();
    let want_raw = T::raw_read(b).map(|r| T::raw_json(&r));
    alike("raw:load", &want_raw, T::raw_load(&p).map(|r| T::raw_json(&r)), "opening the file as the raw type")?;
    if T::TAGGED {
        let pick = |f: SsbhFile| T::tagged(f).ok_or_else(|| "other type".to_string());
        alike("raw:any", &want_raw, SsbhFile::read(&mut Cursor::new(b)).map_err(|e| e.to_string()).and_then(pick).map(|r| T::raw_json(&r)), "reading it as any type")?;
        alike("raw:any-file", &want_raw, SsbhFile::from_file(&p).map_err(|e| e.to_string()).and_then(pick).map(|r| T::raw_json(&r)), "opening it as any type")?;
    }
    let data = read::<T>(b);
    let want = data.as_ref().map(|d| d.proj()).map_err(|e| e.clone());
    alike("read:own", &want, T::own_read(b).map(|d| d.proj()), "reading by the method of the type")?;
    alike("read:load", &want, <T as SsbhData>::from_file(&p).map_err(|e| e.to_string()).map(|d| d.proj()), "opening the file")?;
    alike("read:own-load", &want, T::own_load(&p).map(|d| d.proj()), "opening the file by the method of the type")?;
    // the raw value may be used again after a borrowed conversion
    let r = T::raw_read(b);
    let kept = r.as_ref().map(T::raw_json).ok();
    alike("convert:ref", &want, r.as_ref().map_err(|e| e.clone()).and_then(|r| T::of_ref(r)).map(|d| d.proj()), "converting the borrowed raw value")?;
    ensure!(kept == r.as_ref().map(T::raw_json).ok(), "convert:changed", "a borrowed conversion changed the raw value");
    if let (Ok(r), Ok(d)) = (&r, &data) {
        ctx.steps += d.pieces_of(r)?;
    }
    alike("convert:own", &want, r.and_then(T::of_own).map(|d| d.proj()), "converting the owned raw value")?;
    ctx.steps += 8;
    Ok(data.ok())
}

/// Everything that can be done with one data value.
fn from_data<T: Routes>(ctx: &mut Ctx, d: &T) -> RunResult {
    let shown = d.proj();
    ctx.hash_bytes(shown.to_string().as_bytes());
    ctx.note(|| shown.to_string().chars().take(1000).collect());
    let dir = scratch();
    let dir = dir.as_path();
    let want = write(d);
    agree("write:own", &want, d.own_write(), "writing by the method of the type")?;
    agree("write:save", &want, saved(dir, 1, |p| SsbhData::write_to_file(d, p).map_err(|e| e.to_string())), "saving")?;
    agree("write:own-save", &want, saved(dir, 2, |p| d.own_save(p)), "saving by the method of the type")?;
    let r = d.to_ref();
    if let Ok(r) = &r {
        ctx.steps += d.pieces_to(r)?;
    }
    agree("convert:ref", &want, r.as_ref().map_err(|e| e.clone()).and_then(|r| T::raw_write(r)), "writing the borrowed conversion")?;
    agree("convert:own", &want, d.clone().to_own().and_then(|r| T::raw_write(&r)), "writing the owned conversion")?;
    agree("raw:save", &want, r.as_ref().map_err(|e| e.clone()).and_then(|r| saved(dir, 3, |p| T::raw_save(r, p))), "saving the borrowed conversion")?;
    ctx.steps += 6;
    ensure!(shown == d.proj(), "changed", "writing changed the value");
    let Ok(b) = want else { return Ok(false) };
    let back = from_bytes::<T>(ctx, dir, &b)?;
    let Some(back) = back else { return fail("reread", "the written file can not be read") };
    // the conversions without a file in between
    let r = r.unwrap();
    let want = Ok(back.proj());
    alike("memory:ref", &want, T::of_ref(&r).map(|d| d.proj()), "converting the raw value that was written")?;
    if let Some(x) = json_diff(&T::raw_json(&r), &T::raw_json(&T::raw_read(&b).or_fail("reread")?)) {
        return fail(&format!("memory:raw:{}", path_key(&x)), format!("raw value written vs raw value read: {x}"));
    }
    alike("memory:own", &want, T::of_own(r).map(|d| d.proj()), "converting the owned raw value that was written")?;
    ctx.steps += 3;
    Ok(true)
}

/// Saving what was loaded, again and again.
fn cycles<T: Routes>(ctx: &mut Ctx, d: &T) -> RunResult {
    ctx.note(|| d.proj().to_string().chars().take(1000).collect());
    let Ok(first) = write(d) else { return Ok(false) };
    ctx.hash_bytes(&first);
    let one: T = read(&first).or_fail("read")?;
    let (mut last, mut file) = (one, first);
    for n in 2..6 {
        let b = write(&last).map_err(|e| failure("rewrite", format!("save {n} of a loaded file fails: {e}")))?;
        // saving a value twice gives the same file
        ensure!(write(&last) == Ok(b.clone()), "repeat", "two saves of one value differ");
        ctx.steps += 2;
        if b == file {
            // all further saves and loads repeat this one
            return Ok(true);
        }
        // the first file may hold more digits of default values that are derived when loading
        if !(n == 2 && T::LOSSY) {
            return fail("bytes", format!("save {n} differs from the one before: {}", bytes_diff(&file, &b).unwrap_or_default()));
        }
        let next: T = read(&b).map_err(|e| failure("reread", format!("load {n} fails: {e}")))?;
        if let Some(x) = json_diff(&last.proj(), &next.proj()) {
            return fail(&format!("value:{}", path_key(&x)), format!("the value loaded first vs after {n} saves: {x}"));
        }
        ctx.steps += 1;
        last = next;
        file = b;
    }
    fail("bytes", "the file changes with every save")
}

type Fix = fn(&mut Ctx, &mut Value);

fn list<'a>(v: &'a mut Value, k: &str) -> &'a mut Vec<Value> {
    v[k].as_array_mut().expect("array")
}

/// Makes a generated value writable where the default of its fields is not.
fn repair(name: &str, minors: &[u16]) -> Fix {
    let _ = minors;
    match name {
        "anim" => |ctx, v| {
            v["major_version"] = json!(2);
            v["minor_version"] = json!(ctx.free(2));
            let mut n = 1;
            for g in list(v, "groups") {
                for m in list(g, "nodes") {
                    for t in list(m, "tracks") {
                        n = n.max(t["values"].as_object().unwrap().values().next().unwrap().as_array().unwrap().len());
                    }
                }
            }
            v["final_frame_index"] = json!(n as f32 - [1.0f32, 0.0, 0.5][ctx.choose(3)]);
        },
        "skel" => |ctx, v| {
            v["major_version"] = json!(1);
            v["minor_version"] = json!(0);
            for (i, b) in list(v, "bones").iter_mut().enumerate() {
                let p = ctx.choose(i + 1);
                b["parent_index"] = if p == 0 { Value::Null } else { json!(p - 1) };
            }
        },
        "matl" => |_, v| {
            v["major_version"] = json!(1);
            v["minor_version"] = json!(6);
        },
        "modl" => |_, v| {
            v["major_version"] = json!(1);
            v["minor_version"] = json!(7);
        },
        "hlpb" => |_, v| {
            v["major_version"] = json!(1);
            v["minor_version"] = json!(1);
        },
        _ => |_, _| {},
    }
}

fn data_families(thorough: bool, body: fn(&mut Ctx, &str, Value) -> RunResult, meshes: fn(&mut Ctx, &MeshData) -> RunResult) -> Vec<Scenario> {
    let mut out = vec![];
    for name in TYPES {
        if name == "mesh" {
            continue;
        }
        for len in [1usize, 2, 3] {
            let k = if thorough && len == 1 { 2 } else { 1 };
            let rots: &[usize] = match (name, len, thorough) {
                ("anim", 1, _) | ("anim", 2, true) => &[0, 1, 2, 3, 4, 5],
                ("anim", 2, _) | ("anim", 3, true) => &[0, 3],
                ("anim", ..) => &[],
                _ => &[0],
            };
            for rot in rots {
                let rot = *rot;
                if len == 3 && !thorough && name == "matl" {
                    continue;
                }
                out.push(scenario(format!("{name}-{len}-{rot}"), if name == "anim" && len > 1 { 1 } else { k }, move |ctx: &mut Ctx| {
                    let mut j = G { n: 0, len, rot, huge: false, same: None }.gen(ctx, &ty(name));
                    repair(name, &[])(ctx, &mut j);
                    body(ctx, name, j)
                }));
            }
        }
        // all fields equal
        out.push(scenario(format!("{name}-same"), 1, move |ctx: &mut Ctx| {
            let same = Some(ctx.free(3));
            let rot = ctx.free(if name == "anim" { 6 } else { 1 });
            let len = 1 + ctx.free(if name == "anim" && !thorough { 1 } else { 2 });
            let mut j = G { n: 0, len, rot, huge: false, same }.gen(ctx, &ty(name));
            repair(name, &[])(ctx, &mut j);
            body(ctx, name, j)
        }));
        // one list of many elements
        out.push(scenario(format!("{name}-long"), 0, move |ctx: &mut Ctx| {
            let rot = ctx.free(if name == "anim" { 6 } else { 1 });
            let mut j = G { n: 0, len: if name == "adj" { 3 } else { 2 }, rot, huge: false, same: None }.gen(ctx, &ty(name));
            let mut paths = vec![];
            lists(&j, String::new(), &mut paths);
            let path = &paths[ctx.free(paths.len())];
            let l = j.pointer_mut(path).unwrap().as_array_mut().unwrap();
            let plain = !l[0].is_object() && !l[0].is_array();
            let n = [255usize, 256, 257, 300, 1025, 65_536, 65_537, 32_766, 65_534][ctx.free(if plain { 9 } else if thorough { 5 } else { 4 })];
            let two = l.clone();
            *l = (0..n).map(|i| distinct(&two[i * 7 / 3 % 2], i)).collect();
            repair(name, &[])(ctx, &mut j);
            ctx.hash_u64(n as u64);
            body(ctx, name, j).map_err(|mut f| {
                f.msg = format!("{n} elements of {path}: {}", f.msg.chars().take(600).collect::<String>());
                f
            })
        }));
        // as it is generated, mostly with versions or indices that can not be written
        out.push(scenario(format!("{name}-any"), 1, move |ctx: &mut Ctx| {
            let j = G { n: 0, len: 1, rot: 0, huge: false, same: None }.gen(ctx, &ty(name));
            body(ctx, name, j)
        }));
    }
    out.push(scenario("mesh", if thorough { 2 } else { 1 }, move |ctx: &mut Ctx| {
        let d = mesh::gen_mesh(ctx);
        meshes(ctx, &d)
    }));
    out.push(scenario("mesh-any", 1, move |ctx: &mut Ctx| {
        let rot = ctx.free(6);
        let j = G { n: 0, len: 1, rot, huge: false, same: None }.gen(ctx, &ty("mesh"));
        body(ctx, "mesh", j)
    }));
    // animations with many frames, whose tracks are compressed
    out.push(scenario("anim-frames", 1, move |ctx: &mut Ctx| {
        let n = [12usize, 2, 9, 10, 30, 100][ctx.free(6)];
        let minor = ctx.free(2) as u16;
        let mut t = samples::tracks(n);
        let only = ctx.free(t.len() + 1);
        if only > 0 {
            t = vec![t.swap_remove(only - 1)];
        }
        for x in &mut t {
            x.compensate_scale = ctx.choose(2) == 1;
            x.transform_flags.override_scale = ctx.choose(2) == 1;
            let at = ctx.choose(n.min(12));
            let by = ctx.choose(4);
            vary(&mut x.values, at, by);
        }
        let d = samples::anim(minor, t);
        body(ctx, "anim", serde_json::to_value(&d).unwrap())
    }));
    out
}

/// Files of every data type in which one list is long.
pub(super) fn long_files(n: usize) -> Vec<(&'static str, String, Vec<u8>)> {
    fn bytes<T: Routes>(j: Value) -> Option<Vec<u8>> {
        write(&serde_json::from_value::<T>(j).ok()?).ok()
    }
    let mut out = vec![];
    for name in TYPES.into_iter().filter(|n| *n != "mesh") {
        for rot in 0..if name == "anim" { 6 } else { 1 } {
            let ctx = &mut Ctx::new(vec![], false);
            let value = G { n: 0, len: 2, rot, huge: false, same: None }.gen(ctx, &ty(name));
            let mut paths = vec![];
            lists(&value, String::new(), &mut paths);
            for path in paths {
                let mut j = value.clone();
                let l = j.pointer_mut(&path).unwrap().as_array_mut().unwrap();
                let two = l.clone();
                *l = (0..n).map(|i| distinct(&two[i * 7 / 3 % 2], i)).collect();
                repair(name, &[])(ctx, &mut j);
                if let Some(b) = dispatch!(name, bytes, j) {
                    out.push((name, format!("{name} with {n} elements of {path}"), b));
                }
            }
        }
    }
    out
}

/// All lists of a value.
fn lists(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Array(l) => {
            if !l.is_empty() && !l[0].is_number() || l.len() == 2 || at.ends_with("vertex_adjacency") {
                out.push(at.clone());
            }
            for (i, x) in l.iter().enumerate().take(2) {
                lists(x, format!("{at}/{i}"), out);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                // a matrix has a fixed number of rows
                if k != "transform" {
                    lists(x, format!("{at}/{k}"), out);
                }
            }
        }
        _ => {}
    }
}

/// The element with the given number: texts and small numbers differ.
fn distinct(v: &Value, i: usize) -> Value {
    match v {
        Value::String(s) if s.chars().all(|c| c.is_lowercase() || !c.is_alphabetic()) => json!(format!("{s}{i}")),
        Value::Number(n) if n.is_i64() || n.is_u64() => json!((n.as_i64().unwrap_or(0).abs() + i as i64) % 120),
        Value::Number(n) => json!(n.as_f64().unwrap() as f32 + i as f32 * 0.25),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), if k.contains("name") || k.contains("label") || k.contains("subindex") { distinct(x, i) } else { x.clone() })).collect()),
        x => x.clone(),
    }
}

fn vary(v: &mut ssbh_data::anim_data::TrackValues, at: usize, by: usize) {
    use ssbh_data::anim_data::TrackValues::*;
    let f = [1.0f32, -1.0, 0.1, 1e10][by];
    if by == 0 {
        return;
    }
    match v {
        Transform(l) => {
            l[at].translation.x += f;
            l[at].scale.y *= f;
        }
        UvTransform(l) => l[at].rotation += f,
        Float(l) => l[at] += f,
        PatternIndex(l) => l[at] += by as u32 * 1000,
        Boolean(l) => l[at] = !l[at],
        Vector4(l) => l[at].w *= f,
    }
}

fn case<T: Routes>(ctx: &mut Ctx, j: Value) -> RunResult {
    let d: T = serde_json::from_value(j.clone()).map_err(|e| failure("json:parse", format!("{e}: {j}")))?;
    from_data(ctx, &d)
}
fn cycle_case<T: Routes>(ctx: &mut Ctx, j: Value) -> RunResult {
    let d: T = serde_json::from_value(j.clone()).map_err(|e| failure("json:parse", format!("{e}: {j}")))?;
    cycles(ctx, &d)
}
fn file_case<T: Routes>(ctx: &mut Ctx, b: &[u8]) -> RunResult {
    Ok(from_bytes::<T>(ctx, &scratch(), b)?.is_some())
}
/// A file from elsewhere: what is loaded and saved stays.
fn file_cycles<T: Routes>(ctx: &mut Ctx, b: &[u8]) -> RunResult {
    match read::<T>(b) {
        Ok(d) => cycles(ctx, &d),
        Err(_) => Ok(false),
    }
}

fn shdr_case(ctx: &mut Ctx, b: &[u8]) -> RunResult {
    let p = scratch().join("in");
    std::fs::write(&p, b).unwrap();
    let show = |r: Result<ShdrData, String>| r.map(|d| serde_json::to_value(&d).unwrap());
    let want = show(ShdrData::read(&mut Cursor::new(b)).map_err(|e| e.to_string()));
    alike("shdr:load", &want, show(ShdrData::from_file(&p).map_err(|e| e.to_string())), "opening the file")?;
    let r = Shdr::read(&mut Cursor::new(b)).or_fail("read")?;
    alike("shdr:ref", &want, show(ShdrData::try_from(&r).map_err(|e| e.to_string())), "converting the borrowed raw value")?;
    alike("shdr:own", &want, show(ShdrData::try_from(r).map_err(|e| e.to_string())), "converting the owned raw value")?;
    ctx.steps += 4;
    Ok(want.is_ok())
}

const FILES: [(&str, &str); 6] = [("Anim", "anim"), ("Mesh", "mesh"), ("Skel", "skel"), ("Matl", "matl"), ("Modl", "modl"), ("Hlpb", "hlpb")];

/// The raw value through the generic file type and its own type, with streams and paths.
fn raw_case(ctx: &mut Ctx, root: &'static str, b: &[u8]) -> RunResult {
    let dir = scratch();
    let t = fmt::typed().into_iter().find(|t| t.name == root).unwrap();
    let one = (t.read)(b);
    let any = fmt::read(b);
    ensure!(one.is_ok() == any.is_ok(), "only-raw:read", "read as its own type: {:?}, as any type: {:?}", one.as_ref().map(|_| ()), any.as_ref().map(|_| ()));
    let (Ok((value, bytes)), Ok(any)) = (one, any) else { return Ok(false) };
    let want = Ok(bytes);
    let j = fmt::json(&any);
    if let Some(d) = json_diff(&serde_json::json!({ root: &value }), &j) {
        return fail("only-raw:value", format!("read as its own type vs as any type: {d}"));
    }
    let p = dir.join("in");
    std::fs::write(&p, b).unwrap();
    alike("only-raw:load", &Ok(value.clone()), (t.from_file)(&p), "opening the file")?;
    alike("only-raw:any-load", &Ok(j.clone()), SsbhFile::from_file(&p).map(|f| fmt::json(&f)).map_err(|e| e.to_string()), "opening the file as any type")?;
    agree("only-raw:any-write", &want, fmt::write(&any), "writing it as any type")?;
    agree("only-raw:any-save", &want, saved(&dir, 1, |p| any.write_to_file(p).map_err(|e| e.to_string())), "saving it as any type")?;
    let from_text = (t.write_json)(&value);
    agree("only-raw:save", &from_text, saved(&dir, 2, |p| (t.write_file)(&value, p)), "saving it")?;
    ctx.steps += 8;
    Ok(true)
}

/// Files with any raw value of every version.
fn file_families(thorough: bool, body: fn(&mut Ctx, &str, &[u8]) -> RunResult, raw: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let mut roots: Vec<(&'static str, &'static str)> = FILES.to_vec();
    if raw {
        roots.extend([("Shdr", "shdr"), ("Nlst", ""), ("Nrpd", ""), ("Nufx", "")]);
    }
    for (root, name) in roots {
        let r = samples::root(root);
        for (vi, v) in r.versions.iter().enumerate() {
            // 0: all values equal
            let lens: &[usize] = if thorough { &[0, 1, 2, 3] } else { &[0, 1, 2] };
            for len in lens {
                let len = *len;
                let rots = if root == "Matl" { 9 } else { 1 };
                out.push(scenario(format!("file-{root}-{}-{len}", v.name), 1, move |ctx: &mut Ctx| {
                    let rot = if rots > 1 { ctx.free(rots) } else { 0 };
                    let g = if len == 0 { Gen::same(ctx, 2) } else { Gen::standard(len) };
                    let val = Gen { rot, ..g }.val(ctx, &r.versions[vi].body);
                    let e = encode_file(r, &r.versions[vi], &val, Layout::Canonical, false);
                    ctx.hash_bytes(&e.buf);
                    ctx.note(|| file_json(r, &r.versions[vi], &val).to_string().chars().take(1000).collect());
                    if raw {
                        raw_case(ctx, root, &e.buf)?;
                    }
                    if name.is_empty() {
                        return Ok(true);
                    }
                    body(ctx, name, &e.buf)
                }));
            }
        }
    }
    out
}

fn c32(thorough: bool) -> Vec<Scenario> {
    let mut out = data_families(thorough, |ctx, name, j| dispatch!(name, case, ctx, j), from_data::<MeshData>);
    out.extend(file_families(
        thorough,
        |ctx, name, b| match name {
            "shdr" => shdr_case(ctx, b),
            _ => dispatch!(name, file_case, ctx, b),
        },
        true,
    ));
    out.push(scenario("shdr-binaries", 0, |ctx: &mut Ctx| {
        let names = [["", "", "", ""], ["a", "b", "c", "d"], ["é漢", "", "x.y", "z"], ["uniform", "b", "b", "longer name"]];
        let b = samples::shader_binary(&names[ctx.free(4)], ctx.free(3) * 100);
        let f = samples::shdr_file(["", "shader", "é"][ctx.free(3)], &b);
        ctx.hash_bytes(&f);
        shdr_case(ctx, &f)
    }));
    // files that end early
    out.push(scenario("cut", 0, |ctx: &mut Ctx| {
        let f = files();
        let (name, b) = &f[ctx.free(f.len())];
        let cut = ctx.free(65) * b.len() / 64;
        ctx.hash_bytes(&b[..cut]);
        ctx.note(|| format!("{name} file of {} bytes cut to {cut}", b.len()));
        dispatch!(*name, file_case, ctx, &b[..cut])
    }));
    out
}

fn files() -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    for m in 0..2 {
        v.push(("anim", samples::bytes_of(&samples::anim(m, samples::tracks(12)))));
    }
    v.push(("anim", samples::anim12(&samples::anim12_bufs())));
    for m in 8..11 {
        v.push(("mesh", samples::bytes_of(&samples::mesh(m))));
    }
    v.push(("skel", samples::bytes_of(&samples::skel())));
    v.push(("matl", samples::bytes_of(&samples::matl())));
    v.push(("modl", samples::bytes_of(&samples::modl())));
    v.push(("hlpb", samples::bytes_of(&samples::hlpb())));
    v.push(("meshex", samples::bytes_of(&samples::meshex())));
    v.push(("adj", samples::bytes_of(&samples::adj())));
    v
}

fn c33(thorough: bool) -> Vec<Scenario> {
    let mut out = data_families(thorough, |ctx, name, j| dispatch!(name, cycle_case, ctx, j), cycles::<MeshData>);
    out.extend(file_families(thorough, |ctx, name, b| dispatch!(name, file_cycles, ctx, b), false));
    // all animations of C12, and all encodings of C29
    for mut s in super::anim::common(thorough, cycles::<AnimData>) {
        s.name = format!("tracks-{}", s.name);
        out.push(s);
    }
    for mut s in super::anim::encodings(thorough, |ctx, d| {
        let mut d = d.clone();
        d.final_frame_index = 1000.0;
        if d.proj().to_string().contains("null") {
            return Ok(false);
        }
        cycles(ctx, &d)
    }) {
        s.name = format!("encoded-{}", s.name);
        out.push(s);
    }
    out
}
