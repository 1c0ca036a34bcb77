//! C11: JSON of the high-level data types.
use crate::explore::*;
use crate::schema::{Def, Schema};
use crate::util::*;
use crate::{ensure, samples, Check};
use serde_json::{json, Map, Value};
use ssbh_data::mesh_data::{AttributeData, VectorData};
use ssbh_data::prelude::*;
use ssbh_data::{anim_data::TrackValues, Color4f, Vector3, Vector4};
use std::io::Cursor;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C11",
        level: "exploration",
        rule: "one case = one data value (within k deviations of a default value of its type) turned into JSON text in every way and parsed back; distinct by value",
        assumptions: &["finite floats"],
        scenarios: c11,
        hang_s: 60,
    }]
}

#[derive(Clone)]
pub(super) enum J {
    U(u32),
    I32,
    F32,
    Bool,
    Str,
    Sym(String),
    List(Box<J>),
    Fix(Box<J>, usize),
    Opt(Box<J>),
    Obj(Vec<(&'static str, J)>),
    Union(Vec<(&'static str, J)>),
}
use J::*;

fn list(t: J) -> J {
    List(Box::new(t))
}
fn v3() -> J {
    Obj(vec![("x", F32), ("y", F32), ("z", F32)])
}
fn v4() -> J {
    Obj(vec![("x", F32), ("y", F32), ("z", F32), ("w", F32)])
}
fn c4() -> J {
    Obj(vec![("r", F32), ("g", F32), ("b", F32), ("a", F32)])
}
fn with_version(mut f: Vec<(&'static str, J)>) -> J {
    f.insert(0, ("minor_version", U(2)));
    f.insert(0, ("major_version", U(2)));
    Obj(f)
}
fn sphere() -> J {
    Obj(vec![("center", v3()), ("radius", F32)])
}
fn uv() -> J {
    Obj(vec![("scale_u", F32), ("scale_v", F32), ("rotation", F32), ("translate_u", F32), ("translate_v", F32)])
}

pub(super) fn ty(name: &str) -> J {
    let sym = |s: &str| Sym(s.to_string());
    match name {
        "anim" => with_version(vec![
            ("final_frame_index", F32),
            (
                "groups",
                list(Obj(vec![
                    ("group_type", sym("anim.GroupType")),
                    (
                        "nodes",
                        list(Obj(vec![
                            ("name", Str),
                            (
                                "tracks",
                                list(Obj(vec![
                                    ("name", Str),
                                    ("compensate_scale", Bool),
                                    ("transform_flags", Obj(vec![("override_translation", Bool), ("override_rotation", Bool), ("override_scale", Bool), ("override_compensate_scale", Bool)])),
                                    (
                                        "values",
                                        Union(vec![
                                            ("Transform", list(Obj(vec![("scale", v3()), ("rotation", v4()), ("translation", v3())]))),
                                            ("UvTransform", list(uv())),
                                            ("Float", list(F32)),
                                            ("PatternIndex", list(U(4))),
                                            ("Boolean", list(Bool)),
                                            ("Vector4", list(v4())),
                                        ]),
                                    ),
                                ])),
                            ),
                        ])),
                    ),
                ])),
            ),
        ]),
        "mesh" => {
            let f = |n| Fix(Box::new(F32), n);
            let attrs = || list(Obj(vec![("name", Str), ("data", Union(vec![("Vector2", list(f(2))), ("Vector3", list(f(3))), ("Vector4", list(f(4)))]))]));
            with_version(vec![(
                "objects",
                list(Obj(vec![
                    ("name", Str),
                    ("subindex", U(8)),
                    ("parent_bone_name", Str),
                    ("sort_bias", I32),
                    ("disable_depth_write", Bool),
                    ("disable_depth_test", Bool),
                    ("vertex_indices", list(U(4))),
                    ("positions", attrs()),
                    ("normals", attrs()),
                    ("binormals", attrs()),
                    ("tangents", attrs()),
                    ("texture_coordinates", attrs()),
                    ("color_sets", attrs()),
                    ("bone_influences", list(Obj(vec![("bone_name", Str), ("vertex_weights", list(Obj(vec![("vertex_index", U(4)), ("vertex_weight", F32)])))]))),
                ])),
            )])
        }
        "skel" => with_version(vec![(
            "bones",
            list(Obj(vec![("name", Str), ("transform", Fix(Box::new(Fix(Box::new(F32), 4)), 4)), ("parent_index", Opt(Box::new(U(8)))), ("billboard_type", sym("skel.BillboardType"))])),
        )]),
        "matl" => {
            let p = |t: J| list(Obj(vec![("param_id", sym("matl.ParamId")), ("data", t)]));
            let (f, o) = ("matl.BlendFactor", "matl.BlendOperation");
            with_version(vec![(
                "entries",
                list(Obj(vec![
                    ("material_label", Str),
                    ("shader_label", Str),
                    (
                        "blend_states",
                        p(Obj(vec![
                            ("source_color", sym(f)),
                            ("color_operation", sym(o)),
                            ("destination_color", sym(f)),
                            ("source_alpha", sym(f)),
                            ("alpha_operation", sym(o)),
                            ("destination_alpha", sym(f)),
                            ("alpha_sample_to_coverage", Bool),
                        ])),
                    ),
                    ("floats", p(F32)),
                    ("booleans", p(Bool)),
                    ("vectors", p(v4())),
                    ("rasterizer_states", p(Obj(vec![("fill_mode", sym("matl.FillMode")), ("cull_mode", sym("matl.CullMode")), ("depth_bias", F32)]))),
                    (
                        "samplers",
                        p(Obj(vec![
                            ("wraps", sym("matl.WrapMode")),
                            ("wrapt", sym("matl.WrapMode")),
                            ("wrapr", sym("matl.WrapMode")),
                            ("min_filter", sym("matl.MinFilter")),
                            ("mag_filter", sym("matl.MagFilter")),
                            ("border_color", c4()),
                            ("lod_bias", F32),
                            ("max_anisotropy", sym("matl.MaxAnisotropy")),
                        ])),
                    ),
                    ("textures", p(Str)),
                    ("uv_transforms", p(uv())),
                ])),
            )])
        }
        "modl" => with_version(vec![
            ("model_name", Str),
            ("skeleton_file_name", Str),
            ("material_file_names", list(Str)),
            ("animation_file_name", Opt(Box::new(Str))),
            ("mesh_file_name", Str),
            ("entries", list(Obj(vec![("mesh_object_name", Str), ("mesh_object_subindex", U(8)), ("material_label", Str)]))),
        ]),
        "hlpb" => with_version(vec![
            (
                "aim_constraints",
                list(Obj(vec![
                    ("name", Str),
                    ("aim_bone_name1", Str),
                    ("aim_bone_name2", Str),
                    ("aim_type1", Str),
                    ("aim_type2", Str),
                    ("target_bone_name1", Str),
                    ("target_bone_name2", Str),
                    ("unk1", U(4)),
                    ("unk2", U(4)),
                    ("aim", v3()),
                    ("up", v3()),
                    ("quat1", v4()),
                    ("quat2", v4()),
                ])),
            ),
            (
                "orient_constraints",
                list(Obj(vec![
                    ("name", Str),
                    ("parent_bone_name1", Str),
                    ("parent_bone_name2", Str),
                    ("source_bone_name", Str),
                    ("target_bone_name", Str),
                    ("unk_type", U(4)),
                    ("constraint_axes", v3()),
                    ("quat1", v4()),
                    ("quat2", v4()),
                    ("range_min", v3()),
                    ("range_max", v3()),
                ])),
            ),
        ]),
        "meshex" => Obj(vec![(
            "mesh_object_groups",
            list(Obj(vec![
                ("bounding_sphere", sphere()),
                ("mesh_object_full_name", Str),
                ("mesh_object_name", Str),
                ("entry_flags", list(Obj(vec![("draw_model", Bool), ("cast_shadow", Bool)]))),
            ])),
        )]),
        "adj" => Obj(vec![("entries", list(Obj(vec![("mesh_object_index", U(4)), ("vertex_adjacency", list(J::Sym("i16".into())))])))]),
        _ => panic!("{name}"),
    }
}

pub(super) const TYPES: [&str; 8] = ["anim", "mesh", "skel", "matl", "modl", "hlpb", "meshex", "adj"];
const FLOATS: [u32; 14] = [0, 0x8000_0000, 0x3f80_0000, 0xbfa0_0000, 0x7f7f_ffff, 0xff7f_ffff, 1, 0x8000_0001, 0x0080_0000, 0x007f_ffff, 0x3dcc_cccd, 0x4b80_0001, 0x5f00_0001, 0x4cbe_bc20];
const STRS: [&str; 11] = ["", "a", "\"", "\\", "\n\t\r\u{8}\u{c}\u{1}", "é漢🦀", "\u{2028}</script>", "null", " 1.5 ", "trail\r\n", "\u{feff}\u{a0}"];

pub(super) struct G {
    pub n: usize,
    pub len: usize,
    pub rot: usize,
    pub huge: bool,
    /// all default values are this instead of all different
    pub same: Option<usize>,
}

impl G {
    pub fn gen(&mut self, ctx: &mut Ctx, t: &J) -> Value {
        self.n += 1;
        let n = self.same.unwrap_or(self.n);
        match t {
            U(b) => {
                let max = if *b == 8 { u64::MAX } else { (1u64 << (8 * b)) - 1 };
                let v = [n as u64 * 7 % 251, 0, 1, max, max / 2 + 1, max / 2][ctx.choose(6)];
                json!(v)
            }
            I32 => json!([-(n as i64), 0, 1, i32::MAX as i64, i32::MIN as i64, -1][ctx.choose(6)]),
            F32 => {
                let i = ctx.choose(FLOATS.len() + 1);
                let f = if i == 0 { n as f32 * 0.37 - 3.0 } else { f32::from_bits(FLOATS[i - 1]) };
                json!(f)
            }
            Bool => json!((n + ctx.choose(2)) % 2 == 0),
            Str => {
                let i = ctx.choose(STRS.len() + 1);
                if i == 0 {
                    json!(format!("s{n}"))
                } else {
                    json!(STRS[i - 1])
                }
            }
            Sym(s) if s == "i16" => json!([(n as i64 * 3) % 100 - 20, -1, 0, i16::MAX as i64, i16::MIN as i64][ctx.choose(5)]),
            Sym(s) => {
                let Def::Enum { vars, .. } = &Schema::get().defs[s] else { panic!("{s}") };
                let i = ctx.choose(vars.len());
                json!(vars[(n + i) % vars.len()].0)
            }
            List(t) => {
                let d = self.len;
                let alts = [d, 0, (d + 1) % 4, (d + 2) % 4 + 1];
                let m = if self.huge && matches!(**t, F32 | U(_) | Bool) { 1000 } else { alts[ctx.choose(4)] };
                Value::Array((0..m).map(|_| self.gen(ctx, t)).collect())
            }
            Fix(t, k) => Value::Array((0..*k).map(|_| self.gen(ctx, t)).collect()),
            Opt(t) => {
                if ctx.choose(2) == 1 {
                    Value::Null
                } else {
                    self.gen(ctx, t)
                }
            }
            Obj(f) => {
                let mut m = Map::new();
                for (k, t) in f {
                    m.insert(k.to_string(), self.gen(ctx, t));
                }
                Value::Object(m)
            }
            Union(v) => {
                self.rot += 1;
                let (k, t) = &v[(ctx.choose(v.len()) + self.rot) % v.len()];
                json!({*k: self.gen(ctx, t)})
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// projections of the values by field access

fn sym<T: std::fmt::Debug>(t: &T) -> Value {
    json!(format!("{t:?}"))
}
fn p3(v: &Vector3) -> Value {
    json!({"x": v.x, "y": v.y, "z": v.z})
}
fn p4(v: &Vector4) -> Value {
    json!({"x": v.x, "y": v.y, "z": v.z, "w": v.w})
}
fn pc(v: &Color4f) -> Value {
    json!({"r": v.r, "g": v.g, "b": v.b, "a": v.a})
}
fn arr<T>(l: &[T], f: impl Fn(&T) -> Value) -> Value {
    Value::Array(l.iter().map(f).collect())
}

pub(super) trait Proj: SsbhData + serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug {
    fn proj(&self) -> Value;
}
impl Proj for AnimData {
    fn proj(&self) -> Value {
        json!({"major_version": self.major_version, "minor_version": self.minor_version, "final_frame_index": self.final_frame_index,
            "groups": arr(&self.groups, |g| json!({"group_type": sym(&g.group_type), "nodes": arr(&g.nodes, |n| json!({"name": n.name, "tracks": arr(&n.tracks, |t| {
                let f = &t.transform_flags;
                json!({"name": t.name, "compensate_scale": t.compensate_scale,
                    "transform_flags": {"override_translation": f.override_translation, "override_rotation": f.override_rotation, "override_scale": f.override_scale, "override_compensate_scale": f.override_compensate_scale},
                    "values": match &t.values {
                        TrackValues::Transform(l) => json!({"Transform": arr(l, |x| json!({"scale": p3(&x.scale), "rotation": p4(&x.rotation), "translation": p3(&x.translation)}))}),
                        TrackValues::UvTransform(l) => json!({"UvTransform": arr(l, |x| json!({"scale_u": x.scale_u, "scale_v": x.scale_v, "rotation": x.rotation, "translate_u": x.translate_u, "translate_v": x.translate_v}))}),
                        TrackValues::Float(l) => json!({"Float": arr(l, |x| json!(x))}),
                        TrackValues::PatternIndex(l) => json!({"PatternIndex": arr(l, |x| json!(x))}),
                        TrackValues::Boolean(l) => json!({"Boolean": arr(l, |x| json!(x))}),
                        TrackValues::Vector4(l) => json!({"Vector4": arr(l, p4)}),
                    }})
            })}))}))})
    }
}
impl Proj for MeshData {
    fn proj(&self) -> Value {
        let fs = |x: &[f32]| arr(x, |y| json!(y));
        let at = |l: &[AttributeData]| {
            arr(l, |a| {
                json!({"name": a.name, "data": match &a.data {
                    VectorData::Vector2(l) => json!({"Vector2": arr(l, |x| fs(x))}),
                    VectorData::Vector3(l) => json!({"Vector3": arr(l, |x| fs(x))}),
                    VectorData::Vector4(l) => json!({"Vector4": arr(l, |x| fs(x))}),
                }})
            })
        };
        json!({"major_version": self.major_version, "minor_version": self.minor_version, "objects": arr(&self.objects, |o| json!({
            "name": o.name, "subindex": o.subindex, "parent_bone_name": o.parent_bone_name, "sort_bias": o.sort_bias,
            "disable_depth_write": o.disable_depth_write, "disable_depth_test": o.disable_depth_test,
            "vertex_indices": arr(&o.vertex_indices, |x| json!(x)),
            "positions": at(&o.positions), "normals": at(&o.normals), "binormals": at(&o.binormals), "tangents": at(&o.tangents),
            "texture_coordinates": at(&o.texture_coordinates), "color_sets": at(&o.color_sets),
            "bone_influences": arr(&o.bone_influences, |b| json!({"bone_name": b.bone_name, "vertex_weights": arr(&b.vertex_weights, |w| json!({"vertex_index": w.vertex_index, "vertex_weight": w.vertex_weight}))})),
        }))})
    }
}
impl Proj for SkelData {
    fn proj(&self) -> Value {
        json!({"major_version": self.major_version, "minor_version": self.minor_version, "bones": arr(&self.bones, |b| json!({
            "name": b.name, "transform": arr(&b.transform, |c| arr(c, |x| json!(x))), "parent_index": b.parent_index, "billboard_type": sym(&b.billboard_type)}))})
    }
}
impl Proj for MatlData {
    fn proj(&self) -> Value {
        use ssbh_data::matl_data::ParamData;
        fn ps<T>(l: &[ParamData<T>], f: impl Fn(&T) -> Value) -> Value {
            arr(l, |p| json!({"param_id": sym(&p.param_id), "data": f(&p.data)}))
        }
        json!({"major_version": self.major_version, "minor_version": self.minor_version, "entries": arr(&self.entries, |e| json!({
            "material_label": e.material_label, "shader_label": e.shader_label,
            "blend_states": ps(&e.blend_states, |b| json!({"source_color": sym(&b.source_color), "color_operation": sym(&b.color_operation), "destination_color": sym(&b.destination_color),
                "source_alpha": sym(&b.source_alpha), "alpha_operation": sym(&b.alpha_operation), "destination_alpha": sym(&b.destination_alpha), "alpha_sample_to_coverage": b.alpha_sample_to_coverage})),
            "floats": ps(&e.floats, |x| json!(x)), "booleans": ps(&e.booleans, |x| json!(x)), "vectors": ps(&e.vectors, p4),
            "rasterizer_states": ps(&e.rasterizer_states, |r| json!({"fill_mode": sym(&r.fill_mode), "cull_mode": sym(&r.cull_mode), "depth_bias": r.depth_bias})),
            "samplers": ps(&e.samplers, |s| json!({"wraps": sym(&s.wraps), "wrapt": sym(&s.wrapt), "wrapr": sym(&s.wrapr), "min_filter": sym(&s.min_filter), "mag_filter": sym(&s.mag_filter),
                "border_color": pc(&s.border_color), "lod_bias": s.lod_bias, "max_anisotropy": sym(&s.max_anisotropy)})),
            "textures": ps(&e.textures, |x| json!(x)),
            "uv_transforms": ps(&e.uv_transforms, |x| json!({"scale_u": x.scale_u, "scale_v": x.scale_v, "rotation": x.rotation, "translate_u": x.translate_u, "translate_v": x.translate_v})),
        }))})
    }
}
impl Proj for ModlData {
    fn proj(&self) -> Value {
        json!({"major_version": self.major_version, "minor_version": self.minor_version, "model_name": self.model_name, "skeleton_file_name": self.skeleton_file_name,
            "material_file_names": self.material_file_names, "animation_file_name": self.animation_file_name, "mesh_file_name": self.mesh_file_name,
            "entries": arr(&self.entries, |e| json!({"mesh_object_name": e.mesh_object_name, "mesh_object_subindex": e.mesh_object_subindex, "material_label": e.material_label}))})
    }
}
impl Proj for HlpbData {
    fn proj(&self) -> Value {
        json!({"major_version": self.major_version, "minor_version": self.minor_version,
            "aim_constraints": arr(&self.aim_constraints, |a| json!({"name": a.name, "aim_bone_name1": a.aim_bone_name1, "aim_bone_name2": a.aim_bone_name2, "aim_type1": a.aim_type1, "aim_type2": a.aim_type2,
                "target_bone_name1": a.target_bone_name1, "target_bone_name2": a.target_bone_name2, "unk1": a.unk1, "unk2": a.unk2, "aim": p3(&a.aim), "up": p3(&a.up), "quat1": p4(&a.quat1), "quat2": p4(&a.quat2)})),
            "orient_constraints": arr(&self.orient_constraints, |o| json!({"name": o.name, "parent_bone_name1": o.parent_bone_name1, "parent_bone_name2": o.parent_bone_name2, "source_bone_name": o.source_bone_name,
                "target_bone_name": o.target_bone_name, "unk_type": o.unk_type, "constraint_axes": p3(&o.constraint_axes), "quat1": p4(&o.quat1), "quat2": p4(&o.quat2), "range_min": p3(&o.range_min), "range_max": p3(&o.range_max)}))})
    }
}
impl Proj for MeshExData {
    fn proj(&self) -> Value {
        json!({"mesh_object_groups": arr(&self.mesh_object_groups, |g| json!({"bounding_sphere": {"center": p3(&g.bounding_sphere.center), "radius": g.bounding_sphere.radius},
            "mesh_object_full_name": g.mesh_object_full_name, "mesh_object_name": g.mesh_object_name,
            "entry_flags": arr(&g.entry_flags, |f| json!({"draw_model": f.draw_model, "cast_shadow": f.cast_shadow}))}))})
    }
}
impl Proj for AdjData {
    fn proj(&self) -> Value {
        json!({"entries": arr(&self.entries, |e| json!({"mesh_object_index": e.mesh_object_index, "vertex_adjacency": e.vertex_adjacency}))})
    }
}

fn bytes<T: Proj>(v: &T) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    v.write(&mut c).map_err(|e| e.to_string())?;
    Ok(c.into_inner())
}

/// All ways of turning a value into text and back.
fn texts<T: Proj>(ctx: &mut Ctx, v: &T, want: &Value, write: bool) -> Result<(), Failure> {
    let compact = serde_json::to_string(v).or_fail("json:write")?;
    let pretty = serde_json::to_string_pretty(v).or_fail("json:write")?;
    let shown: Value = serde_json::from_str(&compact).or_fail("json:invalid")?;
    // numbers of the text are compared as single precision numbers
    if let Some(d) = json_diff(want, &narrow(&shown, want)) {
        return fail(&format!("fields:{}", path_key(&d)), format!("value vs JSON text: {d}"));
    }
    let file = if write { Some(bytes(v)) } else { None };
    let ways: [(&str, serde_json::Result<T>); 4] = [
        ("compact text", serde_json::from_str(&compact)),
        ("pretty text", serde_json::from_slice(pretty.as_bytes())),
        ("a reader", serde_json::from_reader(pretty.as_bytes())),
        ("a JSON value", serde_json::to_value(v).and_then(serde_json::from_value)),
    ];
    for (n, r) in ways {
        let back = r.map_err(|e| failure("json:parse", format!("from {n}: {e}: {compact}")))?;
        ctx.step();
        if let Some(d) = json_diff(want, &back.proj()) {
            return fail(&format!("roundtrip:{}", path_key(&d)), format!("value vs value parsed from {n}: {d}"));
        }
        if let Some(f) = &file {
            ensure!(*f == bytes(&back), "file", "the file written after parsing {n} differs from the file of the original value");
        }
    }
    Ok(())
}

/// Numbers rounded to f32 where the other side has a float.
fn narrow(v: &Value, like: &Value) -> Value {
    match (v, like) {
        (Value::Number(_), Value::Number(l)) if l.is_f64() => json!(v.as_f64().unwrap() as f32),
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => Value::Array(a.iter().zip(b).map(|(x, y)| narrow(x, y)).collect()),
        (Value::Object(a), Value::Object(b)) => Value::Object(a.iter().map(|(k, x)| (k.clone(), b.get(k).map_or(x.clone(), |y| narrow(x, y)))).collect()),
        _ => v.clone(),
    }
}

fn case<T: Proj>(ctx: &mut Ctx, j: &Value, write: bool) -> RunResult {
    ctx.note(|| j.to_string().chars().take(1000).collect());
    ctx.hash_bytes(j.to_string().as_bytes());
    let v: T = serde_json::from_value(j.clone()).map_err(|e| failure("json:parse", format!("{e}: {j}")))?;
    if let Some(d) = json_diff(j, &v.proj()) {
        return fail(&format!("parse:{}", path_key(&d)), format!("JSON vs value parsed: {d}"));
    }
    texts(ctx, &v, j, write)?;
    Ok(true)
}

macro_rules! dispatch {
    ($name:expr, $f:ident, $($a:expr),*) => {
        match $name {
            "anim" => $f::<AnimData>($($a),*),
            "mesh" => $f::<MeshData>($($a),*),
            "skel" => $f::<SkelData>($($a),*),
            "matl" => $f::<MatlData>($($a),*),
            "modl" => $f::<ModlData>($($a),*),
            "hlpb" => $f::<HlpbData>($($a),*),
            "meshex" => $f::<MeshExData>($($a),*),
            "adj" => $f::<AdjData>($($a),*),
            x => panic!("{x}"),
        }
    };
}

/// A value read from a file goes through JSON and gives the same file again.
fn from_file<T: Proj>(ctx: &mut Ctx, b: &[u8]) -> RunResult {
    let v: T = T::read(&mut Cursor::new(b)).map_err(|e| failure("sample", e.to_string()))?;
    texts(ctx, &v, &v.proj(), true)?;
    Ok(true)
}

fn c11(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for name in TYPES {
        let k = if thorough { 2 } else { 1 };
        for len in [1, 2, 3] {
            if name == "matl" && len == 3 && !thorough {
                continue;
            }
            let k = match (name, len) {
                (_, 1) => k,
                ("modl" | "adj" | "meshex", 2) => k,
                _ => 1,
            };
            // anim writing depends on the values; writing is compared on every value
            out.push(scenario(format!("{name}-{len}"), k, move |ctx: &mut Ctx| {
                let rot = if (name == "anim" || name == "mesh") && (len < 3 || thorough) { ctx.free(6) } else { 0 };
                let j = G { n: 0, len, rot, huge: false, same: None }.gen(ctx, &ty(name));
                dispatch!(name, case, ctx, &j, true)
            }));
        }
    }
    for name in TYPES {
        out.push(scenario(format!("{name}-same"), 1, move |ctx: &mut Ctx| {
            let rot = if name == "anim" || name == "mesh" { ctx.free(6) } else { 0 };
            let j = G { n: 0, len: 2, rot, huge: false, same: Some(ctx.free(3)) }.gen(ctx, &ty(name));
            dispatch!(name, case, ctx, &j, true)
        }));
    }
    // the versions that can be written, so that the files are compared
    for (name, major, minors) in [("anim", 2u16, &[0u16, 1][..]), ("mesh", 1, &[8, 9, 10]), ("matl", 1, &[6])] {
        out.push(scenario(format!("{name}-writable"), 1, move |ctx: &mut Ctx| {
            let rot = if name == "anim" || thorough { ctx.free(6) } else { 0 };
            let mut j = G { n: 0, len: 1 + if thorough { ctx.free(2) } else { 0 }, rot, huge: false, same: None }.gen(ctx, &ty(name));
            j["major_version"] = json!(major);
            j["minor_version"] = json!(minors[ctx.free(minors.len())]);
            dispatch!(name, case, ctx, &j, true)
        }));
    }
    out.push(scenario("files", 0, |ctx: &mut Ctx| {
        let kinds: [(&'static str, Vec<Vec<u8>>); 8] = [
            ("anim", (0..2).map(|m| samples::bytes_of(&samples::anim(m, samples::tracks(3)))).chain((0..2).map(|m| samples::bytes_of(&samples::anim(m, samples::tracks(1))))).collect()),
            ("mesh", [8, 9, 10].iter().map(|m| samples::bytes_of(&samples::mesh(*m))).collect()),
            ("skel", vec![samples::bytes_of(&samples::skel())]),
            ("matl", vec![samples::bytes_of(&samples::matl())]),
            ("modl", vec![samples::bytes_of(&samples::modl())]),
            ("hlpb", vec![samples::bytes_of(&samples::hlpb())]),
            ("meshex", vec![samples::bytes_of(&samples::meshex())]),
            ("adj", vec![samples::bytes_of(&samples::adj())]),
        ];
        let k = ctx.free(8);
        let b = &kinds[k].1[ctx.free(kinds[k].1.len())];
        ctx.hash_bytes(b);
        dispatch!(kinds[k].0, from_file, ctx, b)
    }));
    // floats: every exponent with many mantissas, both signs
    out.push(scenario("floats", 0, move |ctx: &mut Ctx| {
        let e = ctx.free(255) as u32;
        let s = ctx.free(2) as u32;
        let shift = if thorough { 8 } else { 13 };
        let mut ms: Vec<u32> = (0..1u32 << (23 - shift)).map(|m| (m << shift) | (m.wrapping_mul(0x9e37_79b1) >> (32 - shift))).collect();
        ms.extend([0, 1, 2, 0x7f_ffff, 0x7f_fffe, 0x40_0000]);
        let l: Vec<f32> = ms.iter().map(|m| f32::from_bits(s << 31 | e << 23 | m)).collect();
        ctx.cases += l.len() as u64;
        ctx.hash_u64((e << 1 | s) as u64);
        let d = samples::anim(0, vec![samples::track("f", TrackValues::Float(l.clone()))]);
        let t = serde_json::to_string(&d).or_fail("json:write")?;
        let back: AnimData = serde_json::from_str(&t).or_fail("json:parse")?;
        let TrackValues::Float(b) = &back.groups[0].nodes[0].tracks[0].values else { return fail("floats:kind", "the kind of values changed") };
        for (x, y) in l.iter().zip(b) {
            ensure!(x.to_bits() == y.to_bits(), "floats:value", "{x:?} came back as {y:?}");
        }
        ensure!(l.len() == b.len(), "floats:count", "{} floats came back as {}", l.len(), b.len());
        ctx.step();
        Ok(true)
    }));
    out.push(scenario("long", 0, |ctx: &mut Ctx| {
        let name = TYPES[ctx.free(8)];
        let rot = ctx.free(6);
        let j = G { n: 0, len: 1, rot, huge: true, same: None }.gen(ctx, &ty(name));
        dispatch!(name, case, ctx, &j, true)
    }));
    // fields that may be missing take their documented values, the others stay as they are
    out.push(scenario("omitted", 0, |ctx: &mut Ctx| {
        let d = samples::matl();
        let mut j = d.proj();
        let mut want = j.clone();
        let e = "/entries/0";
        if ctx.free(2) == 1 {
            j.pointer_mut(e).unwrap().as_object_mut().unwrap().remove("uv_transforms");
            want.pointer_mut(e).unwrap()["uv_transforms"] = json!([]);
        }
        let s = [("wraps", json!("ClampToEdge")), ("wrapt", json!("ClampToEdge")), ("wrapr", json!("ClampToEdge")), ("min_filter", json!("LinearMipmapLinear")), ("mag_filter", json!("Linear")),
            ("border_color", json!({"r": 0.0, "g": 0.0, "b": 0.0, "a": 0.0})), ("lod_bias", json!(0.0)), ("max_anisotropy", json!("One"))];
        let b = [("source_color", json!("One")), ("color_operation", json!("Add")), ("destination_color", json!("Zero")), ("source_alpha", json!("One")), ("alpha_operation", json!("Add")),
            ("destination_alpha", json!("Zero")), ("alpha_sample_to_coverage", json!(false))];
        let (l, at): (&[(&str, Value)], _) = if ctx.free(2) == 0 { (&s, "/entries/0/samplers/0/data") } else { (&b, "/entries/0/blend_states/0/data") };
        for (k, v) in l {
            if ctx.free(2) == 1 {
                if *k == "max_anisotropy" && ctx.free(2) == 1 {
                    j.pointer_mut(at).unwrap()[*k] = Value::Null;
                } else {
                    j.pointer_mut(at).unwrap().as_object_mut().unwrap().remove(*k);
                }
                want.pointer_mut(at).unwrap()[*k] = v.clone();
            }
        }
        ctx.hash_bytes(j.to_string().as_bytes());
        let v: MatlData = serde_json::from_value(j.clone()).map_err(|e| failure("omitted:rejected", format!("{e}: {j}")))?;
        if let Some(d) = json_diff(&want, &v.proj()) {
            return fail(&format!("omitted:{}", path_key(&d)), format!("expected vs parsed: {d}"));
        }
        ctx.step();
        Ok(true)
    }));
    out
}
