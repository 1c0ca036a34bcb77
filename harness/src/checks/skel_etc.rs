//! C19: skeletons.  C20: materials.  C21: model lists and helper bones.
use crate::explore::*;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, fmt, samples, Check};
use serde_json::{json, Map, Value};
use ssbh_data::matl_data::*;
use ssbh_data::prelude::*;
use ssbh_data::skel_data::*;
use ssbh_lib::formats::skel::Skel;
use std::io::Cursor;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C19",
            level: "exploration",
            rule: "one case = one skeleton (parent assignment, transforms, names, billboards) whose written matrices are compared with products computed in double precision; distinct by skeleton",
            assumptions: &["transforms are invertible", "matrices are compared up to single precision rounding"],
            scenarios: c19,
            hang_s: 60,
        },
        Check {
            id: "C20",
            level: "exploration",
            rule: "one case = one material file or value, compared with an independent mapping between the file's attributes and the grouped parameters; distinct by value",
            assumptions: &["finite floats and UTF-8 strings", "the fields the data type does not have are not preserved"],
            scenarios: c20,
            hang_s: 60,
        },
        Check {
            id: "C21",
            level: "exploration",
            rule: "one case = one model list or helper-bone value, compared with an independent field by field mapping; distinct by value",
            assumptions: &["finite floats and UTF-8 strings"],
            scenarios: c21,
            hang_s: 60,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// independent mappings between the JSON of the raw formats and the JSON of the data types

fn text(v: &Value) -> Value {
    json!(v.as_str().unwrap_or(""))
}
fn items(v: &Value) -> &Vec<Value> {
    v.as_array().expect("array")
}
fn map(v: &Value, f: impl Fn(&Value) -> Value) -> Value {
    Value::Array(items(v).iter().map(f).collect())
}
fn pick(v: &Value, strs: &[&str], vals: &[&str]) -> Map<String, Value> {
    let mut m = Map::new();
    for k in strs {
        m.insert(k.to_string(), text(&v[k]));
    }
    for k in vals {
        m.insert(k.to_string(), v[k].clone());
    }
    m
}

const KINDS: [(&str, &str); 8] = [
    ("blend_states", "BlendState"),
    ("booleans", "Boolean"),
    ("floats", "Float"),
    ("vectors", "Vector4"),
    ("rasterizer_states", "RasterizerState"),
    ("samplers", "Sampler"),
    ("textures", "String"),
    ("uv_transforms", "UvTransform"),
];
const BLEND: [&str; 6] = ["source_color", "color_operation", "destination_color", "source_alpha", "alpha_operation", "destination_alpha"];
const SAMPLER: [&str; 7] = ["wraps", "wrapt", "wrapr", "min_filter", "mag_filter", "border_color", "lod_bias"];

pub fn matl_data_of(raw: &Value) -> Value {
    let (ver, body) = raw["Matl"].as_object().unwrap().iter().next().unwrap();
    let entries = map(&body["entries"], |e| {
        let mut m = pick(e, &["material_label", "shader_label"], &[]);
        for (field, tag) in KINDS {
            let l: Vec<Value> = items(&e["attributes"])
                .iter()
                .filter_map(|a| {
                    let x = a["param"]["data"].as_object()?.get(tag)?;
                    let data = match tag {
                        "Boolean" => json!(x.as_u64() != Some(0)),
                        "String" => text(x),
                        "BlendState" => {
                            let mut d = pick(x, &[], &BLEND);
                            d.insert("alpha_sample_to_coverage".into(), json!(ver == "V16" && x["alpha_sample_to_coverage"] != json!(0)));
                            Value::Object(d)
                        }
                        "RasterizerState" => {
                            if ver == "V16" {
                                Value::Object(pick(x, &[], &["fill_mode", "cull_mode", "depth_bias"]))
                            } else {
                                json!({"fill_mode": "Solid", "cull_mode": x["cull_mode"], "depth_bias": 0.0})
                            }
                        }
                        "Sampler" => {
                            let mut d = pick(x, &[], &SAMPLER);
                            d.insert("max_anisotropy".into(), if x["texture_filtering_type"] == "AnisotropicFiltering" { x["max_anisotropy"].clone() } else { json!("One") });
                            Value::Object(d)
                        }
                        _ => x.clone(),
                    };
                    Some(json!({"param_id": a["param_id"], "data": data}))
                })
                .collect();
            m.insert(field.into(), Value::Array(l));
        }
        Value::Object(m)
    });
    json!({"major_version": 1, "minor_version": if ver == "V16" { 6 } else { 5 }, "entries": entries})
}

/// Attributes of one entry of a version 1.6 file, grouped by kind (the order of kinds is up to the writer).
fn matl_raw_of(entry: &Value) -> Value {
    let mut m = pick(entry, &["material_label", "shader_label"], &[]);
    for (field, tag) in KINDS {
        let l = map(&entry[field], |p| {
            let x = &p["data"];
            let raw = match tag {
                "Boolean" => json!(x.as_bool().unwrap() as u32),
                "BlendState" => {
                    let mut d = pick(x, &[], &BLEND);
                    d.insert("alpha_sample_to_coverage".into(), json!(x["alpha_sample_to_coverage"].as_bool().unwrap() as u32));
                    Value::Object(d)
                }
                "RasterizerState" => Value::Object(pick(x, &[], &["fill_mode", "cull_mode", "depth_bias"])),
                "Sampler" => {
                    let mut d = pick(x, &[], &SAMPLER);
                    d.insert("max_anisotropy".into(), x["max_anisotropy"].clone());
                    Value::Object(d)
                }
                _ => x.clone(),
            };
            json!({"param_id": p["param_id"], "param": {"data": {tag: raw}}})
        });
        m.insert(field.into(), l);
    }
    Value::Object(m)
}

/// The same shape from the raw JSON of a written file; fields without a counterpart are dropped.
fn matl_grouped(raw: &Value) -> Value {
    map(&raw["Matl"]["V16"]["entries"], |e| {
        let mut m = pick(e, &["material_label", "shader_label"], &[]);
        for (field, tag) in KINDS {
            let l: Vec<Value> = items(&e["attributes"])
                .iter()
                .filter(|a| a["param"]["data"].get(tag).is_some())
                .map(|a| {
                    let x = &a["param"]["data"][tag];
                    let keep = match tag {
                        "BlendState" => {
                            let mut d = pick(x, &[], &BLEND);
                            d.insert("alpha_sample_to_coverage".into(), x["alpha_sample_to_coverage"].clone());
                            Value::Object(d)
                        }
                        "RasterizerState" => Value::Object(pick(x, &[], &["fill_mode", "cull_mode", "depth_bias"])),
                        "Sampler" => {
                            let mut d = pick(x, &[], &SAMPLER);
                            d.insert("max_anisotropy".into(), x["max_anisotropy"].clone());
                            Value::Object(d)
                        }
                        _ => x.clone(),
                    };
                    json!({"param_id": a["param_id"], "param": {"data": {tag: keep}}})
                })
                .collect();
            m.insert(field.into(), Value::Array(l));
        }
        Value::Object(m)
    })
}

pub fn modl_data_of(raw: &Value) -> Value {
    let b = &raw["Modl"]["V17"];
    let mut m = pick(b, &["model_name", "skeleton_file_name", "mesh_file_name"], &["animation_file_name"]);
    m.insert("major_version".into(), json!(1));
    m.insert("minor_version".into(), json!(7));
    m.insert("material_file_names".into(), map(&b["material_file_names"], text));
    m.insert("entries".into(), map(&b["entries"], |e| Value::Object(pick(e, &["mesh_object_name", "material_label"], &["mesh_object_subindex"]))));
    Value::Object(m)
}
fn modl_raw_of(d: &Value) -> Value {
    let mut m = d.as_object().unwrap().clone();
    m.remove("major_version");
    m.remove("minor_version");
    json!({"Modl": {"V17": m}})
}

const AIM_S: [&str; 7] = ["name", "aim_bone_name1", "aim_bone_name2", "aim_type1", "aim_type2", "target_bone_name1", "target_bone_name2"];
const AIM_V: [&str; 6] = ["unk1", "unk2", "aim", "up", "quat1", "quat2"];
const ORI_S: [&str; 5] = ["name", "parent_bone_name1", "parent_bone_name2", "source_bone_name", "target_bone_name"];
const ORI_V: [&str; 6] = ["unk_type", "constraint_axes", "quat1", "quat2", "range_min", "range_max"];

pub fn hlpb_data_of(raw: &Value) -> Value {
    let b = &raw["Hlpb"]["V11"];
    json!({
        "major_version": 1,
        "minor_version": 1,
        "aim_constraints": map(&b["aim_constraints"], |a| Value::Object(pick(a, &AIM_S, &AIM_V))),
        "orient_constraints": map(&b["orient_constraints"], |a| Value::Object(pick(a, &ORI_S, &ORI_V))),
    })
}
fn hlpb_raw_of(d: &Value) -> Value {
    let (a, o) = (items(&d["aim_constraints"]).len(), items(&d["orient_constraints"]).len());
    json!({"Hlpb": {"V11": {
        "aim_constraints": d["aim_constraints"],
        "orient_constraints": d["orient_constraints"],
        "constraint_indices": (0..a).chain(0..o).collect::<Vec<_>>(),
        "constraint_types": (0..a).map(|_| "Aim").chain((0..o).map(|_| "Orient")).collect::<Vec<_>>(),
    }}})
}
/// Drops the fields of aim constraints that the data type does not have.
fn hlpb_known(raw: &Value) -> Value {
    let mut r = raw.clone();
    let b = &mut r["Hlpb"]["V11"];
    b["aim_constraints"] = map(&b["aim_constraints"], |a| Value::Object(pick(a, &AIM_S, &AIM_V)));
    r
}

pub fn skel_data_of(raw: &Value) -> Option<Value> {
    let b = &raw["Skel"]["V10"];
    let (e, t) = (items(&b["bone_entries"]), items(&b["transforms"]));
    if e.len() != t.len() {
        return None;
    }
    let bones: Vec<Value> = e
        .iter()
        .zip(t)
        .map(|(e, t)| {
            let row = |c: &str| json!([t[c]["x"], t[c]["y"], t[c]["z"], t[c]["w"]]);
            let p = e["parent_index"].as_i64().unwrap();
            json!({
                "name": text(&e["name"]),
                "transform": [row("col1"), row("col2"), row("col3"), row("col4")],
                "parent_index": if p < 0 { Value::Null } else { json!(p) },
                "billboard_type": e["flags"]["billboard_type"],
            })
        })
        .collect();
    Some(json!({"major_version": 1, "minor_version": 0, "bones": bones}))
}

/// Null strings behind non-null pointers look like null pointers in JSON.
pub fn ambiguous(v: &Val) -> bool {
    match v {
        Val::Opt(Some(x)) => **x == Val::Str(None) || ambiguous(x),
        Val::List(l) | Val::Struct(l) => l.iter().any(ambiguous),
        Val::Variant(_, x) => ambiguous(x),
        _ => false,
    }
}

pub fn data_from<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, Failure> {
    serde_json::from_value(v.clone()).map_err(|e| failure("json:data", format!("{e}: {v}")))
}
fn dwrite<T: SsbhData>(d: &T) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    d.write(&mut c).map_err(|e| e.to_string())?;
    Ok(c.into_inner())
}
fn dread<T: SsbhData>(b: &[u8], key: &str) -> Result<T, Failure> {
    T::read(&mut Cursor::new(b)).map_err(|e| failure(key, e.to_string()))
}
fn same(key: &str, want: &Value, got: &Value, what: &str) -> Result<(), Failure> {
    if let Some(d) = json_diff(want, got) {
        return fail(&format!("{key}:{}", path_key(&d)), format!("{what}: {d}"));
    }
    Ok(())
}

fn note_val(ctx: &mut Ctx, v: &Value) {
    ctx.note(|| v.to_string().chars().take(1200).collect());
    ctx.hash_bytes(v.to_string().as_bytes());
}

/// Reads an encoded raw value as data, and writes and reads the data again.
fn raw_case<T, W>(ctx: &mut Ctx, root: &str, vi: usize, g: &mut Gen, want: W, write: fn(&mut Ctx, &Value) -> Result<(), Failure>) -> RunResult
where
    T: SsbhData + serde::Serialize + serde::de::DeserializeOwned,
    W: Fn(&Value) -> Option<Value>,
{
    let r = samples::root(root);
    let val = g.val(ctx, &r.versions[vi].body);
    if ambiguous(&val) {
        return Ok(false);
    }
    let raw = file_json(r, &r.versions[vi], &val);
    let e = encode_file(r, &r.versions[vi], &val, Layout::Canonical, false);
    let Some(want) = want(&raw) else { return Ok(false) };
    note_val(ctx, &want);
    let got: T = dread(&e.buf, &format!("read:{root}"))?;
    same("read", &want, &serde_json::to_value(&got).unwrap(), "data in the file vs data read")?;
    ctx.steps += 1;
    write(ctx, &want)?;
    Ok(true)
}

fn write_modl(ctx: &mut Ctx, d: &Value) -> Result<(), Failure> {
    let v: ModlData = data_from(d)?;
    let b = dwrite(&v).or_fail("write:Modl")?;
    same("file", &modl_raw_of(d), &fmt::json(&fmt::read(&b).or_fail("reread")?), "expected vs written model file")?;
    let back: ModlData = dread(&b, "reread")?;
    ensure!(back == v, "roundtrip:Modl", "written {v:?}, read {back:?}");
    // the other conversions do the same
    let raw: ssbh_lib::formats::modl::Modl = v.clone().into();
    ensure!(raw == (&v).into() && ModlData::from(raw.clone()) == v && ModlData::from(&raw) == v, "conversions:Modl", "conversions differ for {v:?}");
    ctx.steps += 6;
    Ok(())
}
fn write_hlpb(ctx: &mut Ctx, d: &Value) -> Result<(), Failure> {
    let v: HlpbData = data_from(d)?;
    let b = dwrite(&v).or_fail("write:Hlpb")?;
    same("file", &hlpb_raw_of(d), &hlpb_known(&fmt::json(&fmt::read(&b).or_fail("reread")?)), "expected vs written helper bone file")?;
    let back: HlpbData = dread(&b, "reread")?;
    ensure!(back == v, "roundtrip:Hlpb", "written {v:?}, read {back:?}");
    let raw: ssbh_lib::formats::hlpb::Hlpb = v.clone().into();
    ensure!(raw == (&v).into() && HlpbData::from(raw.clone()) == v && HlpbData::from(&raw) == v, "conversions:Hlpb", "conversions differ for {v:?}");
    ctx.steps += 6;
    Ok(())
}
fn write_matl(ctx: &mut Ctx, d: &Value) -> Result<(), Failure> {
    let mut v: MatlData = data_from(d)?;
    if v.minor_version == 5 {
        ensure!(dwrite(&v).is_err(), "version:accepted", "a version 1.5 material was written");
        ctx.steps += 1;
        v.minor_version = 6;
    }
    let b = dwrite(&v).or_fail("write:Matl")?;
    let raw = fmt::json(&fmt::read(&b).or_fail("reread")?);
    let want = map(&d["entries"], matl_raw_of);
    same("file", &want, &matl_grouped(&raw), "expected vs written material file")?;
    for (e, w) in items(&raw["Matl"]["V16"]["entries"]).iter().zip(items(&d["entries"])) {
        let n: usize = KINDS.iter().map(|k| items(&w[k.0]).len()).sum();
        ensure!(items(&e["attributes"]).len() == n, "file:count", "{} attributes written for {n} parameters", items(&e["attributes"]).len());
        for a in items(&e["attributes"]) {
            let Some(s) = a["param"]["data"].get("Sampler") else { continue };
            let aniso = s["texture_filtering_type"] == "AnisotropicFiltering";
            ensure!(aniso == (s["max_anisotropy"] != "One"), "file:filtering", "anisotropic filtering is {aniso} for {}", s["max_anisotropy"]);
        }
    }
    let back: MatlData = dread(&b, "reread")?;
    ensure!(back == v, "roundtrip:Matl", "written {v:?}, read {back:?}");
    let m = ssbh_lib::formats::matl::Matl::try_from(v.clone()).or_fail("convert")?;
    ensure!(Ok(&m) == ssbh_lib::formats::matl::Matl::try_from(&v).as_ref().map_err(|_| ()), "conversions:Matl", "conversions differ for {v:?}");
    ensure!(MatlData::try_from(&m).ok().as_ref() == Some(&v) && MatlData::try_from(m).ok().as_ref() == Some(&v), "conversions:Matl", "conversions differ for {v:?}");
    // conversion of single entries to and from version 1.5: everything but the states that it lacks
    for e in &v.entries {
        let old = ssbh_lib::formats::matl::MatlEntryV15::from(e);
        let n: usize = KINDS.iter().map(|k| serde_json::to_value(e).unwrap()[k.0].as_array().unwrap().len()).sum();
        ensure!(old.attributes.elements.len() == n, "v15:count", "{} attributes for {e:?}", old.attributes.elements.len());
        let back = MatlEntryData::from(&old);
        let mut want = e.clone();
        for (w, b) in want.blend_states.iter_mut().zip(&back.blend_states) {
            w.data = BlendStateData { source_color: w.data.source_color, destination_color: w.data.destination_color, ..b.data.clone() };
        }
        for (w, b) in want.rasterizer_states.iter_mut().zip(&back.rasterizer_states) {
            w.data = RasterizerStateData { cull_mode: w.data.cull_mode, ..b.data.clone() };
        }
        ensure!(back == want, "v15:roundtrip", "converted {e:?}, came back as {back:?}");
    }
    ctx.steps += 7;
    Ok(())
}
fn write_skel(ctx: &mut Ctx, d: &Value) -> Result<(), Failure> {
    let v: SkelData = data_from(d)?;
    if cyclic(&parents_of(&v)) {
        ensure!(Skel::try_from(&v).is_err(), "cycle:accepted", "cyclic parents were accepted: {:?}", parents_of(&v));
        return Ok(());
    }
    let b = dwrite(&v).or_fail("write:Skel")?;
    let back: SkelData = dread(&b, "reread")?;
    ensure!(back == v, "roundtrip:Skel", "written {v:?}, read {back:?}");
    ctx.steps += 2;
    Ok(())
}

fn c21(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    let k = if thorough { 3 } else { 2 };
    for (n, deflen, k) in [(0, 1, k), (1, 2, k.min(2)), (2, 3, 1)] {
        out.push(scenario(format!("modl-{n}"), k, move |ctx: &mut Ctx| {
            raw_case::<ModlData, _>(ctx, "Modl", 0, &mut Gen::standard(deflen), |r| Some(modl_data_of(r)), write_modl)
        }));
        out.push(scenario(format!("modl-same-{n}"), k, move |ctx: &mut Ctx| {
            let mut g = Gen::same(ctx, deflen);
            raw_case::<ModlData, _>(ctx, "Modl", 0, &mut g, |r| Some(modl_data_of(r)), write_modl)
        }));
        out.push(scenario(format!("hlpb-same-{n}"), if thorough || deflen == 1 { k.min(2) } else { 1 }, move |ctx: &mut Ctx| {
            let mut g = Gen::same(ctx, deflen);
            raw_case::<HlpbData, _>(ctx, "Hlpb", 0, &mut g, |r| Some(hlpb_data_of(r)), write_hlpb)
        }));
        out.push(scenario(format!("hlpb-{n}"), k.min(2), move |ctx: &mut Ctx| {
            raw_case::<HlpbData, _>(ctx, "Hlpb", 0, &mut Gen::standard(deflen), |r| Some(hlpb_data_of(r)), write_hlpb)
        }));
    }
    out.push(scenario("hlpb-counts", 0, move |ctx: &mut Ctx| {
        let m = if thorough { 40 } else { 12 };
        let long = [127, 128, 129, 255, 256, 257, 300, 1025, if thorough { 65537 } else { 4097 }];
        let (a, o) = match ctx.free(m * m + long.len() * 3) {
            x if x < m * m => (x / m, x % m),
            x => {
                let n = long[(x - m * m) / 3];
                [(n, 0), (0, n), (2, n)][(x - m * m) % 3]
            }
        };
        let base = samples::hlpb();
        let mut d = base.clone();
        d.aim_constraints = (0..a).map(|i| ssbh_data::hlpb_data::AimConstraintData { name: format!("aim{i}"), unk1: i as u32, ..base.aim_constraints[0].clone() }).collect();
        d.orient_constraints = (0..o).map(|i| ssbh_data::hlpb_data::OrientConstraintData { name: format!("ori{i}"), unk_type: i as u32, ..base.orient_constraints[0].clone() }).collect();
        let j = serde_json::to_value(&d).unwrap();
        note_val(ctx, &j);
        write_hlpb(ctx, &j)?;
        Ok(a + o > 0)
    }));
    out.push(scenario("modl-shapes", 0, move |ctx: &mut Ctx| {
        const LONG: [usize; 6] = [255, 256, 257, 1025, 65536, 65537];
        let (m, e) = match ctx.free(36 + LONG.len() * 2) {
            x if x < 36 => (x / 6, x % 6),
            x => {
                let n = LONG[(x - 36) / 2];
                [(n, 1), (1, n)][(x - 36) % 2]
            }
        };
        if m + e > 20 {
            let s = "name";
            let d = json!({
                "major_version": 1, "minor_version": 7, "model_name": s, "skeleton_file_name": s, "mesh_file_name": s,
                "material_file_names": (0..m).map(|i| format!("m{i}")).collect::<Vec<_>>(),
                "animation_file_name": null,
                "entries": (0..e).map(|i| json!({"mesh_object_name": format!("o{i}"), "mesh_object_subindex": i, "material_label": format!("l{i}")})).collect::<Vec<_>>(),
            });
            ctx.hash_u64((m * 100_000 + e) as u64);
            write_modl(ctx, &d)?;
            return Ok(true);
        }
        let anim = ctx.free(4);
        let s = ["", "a", "model.nusktb", "é漢🦀"];
        let d = json!({
            "major_version": 1, "minor_version": 7,
            "model_name": s[ctx.free(4)], "skeleton_file_name": s[ctx.free(4)], "mesh_file_name": s[ctx.free(4)],
            "material_file_names": (0..m).map(|i| s[i % 4]).collect::<Vec<_>>(),
            "animation_file_name": if anim == 0 { Value::Null } else { json!(s[anim - 1]) },
            "entries": (0..e).map(|i| json!({"mesh_object_name": s[(i + 1) % 4], "mesh_object_subindex": ([0u64, 1, u64::MAX, 1 << 32])[i % 4], "material_label": s[i % 3]})).collect::<Vec<_>>(),
        });
        note_val(ctx, &d);
        write_modl(ctx, &d)?;
        Ok(true)
    }));
    out
}

// ---------------------------------------------------------------------------------------------

fn symbols(name: &str) -> Vec<String> {
    let Def::Enum { vars, .. } = &Schema::get().defs[name] else { panic!("{name}") };
    vars.iter().map(|v| v.0.clone()).collect()
}

fn param(kind: usize, i: usize) -> Value {
    let f = i as f32;
    match KINDS[kind].1 {
        "Float" => json!(f * 0.5 - 1.0),
        "Boolean" => json!(i % 2 == 0),
        "Vector4" => json!({"x": f, "y": -f, "z": 0.5, "w": f * 3.0}),
        "String" => json!(["/common/tex", "", "é漢🦀", "a"][i % 4]),
        "UvTransform" => json!({"scale_u": f, "scale_v": 1.0 + f, "rotation": 2.0, "translate_u": -3.0, "translate_v": f * 0.25}),
        "Sampler" => {
            let w = symbols("matl.WrapMode");
            let a = symbols("matl.MaxAnisotropy");
            json!({"wraps": w[i % 4], "wrapt": w[(i + 1) % 4], "wrapr": w[(i + 2) % 4], "min_filter": symbols("matl.MinFilter")[i % 3], "mag_filter": symbols("matl.MagFilter")[(i + 1) % 3],
                "border_color": {"r": 0.1f32, "g": f, "b": 0.3f32, "a": 1.0}, "lod_bias": f - 0.5, "max_anisotropy": a[i % a.len()]})
        }
        "BlendState" => {
            let b = symbols("matl.BlendFactor");
            let o = symbols("matl.BlendOperation");
            json!({"source_color": b[i % b.len()], "color_operation": o[i % o.len()], "destination_color": b[(i + 1) % b.len()], "source_alpha": b[(i + 2) % b.len()],
                "alpha_operation": o[(i + 1) % o.len()], "destination_alpha": b[(i + 3) % b.len()], "alpha_sample_to_coverage": i % 2 == 1})
        }
        _ => json!({"fill_mode": symbols("matl.FillMode")[i % 2], "cull_mode": symbols("matl.CullMode")[i % 3], "depth_bias": f * 0.125}),
    }
}

fn empty_entry(label: &str) -> Value {
    let mut m = Map::new();
    m.insert("material_label".into(), json!(label));
    m.insert("shader_label".into(), json!(format!("SFX_{label}")));
    for (f, _) in KINDS {
        m.insert(f.into(), json!([]));
    }
    Value::Object(m)
}
fn push_param(e: &mut Value, kind: usize, id: &str, data: Value) {
    e[KINDS[kind].0].as_array_mut().unwrap().push(json!({"param_id": id, "data": data}));
}
fn matl_of(entries: Vec<Value>) -> Value {
    json!({"major_version": 1, "minor_version": 6, "entries": entries})
}

fn c20(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    for vi in [0usize, 1] {
        for rot in 0..9 {
            let k = if thorough { 2 } else { 1 };
            out.push(scenario(format!("file-{vi}-{rot}"), k, move |ctx: &mut Ctx| {
                let mut g = Gen { rot, ..Gen::standard(1) };
                raw_case::<MatlData, _>(ctx, "Matl", vi, &mut g, |r| Some(matl_data_of(r)), write_matl)
            }));
        }
        out.push(scenario(format!("same-{vi}"), 1, move |ctx: &mut Ctx| {
            let rot = ctx.free(9);
            let g = Gen::same(ctx, 2);
            raw_case::<MatlData, _>(ctx, "Matl", vi, &mut Gen { rot, ..g }, |r| Some(matl_data_of(r)), write_matl)
        }));
        out.push(scenario(format!("mixed-{vi}"), 1, move |ctx: &mut Ctx| {
            let deflen = 2 + ctx.free(if thorough { 4 } else { 2 });
            raw_case::<MatlData, _>(ctx, "Matl", vi, &mut Gen::standard(deflen), |r| Some(matl_data_of(r)), write_matl)
        }));
        // all sequences of attribute kinds in a file, including ones of no known kind
        out.push(scenario(format!("order-{vi}"), 0, move |ctx: &mut Ctx| {
            let r = samples::root("Matl");
            let n = ctx.free(if thorough { 6 } else { 5 });
            let ver = &r.versions[vi];
            let Def::Union { vars } = &Schema::get().defs[if vi == 0 { "matl.ParamV15" } else { "matl.ParamV16" }] else { panic!() };
            let mut g = Gen::structural(1);
            let mut c = Ctx::new(vec![], false);
            let ids = symbols("matl.ParamId").len();
            let attrs: Vec<Val> = (0..n)
                .map(|i| {
                    let kind = ctx.free(vars.len() + 1);
                    let p = if kind == vars.len() { Val::Null } else { Val::Variant(kind, Box::new(g.val(&mut c, &vars[kind].2))) };
                    Val::Struct(vec![Val::Sym((i * 37 + 5) % ids), p])
                })
                .collect();
            let entry = Val::Struct(vec![Val::Str(Some(b"m".to_vec())), Val::List(attrs), Val::Str(Some(b"s".to_vec()))]);
            let val = Val::Struct(vec![Val::List(vec![entry])]);
            let want = matl_data_of(&file_json(r, ver, &val));
            note_val(ctx, &want);
            let got: MatlData = dread(&encode_file(r, ver, &val, Layout::Canonical, false).buf, "read:Matl")?;
            same("read", &want, &serde_json::to_value(&got).unwrap(), "data in the file vs data read")?;
            if n <= 3 {
                write_matl(ctx, &want)?;
            }
            ctx.step();
            Ok(n > 0)
        }));
    }
    out.push(scenario("ids", 0, |ctx: &mut Ctx| {
        let ids = symbols("matl.ParamId");
        let i = ctx.free(ids.len());
        let kind = ctx.free(8);
        let mut e = empty_entry("m");
        push_param(&mut e, kind, &ids[i], param(kind, i));
        push_param(&mut e, kind, &ids[(i + 1) % ids.len()], param(kind, i + 1));
        // the same identifier may occur again
        push_param(&mut e, (kind + 1) % 8, &ids[i], param((kind + 1) % 8, i));
        push_param(&mut e, kind, &ids[i], param(kind, i + 2));
        let d = matl_of(vec![e]);
        note_val(ctx, &d);
        write_matl(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("counts", 0, move |ctx: &mut Ctx| {
        let m = if thorough { 4 } else { 3 };
        let ids = symbols("matl.ParamId");
        let mut e = empty_entry("m");
        for kind in 0..8 {
            for i in 0..ctx.free(m) {
                push_param(&mut e, kind, &ids[(kind * 31 + i * 7) % ids.len()], param(kind, kind + i));
            }
        }
        let d = matl_of(vec![e]);
        note_val(ctx, &d);
        write_matl(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("entries", 0, move |ctx: &mut Ctx| {
        let labels = ["", "a", "alpha", "a"];
        let n = ctx.free(if thorough { 6 } else { 5 });
        let entries = (0..n)
            .map(|_| {
                let l = labels[ctx.free(4)];
                let kind = if thorough { ctx.free(3) } else { 0 };
                let mut e = empty_entry(l);
                push_param(&mut e, kind * 3, "Texture0", param(kind * 3, l.len()));
                e
            })
            .collect();
        let d = matl_of(entries);
        note_val(ctx, &d);
        write_matl(ctx, &d)?;
        Ok(n > 0)
    }));
    // many entries and many parameters of one kind
    out.push(scenario("many", 0, move |ctx: &mut Ctx| {
        let n = [127usize, 128, 129, 255, 256, 257, 300, 1025, if thorough { 65537 } else { 4097 }][ctx.free(9)];
        let kind = ctx.free(8);
        let ids = symbols("matl.ParamId");
        let d = if ctx.free(2) == 0 {
            let mut e = empty_entry("m");
            for i in 0..n {
                push_param(&mut e, kind, &ids[i * 7 % ids.len()], param(kind, i));
            }
            push_param(&mut e, (kind + 1) % 8, &ids[0], param((kind + 1) % 8, 1));
            matl_of(vec![e])
        } else {
            matl_of(
                (0..n)
                    .map(|i| {
                        let mut e = empty_entry(&format!("m{i}"));
                        push_param(&mut e, kind, &ids[i % ids.len()], param(kind, i));
                        e
                    })
                    .collect(),
            )
        };
        note_val(ctx, &d);
        write_matl(ctx, &d)?;
        Ok(true)
    }));
    // all combinations of enumerated fields of one state
    out.push(scenario("samplers", 0, move |ctx: &mut Ctx| {
        let (w, mn, mg, a) = (symbols("matl.WrapMode"), symbols("matl.MinFilter"), symbols("matl.MagFilter"), symbols("matl.MaxAnisotropy"));
        let mut p = param(5, 0);
        for k in ["wraps", "wrapt", "wrapr"] {
            p[k] = json!(w[ctx.free(w.len())]);
        }
        p["min_filter"] = json!(mn[ctx.free(mn.len())]);
        p["mag_filter"] = json!(mg[ctx.free(mg.len())]);
        p["max_anisotropy"] = json!(a[ctx.free(a.len())]);
        let mut e = empty_entry("m");
        push_param(&mut e, 5, "Sampler0", p);
        let d = matl_of(vec![e]);
        note_val(ctx, &d);
        write_matl(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("blends", 0, move |ctx: &mut Ctx| {
        let (b, o) = (symbols("matl.BlendFactor"), symbols("matl.BlendOperation"));
        let mut p = param(0, 0);
        let half = ctx.free(2);
        let (s, op, t) = if half == 0 { (BLEND[0], BLEND[1], BLEND[2]) } else { (BLEND[3], BLEND[4], BLEND[5]) };
        p[s] = json!(b[ctx.free(b.len())]);
        p[op] = json!(o[ctx.free(o.len())]);
        p[t] = json!(b[ctx.free(b.len())]);
        p["alpha_sample_to_coverage"] = json!(ctx.free(2) == 1);
        let mut e = empty_entry("m");
        push_param(&mut e, 0, "BlendState0", p);
        let d = matl_of(vec![e]);
        note_val(ctx, &d);
        write_matl(ctx, &d)?;
        Ok(true)
    }));
    out.push(scenario("versions", 0, move |ctx: &mut Ctx| {
        let vs = [0u16, 1, 2, 4, 5, 6, 7, 8, 255, 256, 262, u16::MAX];
        let (a, b) = (vs[ctx.free(vs.len())], vs[ctx.free(vs.len())]);
        let mut v = samples::matl();
        if ctx.free(2) == 0 {
            v.entries.clear();
        }
        v.major_version = a;
        v.minor_version = b;
        ctx.hash_bytes(format!("{v:?}").as_bytes());
        ctx.step();
        let ok = dwrite(&v).is_ok();
        ensure!(ok == ((a, b) == (1, 6)), "version:write", "version {a}.{b} accepted: {ok}");
        Ok(true)
    }));
    out
}

// ---------------------------------------------------------------------------------------------
// skeletons

type M = [[f64; 4]; 4]; // columns

fn f64s(m: &[[f32; 4]; 4]) -> M {
    m.map(|c| c.map(|x| x as f64))
}
fn mul(a: &M, b: &M) -> M {
    let mut o = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            for k in 0..4 {
                o[c][r] += a[k][r] * b[c][k];
            }
        }
    }
    o
}
fn norm(a: &M) -> f64 {
    a.iter().flatten().fold(0.0, |m: f64, x| m.max(x.abs()))
}
fn dist(a: &M, b: &M) -> f64 {
    let mut m = 0.0f64;
    for c in 0..4 {
        for r in 0..4 {
            let d = (a[c][r] - b[c][r]).abs();
            m = if d.is_nan() { f64::INFINITY } else { m.max(d) };
        }
    }
    m
}
const ID: M = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
/// Gauss-Jordan elimination with pivoting.
fn inverse(a: &M) -> M {
    let mut m = [[0.0; 8]; 4];
    for r in 0..4 {
        for c in 0..4 {
            m[r][c] = a[c][r];
        }
        m[r][4 + r] = 1.0;
    }
    for c in 0..4 {
        let p = (c..4).max_by(|&x, &y| m[x][c].abs().total_cmp(&m[y][c].abs())).unwrap();
        m.swap(c, p);
        let d = m[c][c];
        m[c].iter_mut().for_each(|x| *x /= d);
        for r in 0..4 {
            if r != c {
                let f = m[r][c];
                for k in 0..8 {
                    m[r][k] -= f * m[c][k];
                }
            }
        }
    }
    let mut o = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[c][r] = m[r][4 + c];
        }
    }
    o
}

pub fn palette() -> Vec<[[f32; 4]; 4]> {
    vec![
        [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [1.0, 2.0, 3.0, 1.0]],
        [[0.0, 1.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [4.0, 0.0, -1.0, 1.0]],
        [[2.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, -0.5, 0.0, 0.0], [0.0, 1.0, 0.0, 1.0]],
        [[1.0, 0.0, 0.0, 0.0], [0.5, 1.0, 0.0, 0.0], [0.0, 0.25, -1.0, 0.0], [0.0, 0.0, 2.0, 1.0]],
        samples::mat([0.5, -1.0, 0.25], 0.7),
        [[1.0, 0.0, 0.0, 0.5], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [1.0, 0.0, 0.0, 1.0]],
    ]
}

fn parents_of(d: &SkelData) -> Vec<Option<usize>> {
    d.bones.iter().map(|b| b.parent_index).collect()
}
fn chain(p: &[Option<usize>], i: usize) -> Option<Vec<usize>> {
    let mut out = vec![i];
    let mut cur = p[i];
    while let Some(q) = cur {
        if q >= p.len() {
            break;
        }
        if out.contains(&q) {
            return None;
        }
        out.push(q);
        cur = p[q];
    }
    Some(out)
}
fn cyclic(p: &[Option<usize>]) -> bool {
    (0..p.len()).any(|i| chain(p, i).is_none())
}

fn mats(v: &Value) -> Vec<M> {
    items(v)
        .iter()
        .map(|m| {
            let mut o = [[0.0; 4]; 4];
            for (c, n) in ["col1", "col2", "col3", "col4"].iter().enumerate() {
                for (r, a) in ["x", "y", "z", "w"].iter().enumerate() {
                    o[c][r] = m[n][a].as_f64().unwrap_or(f64::NAN);
                }
            }
            o
        })
        .collect()
}

fn skel_case(ctx: &mut Ctx, d: &SkelData) -> RunResult {
    let p = parents_of(d);
    ctx.note(|| format!("{d:?}").chars().take(1000).collect());
    for b in &d.bones {
        ctx.hash_bytes(format!("{:?}{:?}{:?}{:?}", b.name, b.parent_index, b.billboard_type, b.transform).as_bytes());
    }
    ctx.step();
    if cyclic(&p) {
        for (i, b) in d.bones.iter().enumerate() {
            let r = d.calculate_world_transform(b);
            ensure!(r.is_ok() == chain(&p, i).is_some(), "cycle:world", "parents {p:?}: the world transform of bone {i} is {r:?}");
        }
        let r = Skel::try_from(d);
        ensure!(matches!(r, Err(ssbh_data::skel_data::error::Error::BoneTransform(_))), "cycle:accepted", "cyclic parents {p:?} gave {r:?}");
        ensure!(dwrite(d).is_err(), "cycle:written", "cyclic parents {p:?} were written");
        return Ok(true);
    }
    let worlds: Vec<M> = (0..p.len())
        .map(|i| {
            let c = chain(&p, i).unwrap();
            c.iter().skip(1).fold(f64s(&d.bones[i].transform), |m, &q| mul(&f64s(&d.bones[q].transform), &m))
        })
        .collect();
    for (i, b) in d.bones.iter().enumerate() {
        let w = d.calculate_world_transform(b).or_fail("world:error")?;
        ensure!(dist(&f64s(&w), &worlds[i]) <= 1e-4 * norm(&worlds[i]).max(1e-3), "world:value", "parents {p:?}: the world transform of bone {i} is {w:?}, expected {:?}", worlds[i]);
    }
    let b = dwrite(d).or_fail("write:Skel")?;
    let raw = fmt::json(&fmt::read(&b).or_fail("reread")?);
    let raw = &raw["Skel"]["V10"];
    let n = p.len();
    let entries = items(&raw["bone_entries"]);
    ensure!(entries.len() == n, "file:bones", "{} entries for {n} bones", entries.len());
    for (i, (e, b)) in entries.iter().zip(&d.bones).enumerate() {
        let want = json!({"name": b.name, "index": i, "parent_index": b.parent_index.map_or(-1, |x| x as i64), "billboard_type": serde_json::to_value(b.billboard_type).unwrap()});
        let got = json!({"name": e["name"], "index": e["index"], "parent_index": e["parent_index"], "billboard_type": e["flags"]["billboard_type"]});
        same("file", &want, &got, &format!("entry {i}"))?;
    }
    let (w, iw, t, it) = (mats(&raw["world_transforms"]), mats(&raw["inv_world_transforms"]), mats(&raw["transforms"]), mats(&raw["inv_transforms"]));
    ensure!([&w, &iw, &t, &it].iter().all(|l| l.len() == n), "file:matrices", "lists of {} {} {} {} matrices for {n} bones", w.len(), iw.len(), t.len(), it.len());
    for i in 0..n {
        let own = f64s(&d.bones[i].transform);
        ensure!(t[i] == own, "file:transform", "bone {i}: {:?} written for {own:?}", t[i]);
        ensure!(dist(&w[i], &worlds[i]) <= 1e-4 * norm(&worlds[i]).max(1e-3), "file:world", "parents {p:?}, bone {i}: world transform {:?}, expected {:?}", w[i], worlds[i]);
        for (name, m, inv) in [("inv_transform", &own, &it[i]), ("inv_world", &worlds[i], &iw[i])] {
            let want = inverse(m);
            ensure!(dist(inv, &want) <= 1e-3 * norm(&want).max(1e-3), format!("file:{name}"), "parents {p:?}, bone {i}: {inv:?}, expected {want:?}");
        }
    }
    let back: SkelData = dread(&b, "reread")?;
    ensure!(&back == d, "roundtrip:Skel", "written {d:?}, read {back:?}");
    ctx.steps += 3;
    Ok(n > 0)
}

fn bone(i: usize, parent: Option<usize>, transform: [[f32; 4]; 4], b: usize) -> BoneData {
    use BillboardType::*;
    let bs = [Disabled, XAxisViewPointAligned, YAxisViewPointAligned, Unk3, XYAxisViewPointAligned, YAxisViewPlaneAligned, XYAxisViewPlaneAligned];
    BoneData { name: format!("bone{i}"), transform, parent_index: parent, billboard_type: bs[b % 7] }
}

fn c19(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    out.push(scenario("raw", if thorough { 2 } else { 1 }, |ctx: &mut Ctx| {
        let deflen = 1 + ctx.free(3);
        raw_case::<SkelData, _>(ctx, "Skel", 0, &mut Gen::standard(deflen), skel_data_of, write_skel)
    }));
    out.push(scenario("raw-same", 2, |ctx: &mut Ctx| {
        let deflen = 1 + ctx.free(2);
        let mut g = Gen::same(ctx, deflen);
        raw_case::<SkelData, _>(ctx, "Skel", 0, &mut g, skel_data_of, write_skel)
    }));
    // all indices and parents of the bones of a file from elsewhere
    out.push(scenario("raw-indices", 0, move |ctx: &mut Ctx| {
        let r = samples::root("Skel");
        let mut val = samples::default_val(r, 0, 3, 0);
        let Val::Struct(f) = &mut val else { panic!() };
        let Val::List(bones) = &mut f[0] else { panic!() };
        for (i, b) in bones.iter_mut().enumerate() {
            let Val::Struct(b) = b else { panic!() };
            let ix = [0u64, 1, 2, 3, 0xffff, 0x8000];
            b[1] = Val::Int(ix[ctx.free(if thorough || i > 0 { 6 } else { 1 })]);
            b[2] = Val::Int([0u64, 1, 2, 3, 0xffff, 0x7fff, 0x8000][ctx.free(7)]);
        }
        let raw = file_json(r, &r.versions[0], &val);
        let Some(want) = skel_data_of(&raw) else { return Ok(false) };
        note_val(ctx, &want);
        let got: SkelData = dread(&encode_file(r, &r.versions[0], &val, Layout::Canonical, false).buf, "read:Skel")?;
        same("read", &want, &serde_json::to_value(&got).unwrap(), "data in the file vs data read")?;
        ctx.step();
        Ok(true)
    }));
    let max = if thorough { 6 } else { 5 };
    for n in 0..=max {
        out.push(scenario(format!("parents-{n}"), 0, move |ctx: &mut Ctx| {
            let pal = palette();
            let rot = ctx.free(if n < 4 { 6 } else if n == 4 { 3 } else { 1 });
            let missing = [n, n + 1, 32767][ctx.free(if n < 4 { 3 } else { 1 })];
            let bones = (0..n)
                .map(|i| {
                    let p = match ctx.free(n + 2) {
                        0 => None,
                        x if x <= n => Some(x - 1),
                        _ => Some(missing),
                    };
                    bone(i, p, pal[(i + rot) % 6], i + rot)
                })
                .collect();
            skel_case(ctx, &SkelData { major_version: 1, minor_version: 0, bones })
        }));
    }
    // all assignments of transforms along short chains, in every order of bones
    out.push(scenario("transforms", 0, move |ctx: &mut Ctx| {
        let pal = palette();
        let n = 1 + ctx.free(if thorough { 4 } else { 3 });
        let mut left: Vec<usize> = (0..n).collect();
        let order: Vec<usize> = (0..n).map(|i| { let k = ctx.free(n - i); left.remove(k) }).collect();
        // bone order[j] is the j-th from the root
        let mut bones: Vec<BoneData> = (0..n).map(|i| bone(i, None, pal[0], i)).collect();
        for j in 0..n {
            bones[order[j]].transform = pal[ctx.free(6)];
            bones[order[j]].parent_index = if j == 0 { None } else { Some(order[j - 1]) };
        }
        skel_case(ctx, &SkelData { major_version: 1, minor_version: 0, bones })
    }));
    // scales of every magnitude, together and alone
    out.push(scenario("scales", 0, move |ctx: &mut Ctx| {
        const SCALES: [f32; 16] = [1.0, 0.5, 0.1, 0.01, 0.004, 0.001, 1e-4, 1e-6, 1e-9, 1e-12, -0.001, 10.0, 1000.0, 1e6, 1e9, 1e12];
        let s: [f32; 3] = std::array::from_fn(|i| SCALES[if thorough || i == 0 { ctx.free(16) } else { ctx.free(4) * 5 }]);
        let same = ctx.free(2) == 1;
        let child = ctx.free(3);
        // (determinants of products stay within single precision)
        if child == 1 && s.iter().any(|x| x.abs() > 2e6 || x.abs() < 5e-7) {
            return Ok(false);
        }
        let mut t = palette()[1];
        for i in 0..3 {
            for x in t[i].iter_mut().take(3) {
                *x *= s[if same { 0 } else { i }];
            }
        }
        let mut bones = vec![bone(0, None, t, 0), bone(1, Some(0), palette()[2], 1)];
        match child {
            1 => bones[1].transform = t,
            2 => bones.swap(0, 1),
            _ => {}
        }
        if child == 2 {
            bones[1].parent_index = None;
            bones[0].parent_index = Some(1);
        }
        skel_case(ctx, &SkelData { major_version: 1, minor_version: 0, bones })
    }));
    // long chains, also ending in cycles of every length
    out.push(scenario("chains", 0, move |ctx: &mut Ctx| {
        const LONG: [usize; 12] = [127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 1025, 2049];
        let max = if thorough { 300 } else { 70 };
        let n = 1 + ctx.free(max + LONG.len());
        let n = if n > max { LONG[n - max - 1] } else { n };
        let rev = ctx.free(2) == 1;
        let cycle = if n <= 40 { ctx.free(n + 1) } else { ctx.free(2) * n };
        // rotations of 90 degrees and small steps, so that nothing grows
        let t = |i: usize| {
            let mut m = palette()[1];
            if i % 3 == 0 {
                m = [[0.0, 0.0, 1.0, 0.0], [0.0, 1.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [0.0, 0.5, 0.0, 1.0]];
            }
            m[3][0] = (i % 5) as f32 - 2.0;
            m
        };
        let at = |i: usize| if rev { n - 1 - i } else { i };
        let mut bones: Vec<BoneData> = (0..n).map(|i| bone(i, None, t(i), i)).collect();
        for i in 1..n {
            bones[at(i)].parent_index = Some(at(i - 1));
        }
        if cycle > 0 {
            bones[at(0)].parent_index = Some(at(cycle - 1));
        }
        skel_case(ctx, &SkelData { major_version: 1, minor_version: 0, bones })
    }));
    out.push(scenario("names", 0, move |ctx: &mut Ctx| {
        let names = ["", "a", "Trans", "é漢🦀", "a"];
        let n = 1 + ctx.free(3);
        let bones = (0..n)
            .map(|i| {
                let mut b = bone(i, i.checked_sub(1), palette()[i], ctx.free(7));
                b.name = names[ctx.free(5)].into();
                b
            })
            .collect();
        skel_case(ctx, &SkelData { major_version: 1, minor_version: 0, bones })
    }));
    // numbers of bones beyond one byte: chains, stars and trees
    out.push(scenario("many", 0, move |ctx: &mut Ctx| {
        let n = [127usize, 128, 129, 255, 256, 257, 300, 600][ctx.free(8)];
        let shape = ctx.free(4);
        let pal = palette();
        let id = ID.map(|c| c.map(|x| x as f32));
        let bones = (0..n)
            .map(|i| {
                let parent = match shape {
                    0 => (i > 0).then(|| i / 2),
                    1 => (i > 0).then_some(0),
                    // parents that come later
                    2 => (i + 1 < n).then(|| n - 1 - (n - 1 - i) / 2).filter(|p| *p != i),
                    _ => (i >= 250).then(|| i - 250),
                };
                bone(i, parent.filter(|p| *p != i), if i % 40 == 7 { pal[i / 40 % pal.len()] } else { id }, i % 7)
            })
            .collect();
        skel_case(ctx, &SkelData { major_version: 1, minor_version: 0, bones }).map_err(|mut f| {
            f.msg.truncate(600);
            f
        })
    }));
    // parents that a file can not store are never replaced by others
    out.push(scenario("large", 0, move |ctx: &mut Ctx| {
        let ps = [32766usize, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 1 << 31, 1 << 32, usize::MAX - 1, usize::MAX];
        let p = ps[ctx.free(ps.len())];
        let n = 1 + ctx.free(2);
        let bones = (0..n).map(|i| bone(i, if i + 1 == n { Some(p) } else { None }, palette()[i], 0)).collect();
        let d = SkelData { major_version: 1, minor_version: 0, bones };
        ctx.hash_bytes(format!("{n} {p}").as_bytes());
        ctx.step();
        match dwrite(&d) {
            Err(_) => ensure!(p > 32767, "large:rejected", "parent {p} rejected"),
            Ok(b) => {
                let back: SkelData = dread(&b, "reread")?;
                ensure!(back == d, "large:parent", "parent {p} came back as {:?}", back.bones[n - 1].parent_index);
            }
        }
        Ok(true)
    }));
    // relative transforms: the transform to store for a bone with a known world transform
    out.push(scenario("relative", 0, move |ctx: &mut Ctx| {
        let mut pal = palette();
        pal.push(ID.map(|c| c.map(|x| x as f32)));
        let n = pal.len();
        // products of two palette matrices
        let w = { let (a, b) = (ctx.free(n), ctx.free(n)); mul(&f64s(&pal[a]), &f64s(&pal[b])).map(|c| c.map(|x| x as f32)) };
        ctx.step();
        ctx.hash_bytes(format!("{w:?}").as_bytes());
        let i = ctx.free(n + 1);
        if i == n {
            ensure!(calculate_relative_transform(&w, None) == w, "relative:none", "without a parent {w:?} changes");
            return Ok(true);
        }
        ctx.hash_u64(i as u64);
        let p = f64s(&pal[i]);
        let got = f64s(&calculate_relative_transform(&w, Some(&pal[i])));
        let want = mul(&inverse(&p), &f64s(&w));
        if dist(&got, &want) <= 1e-3 * norm(&want).max(1e-3) {
            return Ok(true);
        }
        let swapped = mul(&f64s(&w), &inverse(&p));
        let key = if dist(&got, &swapped) <= 1e-3 * norm(&swapped).max(1e-3) { "relative:order" } else { "relative:value" };
        fail(key, format!("world {w:?} relative to {:?}: {got:?}, but only {want:?} gives the world transform again when it is accumulated", pal[i]))
    }));
    out
}
