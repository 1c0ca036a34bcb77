//! Representative values of the high-level types and their files.
use crate::schema::*;
use serde_json::Value;
use ssbh_data::anim_data::*;
use ssbh_data::matl_data::*;
use ssbh_data::mesh_data::*;
use ssbh_data::prelude::*;
use ssbh_data::skel_data::*;
use ssbh_data::{adj_data::*, hlpb_data::*, meshex_data::*, modl_data::*};
use ssbh_data::{Color4f, Vector3, Vector4};
use std::io::Cursor;

pub fn v3(a: f32) -> Vector3 {
    Vector3::new(a, a + 0.25, a * 2.0 - 1.0)
}
pub fn v4(a: f32) -> Vector4 {
    Vector4::new(a, a + 0.5, -a, 1.0 - a)
}

pub fn unit(x: f32, y: f32, z: f32, w: f32) -> Vector4 {
    let l = (x * x + y * y + z * z + w * w).sqrt();
    Vector4::new(x / l, y / l, z / l, w / l)
}

pub fn transform(i: usize) -> Transform {
    let f = i as f32;
    Transform {
        scale: Vector3::new(1.0 + f * 0.25, 1.0 + f * 0.5, 2.0 - f * 0.125),
        rotation: unit(0.1 * f, 0.2, -0.3 * f, if i % 2 == 0 { 1.0 } else { -1.0 }),
        translation: v3(f),
    }
}

pub fn track(name: &str, values: TrackValues) -> TrackData {
    TrackData { name: name.into(), compensate_scale: false, transform_flags: TransformFlags::default(), values }
}

/// One track of every type; `n` frames each.
pub fn tracks(n: usize) -> Vec<TrackData> {
    vec![
        track("Transform", TrackValues::Transform((0..n).map(transform).collect())),
        track("Uv", TrackValues::UvTransform((0..n).map(|i| { let f = i as f32; ssbh_data::anim_data::UvTransform { scale_u: f, scale_v: 1.0 + f, rotation: 0.5 * f, translate_u: -f, translate_v: 3.0 } }).collect())),
        track("Float", TrackValues::Float((0..n).map(|i| i as f32 * 0.5 - 1.0).collect())),
        track("Pattern", TrackValues::PatternIndex((0..n).map(|i| (i * i) as u32 + 3).collect())),
        track("Bool", TrackValues::Boolean((0..n).map(|i| i % 3 == 0).collect())),
        track("Vec", TrackValues::Vector4((0..n).map(|i| v4(i as f32)).collect())),
    ]
}

pub fn anim(minor: u16, tracks: Vec<TrackData>) -> AnimData {
    let last = tracks.iter().map(|t| t.values.len()).max().unwrap_or(0).max(1) - 1;
    AnimData {
        major_version: 2,
        minor_version: minor,
        final_frame_index: last as f32,
        groups: vec![GroupData { group_type: GroupType::Transform, nodes: vec![NodeData { name: "n".into(), tracks }] }],
    }
}

pub fn attr(name: &str, data: VectorData) -> AttributeData {
    AttributeData { name: name.into(), data }
}

pub fn mesh_object(name: &str, sub: u64, n: usize) -> MeshObjectData {
    let f = |k: f32| (0..n).map(|i| [i as f32 + k, (i * i) as f32 * 0.5 - k, 1.0 - i as f32]).collect::<Vec<_>>();
    let g = |k: f32| (0..n).map(|i| [i as f32 * 0.25 + k, 0.5 - k]).collect::<Vec<_>>();
    let h = |k: f32| (0..n).map(|i| [i as f32 * 0.25, k, 1.0, 0.0]).collect::<Vec<_>>();
    MeshObjectData {
        name: name.into(),
        subindex: sub,
        parent_bone_name: "".into(),
        sort_bias: -3,
        disable_depth_write: true,
        disable_depth_test: false,
        vertex_indices: (0..n as u32 / 3 * 3).collect(),
        positions: vec![attr("Position0", VectorData::Vector3(f(0.0)))],
        normals: vec![attr("Normal0", VectorData::Vector3(f(0.5)))],
        binormals: vec![],
        tangents: vec![attr("Tangent0", VectorData::Vector4(h(0.5)))],
        texture_coordinates: vec![attr("map1", VectorData::Vector2(g(0.0)))],
        color_sets: vec![attr("colorSet1", VectorData::Vector4(h(0.25)))],
        bone_influences: vec![],
    }
}

pub fn mesh(minor: u16) -> MeshData {
    let mut a = mesh_object("obj", 0, 3);
    a.bone_influences = vec![
        BoneInfluence { bone_name: "b0".into(), vertex_weights: vec![VertexWeight { vertex_index: 0, vertex_weight: 0.5 }, VertexWeight { vertex_index: 2, vertex_weight: 1.0 }] },
        BoneInfluence { bone_name: "b1".into(), vertex_weights: vec![VertexWeight { vertex_index: 0, vertex_weight: 0.5 }] },
    ];
    let mut b = mesh_object("b", 1, 3);
    b.normals.clear();
    b.tangents.clear();
    b.color_sets.clear();
    b.parent_bone_name = "b1".into();
    MeshData { major_version: 1, minor_version: minor, objects: vec![a, b] }
}

pub fn mat(t: [f32; 3], r: f32) -> [[f32; 4]; 4] {
    let (s, c) = r.sin_cos();
    [[c, s, 0.0, 0.0], [-s, c, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [t[0], t[1], t[2], 1.0]]
}

pub fn skel() -> SkelData {
    SkelData {
        major_version: 1,
        minor_version: 0,
        bones: vec![
            BoneData { name: "root".into(), transform: mat([1.0, 2.0, 3.0], 0.5), parent_index: None, billboard_type: BillboardType::Disabled },
            BoneData { name: "a".into(), transform: mat([0.0, 1.0, 0.0], 0.25), parent_index: Some(0), billboard_type: BillboardType::YAxisViewPlaneAligned },
            BoneData { name: "b".into(), transform: mat([0.5, 0.0, -1.0], 1.0), parent_index: Some(1), billboard_type: BillboardType::Disabled },
        ],
    }
}

pub fn matl() -> MatlData {
    MatlData {
        major_version: 1,
        minor_version: 6,
        entries: vec![MatlEntryData {
            material_label: "mat".into(),
            shader_label: "SFX_PBS_0100000008008269_opaque".into(),
            blend_states: vec![ParamData::new(ParamId::BlendState0, Default::default())],
            floats: vec![ParamData::new(ParamId::CustomFloat0, 0.75)],
            booleans: vec![ParamData::new(ParamId::CustomBoolean1, true)],
            vectors: vec![ParamData::new(ParamId::CustomVector13, v4(0.5))],
            rasterizer_states: vec![ParamData::new(ParamId::RasterizerState0, Default::default())],
            samplers: vec![ParamData::new(ParamId::Sampler0, SamplerData { max_anisotropy: MaxAnisotropy::Four, border_color: Color4f { r: 0.1, g: 0.2, b: 0.3, a: 0.4 }, ..Default::default() })],
            textures: vec![ParamData::new(ParamId::Texture0, "/common/tex".to_string())],
            uv_transforms: vec![ParamData::new(ParamId::UvTransform0, ssbh_lib::formats::matl::UvTransform { scale_u: 1.0, scale_v: 2.0, rotation: 3.0, translate_u: 4.0, translate_v: 5.0 })],
        }],
    }
}

pub fn modl() -> ModlData {
    ModlData {
        major_version: 1,
        minor_version: 7,
        model_name: "model".into(),
        skeleton_file_name: "model.nusktb".into(),
        material_file_names: vec!["model.numatb".into(), "b.numatb".into()],
        animation_file_name: Some("anim".into()),
        mesh_file_name: "model.numshb".into(),
        entries: vec![ModlEntryData { mesh_object_name: "obj".into(), mesh_object_subindex: 3, material_label: "mat".into() }],
    }
}

pub fn hlpb() -> HlpbData {
    HlpbData {
        major_version: 1,
        minor_version: 1,
        aim_constraints: vec![AimConstraintData {
            name: "aim".into(),
            aim_bone_name1: "a1".into(),
            aim_bone_name2: "a2".into(),
            aim_type1: "DEFAULT".into(),
            aim_type2: "DEF".into(),
            target_bone_name1: "t1".into(),
            target_bone_name2: "t2".into(),
            unk1: 1,
            unk2: 2,
            aim: v3(0.1),
            up: v3(0.2),
            quat1: v4(0.3),
            quat2: v4(0.4),
        }],
        orient_constraints: vec![OrientConstraintData {
            name: "ori".into(),
            parent_bone_name1: "p1".into(),
            parent_bone_name2: "p2".into(),
            source_bone_name: "s".into(),
            target_bone_name: "t".into(),
            unk_type: 2,
            constraint_axes: v3(1.1),
            quat1: v4(1.2),
            quat2: v4(1.3),
            range_min: v3(1.4),
            range_max: v3(1.5),
        }],
    }
}

pub fn meshex() -> MeshExData {
    let g = |n: &str, k: f32, flags: Vec<EntryFlags>| MeshObjectGroupData {
        bounding_sphere: BoundingSphere { center: v3(k), radius: k + 1.0 },
        mesh_object_full_name: format!("{n}_VIS_O_OBJShape"),
        mesh_object_name: n.to_string(),
        entry_flags: flags,
    };
    MeshExData {
        mesh_object_groups: vec![
            g("obj", 0.5, vec![EntryFlags { draw_model: true, cast_shadow: false }, EntryFlags { draw_model: false, cast_shadow: true }]),
            g("b", 2.0, vec![EntryFlags { draw_model: true, cast_shadow: true }]),
        ],
    }
}

pub fn adj() -> AdjData {
    AdjData { entries: vec![AdjEntryData { mesh_object_index: 0, vertex_adjacency: vec![0, 1, -1] }, AdjEntryData { mesh_object_index: 2, vertex_adjacency: vec![5, -1] }] }
}

/// A shader binary with one entry of every kind, encoded from the structure documented in shdr_data.rs.
pub fn shader_binary(names: &[&str], code: usize) -> Vec<u8> {
    let mut b = vec![0u8; 2896 + code];
    let put = |b: &mut Vec<u8>, at: usize, v: u32| {
        if b.len() < at + 4 {
            b.resize(at + 4, 0);
        }
        b[at..at + 4].copy_from_slice(&v.to_le_bytes());
    };
    let entry = b.len();
    let sizes = [108usize, 164, 92, 92];
    let mut off = 0usize;
    let header = 288;
    // strings after the entries
    let strings_at: usize = sizes.iter().sum();
    let mut soff = 0usize;
    let mut string_bytes = vec![];
    for k in 0..4 {
        put(&mut b, header + 12 + 32 + 8 * k, 1);
        put(&mut b, header + 12 + 32 + 8 * k + 4, off as u32);
        let at = entry + off;
        put(&mut b, at, soff as u32);
        put(&mut b, at + 4, names[k].len() as u32 + 1);
        let f = at + 8 + 32;
        match k {
            0 => {
                for (i, v) in [64u32, 3, 1, 2, u32::MAX, 7, 8, 9, 10].iter().enumerate() {
                    put(&mut b, f + 4 * i, *v);
                }
            }
            1 => {
                put(&mut b, f, 39);
                for i in 1..16 {
                    put(&mut b, f + 4 * i, 100 + i as u32);
                }
            }
            _ => {
                put(&mut b, f, if k == 2 { 37 } else { 38 });
                for i in 1..5 {
                    put(&mut b, f + 4 * i, (10 * k + i) as u32);
                }
            }
        }
        string_bytes.extend(names[k].as_bytes());
        string_bytes.push(0);
        soff += names[k].len() + 1;
        off += sizes[k];
    }
    b.resize(entry + strings_at, 0);
    b.extend(&string_bytes);
    put(&mut b, header, 12345);
    put(&mut b, header + 4, entry as u32);
    let h2 = header + 12 + 32 + 32;
    for i in 0..5 {
        put(&mut b, h2 + 4 * i, i as u32);
    }
    put(&mut b, h2 + 20, 0);
    put(&mut b, h2 + 24, string_bytes.len() as u32);
    put(&mut b, h2 + 28, strings_at as u32);
    put(&mut b, 2504, code as u32);
    b
}

/// Fills `Val` trees by field name.
pub fn root(name: &str) -> &'static Root {
    Schema::get().roots.iter().find(|r| r.name == name).unwrap()
}

pub fn default_val(r: &Root, vi: usize, deflen: usize, rot: usize) -> Val {
    let mut g = Gen::structural(deflen);
    g.rot = rot;
    let mut c = crate::explore::Ctx::new(vec![], false);
    g.val(&mut c, &r.versions[vi].body)
}

pub fn bytes_of<T: SsbhData>(d: &T) -> Vec<u8> {
    let mut c = Cursor::new(vec![]);
    d.write(&mut c).map_err(|e| e.to_string()).expect("sample is writable");
    c.into_inner()
}

/// An operation that reads bytes into a high-level type.
pub type DataRead = fn(&[u8]) -> Result<Value, String>;

pub fn dread<T: SsbhData + serde::Serialize>(b: &[u8]) -> Result<Value, String> {
    T::read(&mut Cursor::new(b)).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
}
pub fn dok<T: SsbhData>(b: &[u8]) -> bool {
    T::read(&mut Cursor::new(b)).is_ok()
}
pub fn shdr_ok(b: &[u8]) -> bool {
    ShdrData::read(&mut Cursor::new(b)).is_ok()
}
pub fn meta_ok(b: &[u8]) -> bool {
    ssbh_data::shdr_data::MetaData::read(&mut Cursor::new(b)).is_ok()
}
pub fn shdr_read(b: &[u8]) -> Result<Value, String> {
    ShdrData::read(&mut Cursor::new(b)).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
}
pub fn meta_read(b: &[u8]) -> Result<Value, String> {
    ssbh_data::shdr_data::MetaData::read(&mut Cursor::new(b)).map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())
}

/// A shader file around one shader binary.
pub fn shdr_file(name: &str, binary: &[u8]) -> Vec<u8> {
    use ssbh_lib::formats::shdr::*;
    let s = Shdr::V12 { shaders: vec![Shader { name: name.into(), shader_stage: ShaderStage::Vertex, unk3: 2, shader_binary: binary.to_vec().into(), binary_size: binary.len() as u64 }].into() };
    let mut c = Cursor::new(vec![]);
    s.write(&mut c).unwrap();
    c.into_inner()
}

/// A version 1.2 animation with one property per known buffer header.
pub fn anim12(bufs: &[Vec<u8>]) -> Vec<u8> {
    use ssbh_lib::formats::anim::*;
    let props: Vec<Property> = (0..bufs.len()).map(|i| Property { name: format!("p{i}").as_str().into(), buffer_index: i as u64 }).collect();
    let a = Anim::V12 {
        name: "anim".into(),
        unk1: 0.0,
        final_frame_index: 4.0,
        unk2: 1.0,
        unk3: 2.0,
        tracks: vec![TrackV1 { name: "t".into(), track_type: TrackTypeV1::Transform, properties: props.into() }].into(),
        buffers: bufs.iter().map(|b| b.clone().into()).collect::<Vec<ssbh_lib::SsbhByteBuffer>>().into(),
    };
    let mut c = Cursor::new(vec![]);
    a.write(&mut c).unwrap();
    c.into_inner()
}

pub fn anim12_bufs() -> Vec<Vec<u8>> {
    [0x1003u32, 0x2003, 0x3003, 0x4003, 0x1013, 0x3409, 0x4308, 0x4409, 0x77]
        .iter()
        .map(|h| {
            let mut b = h.to_le_bytes().to_vec();
            b.extend((0..96u8).map(|x| x.wrapping_mul(3)));
            if *h == 0x4308 {
                // the number of bytes that follow
                b[4..8].copy_from_slice(&5u32.to_le_bytes());
            }
            b
        })
        .collect()
}

pub struct DataSample {
    pub name: &'static str,
    pub bytes: Vec<u8>,
    pub read: DataRead,
    pub ok: fn(&[u8]) -> bool,
}

pub fn data_samples() -> Vec<DataSample> {
    let mut v = vec![];
    let mut add = |name: &'static str, bytes: Vec<u8>, read: DataRead, ok: fn(&[u8]) -> bool| v.push(DataSample { name, bytes, read, ok });
    // direct tracks, then one file per compressed track type
    add("anim20-direct", bytes_of(&anim(0, tracks(2))), dread::<AnimData>, dok::<AnimData>);
    let names = ["anim21-transform", "anim21-uv", "anim21-float", "anim21-pattern", "anim21-bool", "anim21-vec4"];
    let frames = [8, 9, 12, 12, 36, 10];
    for i in 0..6 {
        add(names[i], bytes_of(&anim(1, vec![tracks(frames[i])[i].clone()])), dread::<AnimData>, dok::<AnimData>);
    }
    let mut uni = tracks(9)[0].clone();
    if let TrackValues::Transform(t) = &mut uni.values {
        for x in t.iter_mut() {
            x.scale = Vector3::new(x.scale.x, x.scale.x, x.scale.x);
            x.translation = v3(1.0);
        }
    }
    uni.compensate_scale = true;
    add("anim21-uniform", bytes_of(&anim(1, vec![uni])), dread::<AnimData>, dok::<AnimData>);
    add("anim12", anim12(&anim12_bufs()), dread::<AnimData>, dok::<AnimData>);
    add("mesh8", bytes_of(&mesh(8)), dread::<MeshData>, dok::<MeshData>);
    add("mesh9", bytes_of(&mesh(9)), dread::<MeshData>, dok::<MeshData>);
    add("mesh10", bytes_of(&mesh(10)), dread::<MeshData>, dok::<MeshData>);
    add("skel", bytes_of(&skel()), dread::<SkelData>, dok::<SkelData>);
    add("matl16", bytes_of(&matl()), dread::<MatlData>, dok::<MatlData>);
    add("modl", bytes_of(&modl()), dread::<ModlData>, dok::<ModlData>);
    add("hlpb", bytes_of(&hlpb()), dread::<HlpbData>, dok::<HlpbData>);
    add("meshex", bytes_of(&meshex()), dread::<MeshExData>, dok::<MeshExData>);
    add("adj", bytes_of(&adj()), dread::<AdjData>, dok::<AdjData>);
    add("shdr", shdr_file("sh", &shader_binary(&["buf", "uniform", "in", "gl_Position"], 32)), shdr_read, shdr_ok);
    add("shaderbin", shader_binary(&["buf", "uniform", "in", "gl_Position"], 32), meta_read, meta_ok);
    v
}
