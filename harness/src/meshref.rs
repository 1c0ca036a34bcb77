//! Independent view of raw mesh files: a version-neutral copy of the structures and a decoder of
//! the vertex, index and weight buffers that shares nothing with the library.
use ssbh_lib::formats::mesh::*;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dt {
    F2,
    F3,
    F4,
    H2,
    H4,
    B4,
}
impl Dt {
    pub fn comps(self) -> usize {
        match self {
            Dt::F2 | Dt::H2 => 2,
            Dt::F3 => 3,
            _ => 4,
        }
    }
    pub fn width(self) -> usize {
        match self {
            Dt::F2 | Dt::F3 | Dt::F4 => 4,
            Dt::H2 | Dt::H4 => 2,
            Dt::B4 => 1,
        }
    }
    pub fn size(self) -> usize {
        self.comps() * self.width()
    }
}
pub const DTS: [Dt; 6] = [Dt::F3, Dt::F2, Dt::F4, Dt::H4, Dt::B4, Dt::H2];

/// position, normal, binormal, tangent, texture coordinate, color set
pub const USAGES: [&str; 6] = ["Position", "Normal", "Binormal", "Tangent", "TextureCoordinate", "colorSet"];

#[derive(Clone, Debug)]
pub struct RAttr {
    pub usage: usize,
    pub dt: Dt,
    pub buf: u32,
    pub off: u32,
    pub sub: u64,
    pub names: Option<Vec<String>>,
}
#[derive(Clone, Debug)]
pub struct RObj {
    pub name: String,
    pub sub: u64,
    pub parent: String,
    pub vcount: usize,
    pub icount: usize,
    pub voff: [u32; 4],
    pub stride: [u32; 4],
    pub ioff: usize,
    pub u32_indices: bool,
    pub skinned: u32,
    pub bias: i32,
    pub depth: (u8, u8),
    pub bounds: BoundingInfo,
    pub attrs: Vec<RAttr>,
}
pub type RWeights = Vec<(u32, u32)>;
#[derive(Clone, Debug)]
pub struct RGroup {
    pub name: String,
    pub sub: u64,
    pub max: u8,
    pub bones: Vec<(String, RWeights)>,
}
#[derive(Clone, Debug)]
pub struct RMesh {
    pub minor: u16,
    pub bounds: BoundingInfo,
    pub objs: Vec<RObj>,
    pub sizes: Vec<u32>,
    pub index_size: u64,
    pub bufs: Vec<Vec<u8>>,
    pub index: Vec<u8>,
    pub groups: Vec<RGroup>,
}

fn s(x: &ssbh_lib::SsbhString) -> String {
    x.to_str().unwrap_or("<null>").to_string()
}
fn dt8(d: AttributeDataTypeV8) -> Dt {
    match d as u32 {
        820 => Dt::F3,
        1076 => Dt::F4,
        1077 => Dt::H4,
        1079 => Dt::F2,
        _ => Dt::B4,
    }
}
fn dt10(d: AttributeDataTypeV10) -> Dt {
    match d as u32 {
        0 => Dt::F3,
        2 => Dt::B4,
        4 => Dt::F4,
        5 => Dt::H4,
        7 => Dt::F2,
        _ => Dt::H2,
    }
}
fn usage8(u: AttributeUsageV8) -> usize {
    match u as u32 {
        8 => 5,
        u => u as usize,
    }
}
fn names(a: &ssbh_lib::SsbhArray<ssbh_lib::SsbhString>) -> Option<Vec<String>> {
    Some(a.elements.iter().map(s).collect())
}

macro_rules! norm {
    ($minor:expr, $m:expr, $attr:expr, $weights:expr) => {
        RMesh {
            minor: $minor,
            bounds: $m.bounding_info,
            objs: $m
                .objects
                .elements
                .iter()
                .map(|o| RObj {
                    name: s(&o.name),
                    sub: o.subindex,
                    parent: s(&o.parent_bone_name),
                    vcount: o.vertex_count as usize,
                    icount: o.vertex_index_count as usize,
                    voff: [o.vertex_buffer0_offset, o.vertex_buffer1_offset, o.vertex_buffer2_offset, o.vertex_buffer3_offset],
                    stride: [o.stride0, o.stride1, o.stride2, o.stride3],
                    ioff: o.index_buffer_offset as usize,
                    u32_indices: o.draw_element_type == DrawElementType::UnsignedInt,
                    skinned: o.use_vertex_skinning,
                    bias: o.sort_bias,
                    depth: (o.depth_flags.disable_depth_write, o.depth_flags.disable_depth_test),
                    bounds: o.bounding_info,
                    attrs: o.attributes.elements.iter().map($attr).collect(),
                })
                .collect(),
            sizes: $m.buffer_sizes.elements.clone(),
            index_size: $m.polygon_index_size,
            bufs: $m.vertex_buffers.elements.iter().map(|b| b.elements.clone()).collect(),
            index: $m.index_buffer.elements.clone(),
            groups: $m
                .rigging_buffers
                .elements
                .iter()
                .map(|g| RGroup { name: s(&g.mesh_object_name), sub: g.mesh_object_subindex, max: g.flags.max_influences, bones: g.buffers.elements.iter().map(|b| (s(&b.bone_name), $weights(&b.data))).collect() })
                .collect(),
        }
    };
}

fn weights8(a: &ssbh_lib::SsbhArray<VertexWeightV8>) -> RWeights {
    a.elements.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect()
}
fn weights10(b: &ssbh_lib::SsbhByteBuffer) -> RWeights {
    b.elements.chunks_exact(6).map(|c| (u16::from_le_bytes([c[0], c[1]]) as u32, u32::from_le_bytes([c[2], c[3], c[4], c[5]]))).collect()
}

pub fn normalize(m: &Mesh) -> RMesh {
    match m {
        Mesh::V8(m) => norm!(8, m, |a| RAttr { usage: usage8(a.usage), dt: dt8(a.data_type), buf: a.buffer_index, off: a.buffer_offset, sub: a.subindex as u64, names: None }, weights8),
        Mesh::V9(m) => norm!(9, m, |a| RAttr { usage: a.usage as usize, dt: dt8(a.data_type), buf: a.buffer_index, off: a.buffer_offset, sub: a.subindex, names: names(&a.attribute_names) }, weights8),
        Mesh::V10(m) => norm!(10, m, |a| RAttr { usage: a.usage as usize, dt: dt10(a.data_type), buf: a.buffer_index, off: a.buffer_offset, sub: a.subindex, names: names(&a.attribute_names) }, weights10),
    }
}

pub fn half(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = (h >> 10 & 31) as i32;
    let m = (h & 1023) as f64;
    s * match e {
        0 => m * 2f64.powi(-24),
        31 if m == 0.0 => f64::INFINITY,
        31 => f64::NAN,
        _ => (1024.0 + m) * 2f64.powi(e - 25),
    }
}

/// Is `got` the half float nearest to `v` (either one for ties)?
pub fn nearest_half(v: f32, got: f32) -> bool {
    static T: OnceLock<Vec<f64>> = OnceLock::new();
    let t = T.get_or_init(|| (0..0x7c00u16).map(half).collect());
    let (a, g) = (v.abs() as f64, got.abs() as f64);
    if v.is_sign_negative() != got.is_sign_negative() {
        return false;
    }
    if g.is_infinite() {
        return a >= 65520.0;
    }
    let Ok(i) = t.binary_search_by(|x| x.partial_cmp(&g).unwrap()) else { return false };
    let d = (a - g).abs();
    a <= 65520.0 && (i == 0 || d <= (a - t[i - 1]).abs()) && (i + 1 == t.len() || d <= (a - t[i + 1]).abs())
}

/// Is `got` the fraction of 255 nearest to `v` clamped to 0..1 (either one for near ties)?
pub fn nearest_byte(v: f32, got: f32) -> bool {
    let k = (got as f64 * 255.0).round();
    (0.0..=255.0).contains(&k) && (got as f64 - k / 255.0).abs() < 1e-7 && (k - (v as f64).clamp(0.0, 1.0) * 255.0).abs() <= 0.5001
}

pub fn nearest(dt: Dt, v: f32, got: f32) -> bool {
    match dt {
        Dt::F2 | Dt::F3 | Dt::F4 => v.to_bits() == got.to_bits(),
        Dt::H2 | Dt::H4 => nearest_half(v, got),
        Dt::B4 => nearest_byte(v, got),
    }
}

/// Values of one attribute straight from the bytes; None when they are not there.
pub fn decode_attr(m: &RMesh, o: &RObj, a: &RAttr) -> Option<Vec<Vec<f32>>> {
    if a.buf > 3 {
        return None;
    }
    let b = m.bufs.get(a.buf as usize)?;
    let stride = o.stride[a.buf as usize] as usize;
    if o.vcount > 0 && stride == 0 {
        return None;
    }
    let base = o.voff[a.buf as usize] as usize + a.off as usize;
    let mut out = vec![];
    for i in 0..o.vcount {
        let at = base + i * stride;
        let e = b.get(at..at + a.dt.size())?;
        out.push(
            e.chunks(a.dt.width())
                .map(|c| match a.dt.width() {
                    4 => f32::from_bits(u32::from_le_bytes([c[0], c[1], c[2], c[3]])),
                    2 => half(u16::from_le_bytes([c[0], c[1]])) as f32,
                    _ => c[0] as f32 / 255.0,
                })
                .collect(),
        );
    }
    Some(out)
}

pub fn decode_indices(m: &RMesh, o: &RObj) -> Option<Vec<u32>> {
    let w = if o.u32_indices { 4 } else { 2 };
    if o.icount == 0 {
        return Some(vec![]);
    }
    let b = m.index.get(o.ioff..o.ioff + o.icount * w)?;
    Some(b.chunks(w).map(|c| if w == 4 { u32::from_le_bytes([c[0], c[1], c[2], c[3]]) } else { u16::from_le_bytes([c[0], c[1]]) as u32 }).collect())
}
