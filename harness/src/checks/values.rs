//! C34: the value types keep every component and element in its place.  Part of C09: the codes, names
//! and lists of variants of the public enumerations.
use crate::explore::*;
use crate::schema::{Def, Schema};
use crate::util::*;
use crate::{ensure, Check};
use ssbh_data::anim_data::{TrackValues, Transform, TransformFlags, UvTransform};
use ssbh_data::mesh_data::VectorData;
use ssbh_lib::formats::{anim, matl, nrpd, skel};
use ssbh_lib::{Color4f, Matrix3x3, Matrix4x4, Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8, Vector3, Vector4};
use ssbh_write::SsbhWrite;
use std::fmt::{Debug, Display};
use std::io::Cursor;
use std::str::FromStr;
use strum::IntoEnumIterator;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C34",
        level: "exploration",
        rule: "one case = one assignment of values from a palette to all components (or one list of elements) and all operations of the type on it; distinct by the assignment",
        assumptions: &[],
        scenarios: c34,
        hang_s: 60,
    }]
}

const P: [u32; 9] = [0x3f80_0000, 0xc020_0000, 0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0001, 1, 0x7f7f_ffff];

fn bits<const N: usize>(a: [f32; N]) -> [u32; N] {
    a.map(f32::to_bits)
}

/// The smaller (larger) value; if one of the two is no number, the other one.
fn extreme(a: u32, b: u32, least: bool) -> Vec<u32> {
    let (x, y) = (f32::from_bits(a), f32::from_bits(b));
    if x.is_nan() && y.is_nan() {
        return vec![a, b];
    }
    if x.is_nan() {
        return vec![b];
    }
    if y.is_nan() {
        return vec![a];
    }
    if x == y {
        return vec![a, b];
    }
    vec![if (x < y) == least { a } else { b }]
}

/// The bytes of a value in a file, and the value read from them.
fn stored<T: SsbhWrite + for<'a> binrw::BinRead<Args<'a> = ()>>(v: &T) -> Result<(Vec<u8>, T), Failure> {
    let mut c = Cursor::new(vec![]);
    v.write(&mut c).or_fail("write")?;
    let b = c.into_inner();
    let r = binrw::BinReaderExt::read_le::<T>(&mut Cursor::new(&b)).or_fail("read")?;
    Ok((b, r))
}
fn le(a: &[u32]) -> Vec<u8> {
    a.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn v3(b: [u32; 3]) -> Vector3 {
    Vector3 { x: f32::from_bits(b[0]), y: f32::from_bits(b[1]), z: f32::from_bits(b[2]) }
}
fn v4(b: [u32; 4]) -> Vector4 {
    Vector4 { x: f32::from_bits(b[0]), y: f32::from_bits(b[1]), z: f32::from_bits(b[2]), w: f32::from_bits(b[3]) }
}
fn b3(v: Vector3) -> [u32; 3] {
    bits([v.x, v.y, v.z])
}
fn b4(v: Vector4) -> [u32; 4] {
    bits([v.x, v.y, v.z, v.w])
}

fn ops3(a: [u32; 3], w: u32) -> Result<(), Failure> {
    let f = a.map(f32::from_bits);
    let v = v3(a);
    ensure!(b3(Vector3::new(f[0], f[1], f[2])) == a, "v3:new", "{f:?}");
    ensure!(bits(v.to_array()) == a, "v3:to_array", "{f:?}");
    ensure!(bits(<[f32; 3]>::from(v)) == a, "v3:into-array", "{f:?}");
    let t: (f32, f32, f32) = v.into();
    ensure!(bits([t.0, t.1, t.2]) == a, "v3:into-tuple", "{f:?}");
    ensure!(b3(Vector3::from(f)) == a, "v3:from-array", "{f:?}");
    ensure!(b3(Vector3::from((f[0], f[1], f[2]))) == a, "v3:from-tuple", "{f:?}");
    let e = v.extend(f32::from_bits(w));
    ensure!(b4(e) == [a[0], a[1], a[2], w], "v3:extend", "{f:?} and {w:x}: {e:?}");
    ensure!(b3(e.xyz()) == a, "v4:xyz", "{e:?}");
    let (b, r) = stored(&v)?;
    ensure!(b == le(&a) && b3(r) == a, "v3:file", "{f:?} stored as {b:x?}");
    Ok(())
}
fn ops4(a: [u32; 4]) -> Result<(), Failure> {
    let f = a.map(f32::from_bits);
    let v = v4(a);
    ensure!(b4(Vector4::new(f[0], f[1], f[2], f[3])) == a, "v4:new", "{f:?}");
    ensure!(bits(v.to_array()) == a, "v4:to_array", "{f:?}");
    ensure!(bits(<[f32; 4]>::from(v)) == a, "v4:into-array", "{f:?}");
    let t: (f32, f32, f32, f32) = v.into();
    ensure!(bits([t.0, t.1, t.2, t.3]) == a, "v4:into-tuple", "{f:?}");
    ensure!(b4(Vector4::from(f)) == a, "v4:from-array", "{f:?}");
    ensure!(b4(Vector4::from((f[0], f[1], f[2], f[3]))) == a, "v4:from-tuple", "{f:?}");
    ensure!(b3(v.xyz()) == [a[0], a[1], a[2]], "v4:xyz", "{f:?}");
    let (b, r) = stored(&v)?;
    ensure!(b == le(&a) && b4(r) == a, "v4:file", "{f:?} stored as {b:x?}");
    let c = Color4f { r: f[0], g: f[1], b: f[2], a: f[3] };
    let (b, r) = stored(&c)?;
    ensure!(b == le(&a) && bits([r.r, r.g, r.b, r.a]) == a, "color:file", "{f:?} stored as {b:x?}");
    Ok(())
}
fn pair<const N: usize>(what: &str, a: [u32; N], b: [u32; N], min: [u32; N], max: [u32; N]) -> Result<(), Failure> {
    for i in 0..N {
        ensure!(extreme(a[i], b[i], true).contains(&min[i]), format!("{what}:min"), "component {i} of the minimum of {a:x?} and {b:x?} is {:x}", min[i]);
        ensure!(extreme(a[i], b[i], false).contains(&max[i]), format!("{what}:max"), "component {i} of the maximum of {a:x?} and {b:x?} is {:x}", max[i]);
    }
    Ok(())
}

fn matrices(a: &[u32; 16]) -> Result<(), Failure> {
    let f = a.map(f32::from_bits);
    let c4: [[f32; 4]; 4] = std::array::from_fn(|i| std::array::from_fn(|j| f[i * 4 + j]));
    let c3: [[f32; 3]; 3] = std::array::from_fn(|i| std::array::from_fn(|j| f[i * 3 + j]));
    let m = Matrix4x4::from_cols_array(&c4);
    let cols = [m.col1, m.col2, m.col3, m.col4].map(b4);
    ensure!(cols == c4.map(bits), "m4:from_cols_array", "{c4:?}: {m:?}");
    ensure!(m.to_cols_array().map(bits) == c4.map(bits), "m4:to_cols_array", "{m:?}");
    let (b, r) = stored(&m)?;
    ensure!(b == le(a) && r.to_cols_array().map(bits) == c4.map(bits), "m4:file", "{c4:?} stored as {b:x?}");
    let m = Matrix3x3::from_cols_array(&c3);
    let cols = [m.col1, m.col2, m.col3].map(b3);
    ensure!(cols == c3.map(bits), "m3:from_cols_array", "{c3:?}: {m:?}");
    ensure!(m.to_cols_array().map(bits) == c3.map(bits), "m3:to_cols_array", "{m:?}");
    let (b, r) = stored(&m)?;
    ensure!(b == le(&a[..9]) && r.to_cols_array().map(bits) == c3.map(bits), "m3:file", "{c3:?} stored as {b:x?}");
    Ok(())
}

fn lists<T: Clone + PartialEq + Debug>(l: &[T]) -> Result<(), Failure> {
    let v = l.to_vec();
    let ways = [SsbhArray::from_vec(v.clone()), SsbhArray::from(v.clone()), v.iter().cloned().collect(), SsbhArray { elements: v.clone() }, v.clone().into()];
    // iterators that know their length, that do not, and that know a part of it
    let (mut i, mut k) = (0, v.len());
    let iters: [SsbhArray<T>; 9] = [
        v.iter().filter(|_| true).cloned().collect(),
        std::iter::from_fn(|| {
            i += 1;
            v.get(i - 1).cloned()
        })
        .collect(),
        v.iter().flat_map(|x| [x].into_iter()).cloned().collect(),
        v[..v.len() / 2].iter().chain(v[v.len() / 2..].iter().skip_while(|_| false)).cloned().collect(),
        v.chunks(2).flatten().cloned().collect(),
        v.iter().cloned().map(Some).chain([None]).map_while(|x| x).collect(),
        v.iter().rev().collect::<Vec<_>>().into_iter().rev().cloned().collect(),
        std::iter::repeat_with(|| {
            k -= 1;
            v[v.len() - 1 - k].clone()
        })
        .take(v.len())
        .collect(),
        (0..u64::MAX).map_while(|i| v.get(i as usize).cloned()).collect(),
    ];
    for (n, w) in iters.iter().enumerate() {
        ensure!(w.elements == v, "array:collect", "{v:?} collected in way {n}: {w:?}");
    }
    for w in &ways {
        ensure!(w.elements == v && *w == ways[0] && w.clone() == *w, "array:elements", "{v:?}: {w:?}");
    }
    let e = SsbhArray::<T>::new();
    ensure!(e.elements.is_empty() && SsbhArray::<T>::default() == e && (e == ways[0]) == v.is_empty(), "array:empty", "{v:?}");
    for n in 0..v.len() {
        ensure!(SsbhArray::from_vec(v[..n].to_vec()) != ways[0], "array:equal", "the first {n} of {v:?} equal all");
        let mut o = v.clone();
        o.remove(n);
        ensure!(SsbhArray::from_vec(o) != ways[0], "array:equal", "{v:?} without element {n} equals all");
    }
    let p = RelPtr64::new(v.clone());
    ensure!(*p == Some(v.clone()) && p.as_ref() == Some(&v) && p.clone() == p && RelPtr64::from(Some(v.clone())) == p, "ptr:value", "{v:?}");
    let null = RelPtr64::<Vec<T>>::null();
    ensure!(null.is_none() && null != p && null.clone() == null && RelPtr64::from(None::<Vec<T>>) == null, "ptr:null", "{v:?}");
    let mut q = null;
    *q = Some(v.clone());
    ensure!(q == p, "ptr:assign", "{v:?}");
    macro_rules! ptr {
        ($($t:ident),*) => {$(
            let p = $t::new(v.clone());
            ensure!(*p == Some(v.clone()) && p.clone() == p && $t::<Vec<T>>::null().is_none() && $t::null() != p, "ptr:absolute", "{v:?}");
            let mut q = p.clone();
            q.take();
            ensure!(q == $t::null() && p.as_ref() == Some(&v), "ptr:absolute", "{v:?}");
        )*};
    }
    ptr!(Ptr16, Ptr32, Ptr64);
    Ok(())
}

fn strings(s: &str) -> Result<(), Failure> {
    let cut = s.split('\0').next().unwrap();
    macro_rules! all {
        ($t:ty) => {{
            let ways: [$t; 6] = [s.into(), (&s.to_string()).into(), s.to_string().into(), <$t>::from_str(s).unwrap(), <$t>::from_bytes(s.as_bytes()), s.parse().unwrap()];
            for w in &ways {
                ensure!(w.to_str() == Some(cut) && w.to_string_lossy() == cut && *w == ways[0] && w.clone() == *w, "string", "{s:?}: {w:?}");
            }
        }};
    }
    all!(SsbhString);
    all!(SsbhString8);
    all!(ssbh_lib::CString<1>);
    all!(ssbh_lib::CString<4>);
    Ok(())
}

fn c34(thorough: bool) -> Vec<Scenario> {
    let mut out = vec![];
    // all assignments to the components of one vector
    out.push(scenario("vectors", 0, |ctx: &mut Ctx| {
        let a = [P[ctx.free(9)], P[ctx.free(9)]];
        ctx.hash_bytes(&le(&a));
        for y in P {
            for z in P {
                ctx.case();
                ops3([a[0], a[1], y], z)?;
                ops4([a[0], a[1], y, z])?;
                ctx.steps += 2;
            }
        }
        Ok(true)
    }));
    // all pairs of vectors
    out.push(scenario("pairs3", 0, |ctx: &mut Ctx| {
        let (a0, b0) = (P[ctx.free(9)], P[ctx.free(9)]);
        ctx.hash_bytes(&le(&[a0, b0]));
        for i in 0..9usize.pow(4) {
            ctx.case();
            let (a, b) = ([a0, P[i % 9], P[i / 9 % 9]], [b0, P[i / 81 % 9], P[i / 729]]);
            let (x, y) = (v3(a), v3(b));
            pair("v3", a, b, b3(x.min(y)), b3(x.max(y)))?;
            ensure!((x == y) == (x.x == y.x && x.y == y.y && x.z == y.z), "v3:equal", "{x:?} {y:?}");
        }
        ctx.steps += 6561;
        Ok(true)
    }));
    let n4: usize = if thorough { 9 } else { 7 };
    out.push(scenario("pairs4", 0, move |ctx: &mut Ctx| {
        let (a0, b0) = (P[ctx.free(n4)], P[ctx.free(n4)]);
        ctx.hash_bytes(&le(&[a0, b0]));
        for i in 0..n4.pow(6) {
            ctx.cases += 1;
            let d = |k: u32| P[i / n4.pow(k) % n4];
            let (a, b) = ([a0, d(0), d(1), d(2)], [b0, d(3), d(4), d(5)]);
            let (x, y) = (v4(a), v4(b));
            pair("v4", a, b, b4(x.min(y)), b4(x.max(y)))?;
            ensure!((x == y) == (x.x == y.x && x.y == y.y && x.z == y.z && x.w == y.w), "v4:equal", "{x:?} {y:?}");
        }
        ctx.steps += n4.pow(6) as u64;
        Ok(true)
    }));
    // matrices: distinct elements, with any two of them replaced
    out.push(scenario("matrices", 0, |ctx: &mut Ctx| {
        let i = ctx.free(16);
        let x = P[ctx.free(9)];
        ctx.hash_u64((i as u64) << 32 | x as u64);
        for j in 0..16 {
            for y in P {
                ctx.case();
                let mut a: [u32; 16] = std::array::from_fn(|k| (k as f32 + 1.5).to_bits());
                a[i] = x;
                a[j] = y;
                matrices(&a)?;
                ctx.steps += 2;
            }
        }
        for c in 0..4 {
            for r in 0..4 {
                let want = if c == r { 1.0f32 } else { 0.0 };
                ensure!(Matrix4x4::identity().to_cols_array()[c][r].to_bits() == want.to_bits(), "m4:identity", "column {c} row {r}");
                if c < 3 && r < 3 {
                    ensure!(Matrix3x3::identity().to_cols_array()[c][r].to_bits() == want.to_bits(), "m3:identity", "column {c} row {r}");
                }
            }
        }
        ensure!(b3(Vector3::ZERO) == [0; 3] && b4(Vector4::ZERO) == [0; 4] && b3(Vector3::default()) == [0; 3] && b4(Vector4::default()) == [0; 4], "zero", "a zero vector is not zero");
        ensure!(Matrix3x3::default().to_cols_array() == [[0.0; 3]; 3], "m3:default", "{:?}", Matrix3x3::default());
        Ok(true)
    }));
    // all lists of up to four (five) elements out of three
    out.push(scenario("lists", 0, move |ctx: &mut Ctx| {
        let n = ctx.free(if thorough { 7 } else { 5 });
        let l: Vec<usize> = (0..n).map(|_| ctx.free(3)).collect();
        ctx.hash_bytes(format!("{l:?}").as_bytes());
        ctx.note(|| format!("{l:?}"));
        let bytes: Vec<u8> = l.iter().map(|x| [0u8, 255, 7][*x]).collect();
        lists(&l.iter().map(|x| [0u32, u32::MAX, 5][*x]).collect::<Vec<_>>())?;
        lists(&l.iter().map(|x| SsbhString::from(["", "a", "é"][*x])).collect::<Vec<_>>())?;
        lists(&l.iter().map(|x| RelPtr64::from([None, Some(0u8), Some(1)][*x])).collect::<Vec<_>>())?;
        lists(&bytes)?;
        let w = [SsbhByteBuffer::from_vec(bytes.clone()), bytes.clone().into(), SsbhByteBuffer { elements: bytes.clone() }];
        ensure!(w.iter().all(|x| x.elements == bytes && *x == w[0] && x.clone() == *x), "buffer", "{bytes:?}: {w:?}");
        ensure!(SsbhByteBuffer::new().elements.is_empty() && SsbhByteBuffer::default() == SsbhByteBuffer::new() && (w[0] == SsbhByteBuffer::new()) == bytes.is_empty(), "buffer:empty", "{bytes:?}");
        let s: String = l.iter().map(|x| ["a", "\0", "é"][*x]).collect();
        strings(&s)?;
        ctx.steps += 6;
        Ok(true)
    }));
    out.push(scenario("counts", 0, |ctx: &mut Ctx| {
        let n = [0usize, 1, 2, 3, 7, 255, 256, 257, 65536][ctx.free(9)];
        ctx.hash_u64(n as u64);
        let f: Vec<f32> = (0..n).map(|i| i as f32 + 0.5).collect();
        let z = Vector3::ZERO;
        let t = Transform { scale: z, rotation: Vector4::ZERO, translation: z };
        let u = UvTransform { scale_u: 1.0, scale_v: 2.0, rotation: 3.0, translate_u: 4.0, translate_v: 5.0 };
        let all = [
            TrackValues::Transform(vec![t; n]),
            TrackValues::UvTransform(vec![u; n]),
            TrackValues::Float(f.clone()),
            TrackValues::PatternIndex(vec![1; n]),
            TrackValues::Boolean(vec![false; n]),
            TrackValues::Vector4(vec![Vector4::ZERO; n]),
        ];
        for v in &all {
            ensure!(v.len() == n && v.is_empty() == (n == 0), "track:len", "{n} values: {} {}", v.len(), v.is_empty());
        }
        let two = VectorData::Vector2(f.iter().map(|x| [*x, -x]).collect());
        let three = VectorData::Vector3(f.iter().map(|x| [*x, -x, x * 2.0]).collect());
        let four = VectorData::Vector4(f.iter().map(|x| [*x, -x, x * 2.0, 9.0]).collect());
        for (i, v) in [two, three, four].iter().enumerate() {
            ensure!(v.len() == n && v.is_empty() == (n == 0), "vectors:len", "{n} vectors: {} {}", v.len(), v.is_empty());
            for w in [0.0f32, 1.0, -2.5] {
                let want: Vec<[f32; 4]> = f.iter().map(|x| [*x, -x, if i == 0 { 0.0 } else { x * 2.0 }, w]).collect();
                ensure!(v.to_vec4_with_w(w) == want, "vectors:to_vec4", "{} components, {n} vectors, w {w}", i + 2);
            }
        }
        ctx.steps += 9;
        Ok(true)
    }));
    out.push(scenario("flags", 0, |ctx: &mut Ctx| {
        let b: [bool; 4] = std::array::from_fn(|_| ctx.free(2) == 1);
        ctx.hash_bytes(format!("{b:?}").as_bytes());
        let d = TransformFlags { override_translation: b[0], override_rotation: b[1], override_scale: b[2], override_compensate_scale: b[3] };
        let r: anim::TransformFlags = d.into();
        ensure!([r.override_translation(), r.override_rotation(), r.override_scale(), r.override_compensate_scale()] == b, "flags", "{b:?}: {r:?}");
        ensure!(TransformFlags::from(r) == d, "flags:back", "{b:?}");
        let (bytes, _) = stored(&r)?;
        let code = (b[0] as u32) | (b[1] as u32) << 1 | (b[2] as u32) << 2 | (b[3] as u32) << 3;
        ensure!(bytes == code.to_le_bytes(), "flags:file", "{b:?} stored as {bytes:x?}");
        ctx.steps += 3;
        Ok(true)
    }));
    out
}

// ---------------------------------------------------------------------------------------------
// C09

/// The enumeration called `name` in the schema, and its public representation.
fn variants<T>(ctx: &mut Ctx, name: &str, from_repr: fn(usize) -> Option<T>, code: fn(T) -> u64) -> RunResult
where
    T: IntoEnumIterator + FromStr + Display + Debug + Copy + PartialEq,
{
    let Def::Enum { vars, .. } = &Schema::get().defs[name] else { panic!("{name}") };
    ctx.hash_bytes(name.as_bytes());
    ctx.note(|| name.to_string());
    let all: Vec<T> = T::iter().collect();
    ensure!(all.len() == vars.len(), format!("list:{name}"), "{name} lists {} of {} variants", all.len(), vars.len());
    for (t, c) in vars {
        let Ok(v) = T::from_str(t) else { return fail(&format!("text:{name}"), format!("{name} has no {t}")) };
        ensure!(v.to_string() == *t && format!("{v:?}") == *t, format!("text:{name}"), "{t} of {name} is shown as {v}");
        ensure!(code(v) == *c, format!("code:{name}"), "{t} of {name} has the code {} instead of {c}", code(v));
        ensure!(from_repr(*c as usize) == Some(v), format!("repr:{name}"), "{c} of {name} is {:?} instead of {t}", from_repr(*c as usize));
        ensure!(all.iter().filter(|x| **x == v).count() == 1, format!("list:{name}"), "{t} of {name} is listed {} times", all.iter().filter(|x| **x == v).count());
        ctx.steps += 4;
    }
    for c in (0..5000).chain([u32::MAX as u64, u64::MAX, 1 << 32, 1 << 16]) {
        ctx.case();
        ensure!(from_repr(c as usize).is_some() == vars.iter().any(|v| v.1 == c), format!("repr:{name}"), "{c} of {name} is {:?}", from_repr(c as usize));
    }
    for t in ["", "x", " "] {
        ensure!(T::from_str(t).is_err(), format!("text:{name}"), "{t:?} is taken for a {name}");
    }
    Ok(true)
}

pub fn enumerations() -> Vec<Scenario> {
    let mut out = vec![];
    macro_rules! add {
        ($($m:ident :: $t:ident),* $(,)?) => {$(
            out.push(scenario(concat!("variants-", stringify!($t)), 0, |ctx: &mut Ctx| {
                variants::<$m::$t>(ctx, concat!(stringify!($m), ".", stringify!($t)), |c| $m::$t::from_repr(c), |v| v as u64)
            }));
        )*};
    }
    add!(
        matl::ParamId,
        matl::FillMode,
        matl::CullMode,
        matl::WrapMode,
        matl::MinFilter,
        matl::MagFilter,
        matl::FilteringType,
        matl::MaxAnisotropy,
        matl::BlendFactor,
        matl::BlendOperation,
        anim::GroupType,
        skel::BillboardType,
        nrpd::UnkFormat,
    );
    out
}
