//! Independent model of the animation track buffer: decoder, encoder and comparison rules.
//! Written from the format description, not from the library's code.
use crate::util::*;
use crate::explore::Failure;
use crate::ensure;
use ssbh_data::anim_data::{TrackData, TrackValues, Transform, UvTransform};
use ssbh_data::{Vector3, Vector4};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Transform,
    Uv,
    Float,
    Pattern,
    Bool,
    Vec4,
}
pub const KINDS: [Kind; 6] = [Kind::Transform, Kind::Uv, Kind::Float, Kind::Pattern, Kind::Bool, Kind::Vec4];

impl Kind {
    /// Components: transform = scale xyz, rotation xyzw, translation xyz.
    pub fn comps(self) -> usize {
        match self {
            Kind::Transform => 10,
            Kind::Uv => 5,
            Kind::Vec4 => 4,
            _ => 1,
        }
    }
    /// Bytes of one uncompressed frame.
    pub fn frame_size(self) -> usize {
        match self {
            Kind::Transform => 44,
            Kind::Uv => 20,
            Kind::Vec4 => 16,
            Kind::Bool => 1,
            _ => 4,
        }
    }
    /// Number of (min, max, bit count) ranges of the compression header.
    pub fn ranges(self) -> usize {
        match self {
            Kind::Transform => 9,
            Kind::Uv => 5,
            Kind::Vec4 => 4,
            _ => 1,
        }
    }
    pub fn code(self) -> u8 {
        match self {
            Kind::Transform => 1,
            Kind::Uv => 2,
            Kind::Float => 3,
            Kind::Pattern => 5,
            Kind::Bool => 8,
            Kind::Vec4 => 9,
        }
    }
    pub fn of(v: &TrackValues) -> Kind {
        match v {
            TrackValues::Transform(_) => Kind::Transform,
            TrackValues::UvTransform(_) => Kind::Uv,
            TrackValues::Float(_) => Kind::Float,
            TrackValues::PatternIndex(_) => Kind::Pattern,
            TrackValues::Boolean(_) => Kind::Bool,
            TrackValues::Vector4(_) => Kind::Vec4,
        }
    }
}

pub type Frames = Vec<Vec<u32>>;

pub fn frames(v: &TrackValues) -> Frames {
    let b = |x: f32| x.to_bits();
    match v {
        TrackValues::Transform(v) => v
            .iter()
            .map(|t| {
                vec![
                    b(t.scale.x), b(t.scale.y), b(t.scale.z),
                    b(t.rotation.x), b(t.rotation.y), b(t.rotation.z), b(t.rotation.w),
                    b(t.translation.x), b(t.translation.y), b(t.translation.z),
                ]
            })
            .collect(),
        TrackValues::UvTransform(v) => v.iter().map(|t| vec![b(t.scale_u), b(t.scale_v), b(t.rotation), b(t.translate_u), b(t.translate_v)]).collect(),
        TrackValues::Float(v) => v.iter().map(|x| vec![b(*x)]).collect(),
        TrackValues::PatternIndex(v) => v.iter().map(|x| vec![*x]).collect(),
        TrackValues::Boolean(v) => v.iter().map(|x| vec![*x as u32]).collect(),
        TrackValues::Vector4(v) => v.iter().map(|x| vec![b(x.x), b(x.y), b(x.z), b(x.w)]).collect(),
    }
}

pub fn values(k: Kind, f: &Frames) -> TrackValues {
    let g = |x: u32| f32::from_bits(x);
    match k {
        Kind::Transform => TrackValues::Transform(
            f.iter()
                .map(|c| Transform {
                    scale: Vector3::new(g(c[0]), g(c[1]), g(c[2])),
                    rotation: Vector4::new(g(c[3]), g(c[4]), g(c[5]), g(c[6])),
                    translation: Vector3::new(g(c[7]), g(c[8]), g(c[9])),
                })
                .collect(),
        ),
        Kind::Uv => TrackValues::UvTransform(
            f.iter().map(|c| UvTransform { scale_u: g(c[0]), scale_v: g(c[1]), rotation: g(c[2]), translate_u: g(c[3]), translate_v: g(c[4]) }).collect(),
        ),
        Kind::Float => TrackValues::Float(f.iter().map(|c| g(c[0])).collect()),
        Kind::Pattern => TrackValues::PatternIndex(f.iter().map(|c| c[0]).collect()),
        Kind::Bool => TrackValues::Boolean(f.iter().map(|c| c[0] != 0).collect()),
        Kind::Vec4 => TrackValues::Vector4(f.iter().map(|c| Vector4::new(g(c[0]), g(c[1]), g(c[2]), g(c[3]))).collect()),
    }
}

pub fn ulp(x: f64) -> f64 {
    let x = (x.abs() as f32).min(f32::MAX);
    if x < f32::MIN_POSITIVE {
        return f32::from_bits(1) as f64;
    }
    (x as f64) * 2f64.powi(-23)
}

/// One range of a compression header; `bits` is the number of bits per value.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Range {
    pub min: u32,
    pub max: u32,
    pub bits: u64,
}

pub struct Bits<'a> {
    data: &'a [u8],
    pos: usize,
}
impl Bits<'_> {
    pub fn take(&mut self, n: u64) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..n {
            let byte = *self.data.get(self.pos / 8)?;
            v |= ((byte >> (self.pos % 8)) as u64 & 1) << i;
            self.pos += 1;
        }
        Some(v)
    }
}

#[derive(Default)]
pub struct BitSink {
    pub bytes: Vec<u8>,
    pos: usize,
}
impl BitSink {
    pub fn put(&mut self, v: u64, n: u64) {
        for i in 0..n {
            if self.pos % 8 == 0 {
                self.bytes.push(0);
            }
            if v >> i & 1 == 1 {
                *self.bytes.last_mut().unwrap() |= 1 << (self.pos % 8);
            }
            self.pos += 1;
        }
    }
    pub fn bit_len(&self) -> usize {
        self.pos
    }
}

/// The components stored per frame, as (component, range) in stream order; rotation w's sign follows.
pub fn stored(k: Kind, flags: u16) -> (Vec<(usize, usize)>, bool) {
    match k {
        Kind::Transform => {
            let mut v = vec![];
            if flags & 1 != 0 {
                v.push((0, 0));
                if flags & 2 == 0 {
                    v.extend([(1, 1), (2, 2)]);
                }
            }
            if flags & 4 != 0 {
                v.extend([(3, 3), (4, 4), (5, 5)]);
            }
            if flags & 8 != 0 {
                v.extend([(7, 6), (8, 7), (9, 8)]);
            }
            (v, flags & 4 != 0)
        }
        Kind::Uv => {
            let mut v = vec![(0, 0)];
            if flags & 2 == 0 {
                v.push((1, 1));
            }
            v.extend([(2, 2), (3, 3), (4, 4)]);
            (v, false)
        }
        Kind::Vec4 => ((0..4).map(|i| (i, i)).collect(), false),
        _ => (vec![(0, 0)], false),
    }
}

pub fn range_bits(k: Kind, r: &Range) -> u64 {
    match k {
        Kind::Bool => 1,
        Kind::Pattern => r.bits,
        _ => {
            if f32::from_bits(r.min) == f32::from_bits(r.max) {
                0
            } else {
                r.bits
            }
        }
    }
}

pub fn bits_per_entry(k: Kind, flags: u16, ranges: &[Range]) -> u64 {
    let (s, sign) = stored(k, flags);
    s.iter().map(|(_, r)| range_bits(k, &ranges[*r])).sum::<u64>() + sign as u64
}

/// Value of one stored number.
pub fn dequantize(k: Kind, raw: u64, r: &Range, default: u32) -> u32 {
    match k {
        Kind::Bool => (raw != 0) as u32,
        Kind::Pattern => (raw as u32).wrapping_add(r.min),
        _ => {
            if range_bits(k, r) == 0 {
                return default;
            }
            let t = raw as f64 / ((1u64 << r.bits) - 1) as f64;
            let (lo, hi) = (f32::from_bits(r.min) as f64, f32::from_bits(r.max) as f64);
            ((lo * (1.0 - t) + hi * t) as f32).to_bits()
        }
    }
}

/// Decodes `count` frames of a compressed bit stream.
pub fn decode_bits(k: Kind, flags: u16, ranges: &[Range], default: &[u32], data: &[u8], count: usize) -> Result<Frames, String> {
    let mut b = Bits { data, pos: 0 };
    let (s, sign) = stored(k, flags);
    let mut out = vec![];
    for _ in 0..count {
        let mut f = default[..k.comps()].to_vec();
        if k == Kind::Bool || k == Kind::Pattern {
            f = vec![0];
        }
        for (c, r) in &s {
            let raw = b.take(range_bits(k, &ranges[*r])).ok_or("bit stream too short")?;
            f[*c] = dequantize(k, raw, &ranges[*r], default[*c]);
        }
        if k == Kind::Transform {
            if flags & 2 != 0 {
                f[1] = f[0];
                f[2] = f[0];
            }
            if sign {
                let neg = b.take(1).ok_or("sign bit missing")? == 1;
                let q = |i: usize| f32::from_bits(f[i]) as f64;
                let w2 = 1.0 - (q(3) * q(3) + q(4) * q(4) + q(5) * q(5));
                let w = if w2 < 0.0 { 0.0 } else { w2.sqrt() } as f32;
                f[6] = if neg { -w } else { w }.to_bits();
            }
        }
        if k == Kind::Uv && flags & 2 != 0 {
            f[1] = f[0];
        }
        out.push(f);
    }
    Ok(out)
}

pub fn u16at(b: &[u8], at: usize) -> Option<u16> {
    Some(u16::from_le_bytes(b.get(at..at + 2)?.try_into().unwrap()))
}
pub fn u32at(b: &[u8], at: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(at..at + 4)?.try_into().unwrap()))
}
pub fn u64at(b: &[u8], at: usize) -> Option<u64> {
    Some(u64::from_le_bytes(b.get(at..at + 8)?.try_into().unwrap()))
}

pub fn raw_frame(k: Kind, b: &[u8]) -> Option<Vec<u32>> {
    if k == Kind::Bool {
        return Some(vec![(*b.first()? != 0) as u32]);
    }
    (0..k.comps()).map(|i| u32at(b, 4 * i)).collect()
}

pub struct Decoded {
    pub frames: Frames,
    pub compensate: bool,
}

/// Decodes and checks one track of a *written* file.
pub fn decode_track(k: Kind, compressed: bool, count: usize, data: &[u8]) -> Result<Decoded, Failure> {
    if !compressed {
        ensure!(data.len() == count * k.frame_size(), "layout:size", "{k:?}: {} bytes for {count} frames", data.len());
        let mut frames = vec![];
        let mut comp = false;
        for (i, b) in data.chunks(k.frame_size()).enumerate() {
            frames.push(raw_frame(k, b).unwrap());
            if k == Kind::Transform {
                let c = u32at(b, 40).unwrap();
                ensure!(c <= 1, "layout:compensate", "frame {i}: {c}");
                ensure!(i == 0 || comp == (c == 1), "layout:compensate", "frame {i} differs");
                comp = c == 1;
            }
        }
        return Ok(Decoded { frames, compensate: comp });
    }
    let short = || failure("layout:short", format!("{k:?}: {} bytes", data.len()));
    let unk4 = u16at(data, 0).ok_or_else(short)?;
    ensure!(unk4 == 4, "layout:header", "{unk4} instead of 4");
    let flags = u16at(data, 2).ok_or_else(short)?;
    let want: u16 = match k {
        Kind::Transform | Kind::Uv => 0b1101,
        _ => 0,
    };
    ensure!(flags & !2 == want && (want != 0 || flags == 0), "layout:flags", "{k:?}: flags {flags:#x}");
    let default_at = u16at(data, 4).ok_or_else(short)? as usize;
    let bpe = u16at(data, 6).ok_or_else(short)? as u64;
    let bits_at = u32at(data, 8).ok_or_else(short)? as usize;
    let n = u32at(data, 12).ok_or_else(short)? as usize;
    ensure!(n == count, "layout:count", "{n} frames in the data of a track with {count}");
    let ranges: Vec<Range> = if k == Kind::Bool {
        ensure!(data.len() >= 32 && data[16..32].iter().all(|x| *x == 0), "layout:range", "boolean range not zero");
        vec![Range { min: 0, max: 0, bits: 1 }]
    } else {
        (0..k.ranges())
            .map(|i| Some(Range { min: u32at(data, 16 + 16 * i)?, max: u32at(data, 20 + 16 * i)?, bits: u64at(data, 24 + 16 * i)? }))
            .collect::<Option<_>>()
            .ok_or_else(short)?
    };
    for r in &ranges {
        ensure!(r.bits <= 32, "layout:bits", "{r:?}");
    }
    let head = 16 + 16 * k.ranges();
    let dsize = k.frame_size();
    ensure!(bpe == bits_per_entry(k, flags, &ranges), "layout:bpe", "{k:?}: {bpe} bits per entry, ranges {ranges:?}");
    let nbytes = (bpe as usize * count).div_ceil(8);
    ensure!(default_at >= head && bits_at >= default_at + dsize && bits_at + nbytes == data.len(), "layout:regions", "{k:?}: default at {default_at} bits at {bits_at}+{nbytes} of {}", data.len());
    ensure!(default_at < head + 4 && bits_at < default_at + dsize + 4, "layout:gap", "{k:?}: header {head} default at {default_at}+{dsize} bits at {bits_at}");
    let default = raw_frame(k, &data[default_at..]).ok_or_else(short)?;
    let compensate = k == Kind::Transform && u32at(data, default_at + 40).ok_or_else(short)? != 0;
    let frames = decode_bits(k, flags, &ranges, &default, &data[bits_at..], count).map_err(|e| failure("layout:stream", e))?;
    Ok(Decoded { frames, compensate })
}

/// Compares the frames read back with the original ones of a finite track.
pub fn compare(k: Kind, compressed: bool, orig: &Frames, got: &Frames) -> Result<(), Failure> {
    if !compressed || k == Kind::Bool || k == Kind::Pattern {
        // all stored exactly
        if compressed && k == Kind::Pattern && got.len() == 1 && !orig.is_empty() && orig.iter().all(|f| *f == orig[0]) {
            ensure!(got[0] == orig[0], "value:exact", "{k:?}: {got:?} instead of {:?}", orig[0]);
            return Ok(());
        }
        ensure!(got.len() == orig.len(), "value:frames", "{k:?}: {} frames instead of {}", got.len(), orig.len());
        for (i, (a, b)) in orig.iter().zip(got).enumerate() {
            ensure!(a == b, if compressed { "value:lossless" } else { "value:exact" }, "{k:?} frame {i}: {b:x?} instead of {a:x?}");
        }
        return Ok(());
    }
    let f = |x: u32| f32::from_bits(x) as f64;
    let constant = orig.iter().all(|x| x.iter().zip(&orig[0]).all(|(a, b)| f(*a) == f(*b)));
    let expanded;
    let got = if got.len() == 1 && constant && !orig.is_empty() {
        expanded = vec![got[0].clone(); orig.len()];
        &expanded
    } else {
        got
    };
    ensure!(got.len() == orig.len(), "value:frames", "{k:?}: {} frames instead of {}", got.len(), orig.len());
    for c in 0..k.comps() {
        let lo = orig.iter().map(|x| f(x[c])).fold(f64::INFINITY, f64::min);
        let hi = orig.iter().map(|x| f(x[c])).fold(f64::NEG_INFINITY, f64::max);
        let step = (hi - lo) / ((1u64 << 24) - 1) as f64;
        for (i, (a, b)) in orig.iter().zip(got).enumerate() {
            let (x, y) = (f(a[c]), f(b[c]));
            if k == Kind::Transform && c == 6 {
                // recomputed from x, y and z
                let tol = 2e-6;
                ensure!((x * x - y * y).abs() <= tol, "value:rotation-w", "frame {i}: w {y} instead of {x}");
                ensure!(y == 0.0 || x == 0.0 || (x < 0.0) == (y < 0.0), "value:rotation-sign", "frame {i}: w {y} instead of {x}");
                continue;
            }
            if lo == hi {
                ensure!(x == y, "value:constant", "{k:?} component {c} frame {i}: {y} instead of {x}");
                continue;
            }
            let tol = 2.0 * step + ulp(lo.abs().max(hi.abs()));
            ensure!((x - y).abs() <= tol, "value:quantized", "{k:?} component {c} frame {i}: {y} instead of {x}, range {lo}..{hi} allows {tol}");
        }
    }
    Ok(())
}

pub fn track_key(t: &TrackData) -> (Kind, usize) {
    (Kind::of(&t.values), t.values.len())
}
