//! C25: derived writers against a model of the declared layout.
//!
//! The family of types lives in `derive_types.rs`, written by `tools/gen_derive.py`.
use crate::explore::*;
use crate::util::*;
use crate::{ensure, Check};
use ssbh_lib::{CString, Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8};
use ssbh_write::SsbhWrite;
use std::io::{Cursor, Seek, SeekFrom};
use std::num::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C25",
        level: "exploration",
        rule: "one case = one value of one derived type written at one start position with one initial data pointer; distinct by type, value and position",
        assumptions: &["align_after together with pointers only in the last place of a type, where it pads the end of the file"],
        scenarios: super::derive_types::scenarios,
        hang_s: 60,
    }]
}

/// A piece of the declared layout of a value.
pub enum P {
    B(Vec<u8>),
    /// Zero bytes up to a multiple of this position.
    End(u64),
    /// A part that is a value of its own.
    Node(Vec<P>),
    Rel { align: u64, target: Option<Vec<P>> },
    Abs { width: u64, align: u64, target: Option<Vec<P>> },
    Arr { count: u64, items: Vec<P> },
}

pub fn size(ps: &[P]) -> u64 {
    ps.iter()
        .map(|p| match p {
            P::B(b) => b.len() as u64,
            P::End(_) => 0,
            P::Node(n) => size(n),
            P::Rel { .. } => 8,
            P::Abs { width, .. } => *width,
            P::Arr { .. } => 16,
        })
        .sum()
}
fn has_end(ps: &[P]) -> bool {
    ps.iter().any(|p| match p {
        P::B(_) => false,
        P::End(n) => *n > 0,
        P::Node(n) => has_end(n),
        P::Rel { target, .. } | P::Abs { target, .. } => target.as_ref().map_or(false, |t| has_end(t)),
        P::Arr { items, .. } => has_end(items),
    })
}

pub struct Out {
    pub buf: Vec<u8>,
    pub pos: u64,
    pub dp: u64,
}
fn up(v: u64, n: u64) -> u64 {
    if n == 0 {
        v
    } else {
        (v + n - 1) / n * n
    }
}
impl Out {
    fn put(&mut self, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let end = self.pos as usize + b.len();
        if self.buf.len() < end {
            self.buf.resize(end, 0);
        }
        self.buf[self.pos as usize..end].copy_from_slice(b);
        self.pos = end as u64;
    }
    fn far(&mut self, align: u64, target: &[P]) {
        let back = self.pos;
        self.pos = self.dp;
        self.node(target);
        if self.pos > self.dp {
            self.dp = up(self.pos, align);
        }
        self.pos = back;
    }
    pub fn node(&mut self, ps: &[P]) {
        self.dp = self.dp.max(self.pos + size(ps));
        for p in ps {
            match p {
                P::B(b) => self.put(b),
                P::End(n) => {
                    self.pos = self.buf.len() as u64;
                    let pad = up(self.pos, *n) - self.pos;
                    self.put(&vec![0; pad as usize]);
                }
                P::Node(n) => self.node(n),
                P::Rel { target: None, .. } => self.put(&[0; 8]),
                P::Abs { width, target: None, .. } => self.put(&vec![0; *width as usize]),
                P::Rel { align, target: Some(t) } => {
                    self.dp = up(self.dp, *align);
                    self.put(&(self.dp - self.pos).to_le_bytes());
                    self.far(*align, t);
                }
                P::Abs { width, align, target: Some(t) } => {
                    self.dp = up(self.dp, *align);
                    self.put(&self.dp.to_le_bytes()[..*width as usize]);
                    self.far(*align, t);
                }
                P::Arr { count: 0, .. } => {
                    // Empty arrays align the following data, too.
                    self.dp = up(self.dp, 8);
                    self.put(&[0; 16])
                }
                P::Arr { count, items } => {
                    self.dp = up(self.dp, 8);
                    self.put(&(self.dp - self.pos).to_le_bytes());
                    self.put(&count.to_le_bytes());
                    let back = self.pos;
                    self.pos = self.dp;
                    self.node(items);
                    self.pos = back;
                }
            }
        }
    }
}

/// Types with a declared layout.
pub trait M: Sized {
    fn make(c: &mut Ctx) -> Self;
    fn pieces(&self) -> Vec<P>;
    fn align() -> u64 {
        std::mem::align_of::<Self>() as u64
    }
}

macro_rules! prim {
    ($($t:ty: $v:expr),*) => { $(impl M for $t {
        fn make(c: &mut Ctx) -> Self {
            let p: [$t; 3] = $v;
            p[c.choose(3)]
        }
        fn pieces(&self) -> Vec<P> {
            vec![P::B(self.to_le_bytes().to_vec())]
        }
    })* };
}
prim!(u8: [0x11, 0xFF, 0], u16: [0x2122, 0xFFFF, 0], u32: [0x3132_3334, u32::MAX, 0], u64: [0x4142_4344_4546_4748, u64::MAX, 0],
    u128: [0x5152_5354_5556_5758_595A_5B5C_5D5E_5F50, u128::MAX, 0],
    i8: [0x12, -1, i8::MIN], i16: [0x1314, -2, i16::MIN], i32: [0x1516_1718, -3, i32::MIN], i64: [0x6162_6364_6566_6768, -4, i64::MIN],
    i128: [0x7172_7374_7576_7778_797A_7B7C_7D7E_7F70, -5, i128::MIN],
    f32: [1.5, -0.0, f32::MAX], f64: [-2.25, 1e300, 0.0]);

macro_rules! nonzero {
    ($($t:ty: $v:expr),*) => { $(impl M for $t {
        fn make(c: &mut Ctx) -> Self {
            let p = $v;
            <$t>::new(p[c.choose(2)]).unwrap()
        }
        fn pieces(&self) -> Vec<P> {
            vec![P::B(self.get().to_le_bytes().to_vec())]
        }
    })* };
}
nonzero!(NonZeroU8: [0x11, 0xFF], NonZeroU16: [0x2122, 1], NonZeroU32: [0x3132_3334, 1], NonZeroU64: [0x4142_4344_4546_4748, 1],
    NonZeroU128: [0x5152_5354_5556_5758_595A_5B5C_5D5E_5F50, 1], NonZeroI8: [0x12, -1], NonZeroI16: [0x1314, -1], NonZeroI32: [0x1516_1718, -1],
    NonZeroI64: [0x6162_6364_6566_6768, -1], NonZeroI128: [0x7172_7374_7576_7778_797A_7B7C_7D7E_7F70, -1], NonZeroUsize: [0x4142_4344, 1]);

impl M for () {
    fn make(_: &mut Ctx) -> Self {}
    fn pieces(&self) -> Vec<P> {
        Vec::new()
    }
}
fn seq<'a, T: M + 'a>(i: impl Iterator<Item = &'a T>) -> Vec<P> {
    vec![P::Node(i.flat_map(|x| x.pieces()).collect())]
}
impl<T: M, const N: usize> M for [T; N] {
    fn make(c: &mut Ctx) -> Self {
        std::array::from_fn(|_| T::make(c))
    }
    fn pieces(&self) -> Vec<P> {
        seq(self.iter())
    }
    fn align() -> u64 {
        T::align()
    }
}
impl<T: M> M for Vec<T> {
    fn make(c: &mut Ctx) -> Self {
        let n = [2, 0, 1, 3][c.choose(4)];
        (0..n).map(|_| T::make(c)).collect()
    }
    fn pieces(&self) -> Vec<P> {
        seq(self.iter())
    }
    fn align() -> u64 {
        T::align()
    }
}
impl<T: M> M for Option<T> {
    fn make(c: &mut Ctx) -> Self {
        (c.choose(2) == 0).then(|| T::make(c))
    }
    fn pieces(&self) -> Vec<P> {
        match self {
            Some(v) => vec![P::Node(v.pieces())],
            None => Vec::new(),
        }
    }
    fn align() -> u64 {
        T::align()
    }
}
impl M for &'static [u16] {
    fn make(c: &mut Ctx) -> Self {
        const A: [u16; 4] = [0x0102, 0x0304, 0x0506, 0xFFFF];
        &A[..[2, 0, 1, 4][c.choose(4)]]
    }
    fn pieces(&self) -> Vec<P> {
        seq(self.iter())
    }
    fn align() -> u64 {
        2
    }
}
impl<T: M> M for RelPtr64<T> {
    fn make(c: &mut Ctx) -> Self {
        if c.choose(2) == 0 {
            RelPtr64::new(T::make(c))
        } else {
            RelPtr64::null()
        }
    }
    fn pieces(&self) -> Vec<P> {
        vec![P::Rel { align: T::align(), target: self.as_ref().map(|v| v.pieces()) }]
    }
}
macro_rules! absolute {
    ($($t:ident: $w:expr),*) => { $(impl<T: M> M for $t<T> {
        fn make(c: &mut Ctx) -> Self {
            if c.choose(2) == 0 {
                $t::new(T::make(c))
            } else {
                $t::null()
            }
        }
        fn pieces(&self) -> Vec<P> {
            vec![P::Abs { width: $w, align: T::align(), target: self.as_ref().map(|v| v.pieces()) }]
        }
    })* };
}
absolute!(Ptr16: 2, Ptr32: 4, Ptr64: 8);
impl<const N: usize> M for CString<N> {
    fn make(c: &mut Ctx) -> Self {
        ["ab", "", "abc", "abcdefgh"][c.choose(4)].into()
    }
    fn pieces(&self) -> Vec<P> {
        vec![P::B(string_bytes(self.to_str().unwrap().as_bytes(), N))]
    }
    fn align() -> u64 {
        N as u64
    }
}
fn string_bytes(b: &[u8], n: usize) -> Vec<u8> {
    if b.is_empty() {
        vec![0; n]
    } else {
        [b, &[0]].concat()
    }
}
impl<T: M> M for SsbhArray<T> {
    fn make(c: &mut Ctx) -> Self {
        SsbhArray { elements: Vec::<T>::make(c) }
    }
    fn pieces(&self) -> Vec<P> {
        vec![P::Arr { count: self.elements.len() as u64, items: seq(self.elements.iter()) }]
    }
    fn align() -> u64 {
        8
    }
}
impl M for SsbhByteBuffer {
    fn make(c: &mut Ctx) -> Self {
        SsbhByteBuffer { elements: (0..[3u8, 0, 1, 9][c.choose(4)]).map(|i| 0xC0 + i).collect() }
    }
    fn pieces(&self) -> Vec<P> {
        vec![P::Arr { count: self.elements.len() as u64, items: vec![P::B(self.elements.clone())] }]
    }
}
fn text(c: &mut Ctx) -> Option<String> {
    [Some("ab"), Some(""), None, Some("abc"), Some("abcdefgh")][c.choose(5)].map(|s| s.to_string())
}
fn text_pieces(b: Option<Vec<u8>>, n: u64) -> Vec<P> {
    vec![P::Rel {
        align: n,
        target: b.map(|b| vec![P::B(string_bytes(&b, n as usize))]),
    }]
}
macro_rules! string {
    ($t:ident, $n:expr) => {
        impl M for $t {
            fn make(c: &mut Ctx) -> Self {
                match text(c) {
                    Some(s) => s.as_str().into(),
                    None => serde_json::from_str("null").unwrap(),
                }
            }
            fn pieces(&self) -> Vec<P> {
                text_pieces(self.to_str().map(|s| s.as_bytes().to_vec()), $n)
            }
        }
    };
}
string!(SsbhString, 4);
string!(SsbhString8, 8);

pub fn check<T: M + SsbhWrite + 'static>(name: &'static str, k: u8, align: u64) -> Scenario {
    scenario(name, k, move |ctx| {
        let v = T::make(ctx);
        let start = [0u64, 1, 3, 8, 13][ctx.choose(5)];
        let dp = [0u64, 50, 64][ctx.choose(3)];
        verify(ctx, name, v.pieces(), align, T::alignment_in_bytes(), v.size_in_bytes(), start, dp, &|w: &mut Cursor<Vec<u8>>, d: &mut u64| v.ssbh_write(w, d), &|w| v.write(w))
    })
}

type W<'a> = &'a dyn Fn(&mut Cursor<Vec<u8>>, &mut u64) -> std::io::Result<()>;
#[allow(clippy::too_many_arguments)]
fn verify(ctx: &mut Ctx, name: &str, pieces: Vec<P>, align: u64, got_align: u64, got_size: u64, start: u64, dp: u64, write: W, plain: &dyn Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>) -> RunResult {
    ctx.step();
    ctx.note(|| format!("type {name} at {start} with data pointer {dp}"));
    ensure!(got_align == align, format!("align:{name}"), "type {name}: alignment is {got_align} instead of {align}");
    let want_size = size(&pieces);
    ensure!(got_size == want_size, format!("size:{name}"), "type {name}: size is {got_size} instead of {want_size}");
    let mut out = Out { buf: vec![0xEE; start as usize], pos: start, dp };
    out.node(&pieces);
    let mut cur = Cursor::new(vec![0xEE; start as usize]);
    cur.seek(SeekFrom::Start(start)).unwrap();
    let mut d = dp;
    write(&mut cur, &mut d).or_fail(&format!("write:{name}"))?;
    let pos = cur.position();
    let got = cur.into_inner();
    if got != out.buf {
        return fail(&format!("bytes:{name}"), format!("type {name} at {start} with data pointer {dp}: wrote {} instead of {}", hexs(&got), hexs(&out.buf)));
    }
    ensure!(pos == out.pos, format!("pos:{name}"), "type {name}: the writer is left at {pos} instead of {}", out.pos);
    if !has_end(&pieces) {
        ensure!(d >= got.len() as u64, format!("dp:{name}"), "type {name}: the data pointer {d} is left before the end {}", got.len());
    }
    if start == 0 && dp == 0 {
        let mut cur = Cursor::new(Vec::new());
        plain(&mut cur).or_fail(&format!("write:{name}"))?;
        ensure!(cur.into_inner() == got, format!("plain:{name}"), "type {name}: write() differs from ssbh_write()");
    }
    ctx.hash_bytes(&got);
    ctx.hash_u64(start * 100 + dp);
    ctx.hash_bytes(name.as_bytes());
    Ok(!got.is_empty())
}
