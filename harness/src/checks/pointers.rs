//! C03: every pointer-like type at every position with every offset and count, also into itself and
//! into its neighbours, against a direct reading of the bytes.
use crate::ensure;
use crate::explore::*;
use crate::far::Far;
use crate::util::{failure, OrFail};
use binrw::{BinRead, Endian};
use ssbh_lib::{CString, DataType, Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhEnum64, SsbhString, SsbhString8};
use ssbh_write::SsbhWrite;
use std::io::Cursor;

/// How a type is stored: its width and its value at a position (None: it lies outside of the data).
trait Q: for<'a> BinRead<Args<'a> = ()> {
    fn width() -> u64;
    fn show(&self) -> String;
    fn model(b: &Far, pos: u64) -> Option<String>;
}

fn word(b: &Far, pos: u64, n: u64) -> Option<u64> {
    Some(b.at(pos, n)?.iter().rev().fold(0, |v, x| v << 8 | *x as u64))
}
fn list<T: Q>(b: &Far, pos: u64, n: u64) -> Option<String> {
    let mut v = vec![];
    for i in 0..n {
        v.push(T::model(b, pos.checked_add(i.checked_mul(T::width())?)?)?);
    }
    Some(format!("[{}]", v.join(" ")))
}

macro_rules! num {
    ($($t:ty),*) => { $(impl Q for $t {
        fn width() -> u64 { std::mem::size_of::<$t>() as u64 }
        fn show(&self) -> String { format!("{self}") }
        fn model(b: &Far, pos: u64) -> Option<String> { Some(format!("{}", word(b, pos, Self::width())? as $t)) }
    })* };
}
num!(u8, u16, u32, u64, i8, i16);

impl<T: Q> Q for RelPtr64<T> {
    fn width() -> u64 {
        8
    }
    fn show(&self) -> String {
        self.as_ref().map_or("null".into(), |v| format!("*{}", v.show()))
    }
    fn model(b: &Far, pos: u64) -> Option<String> {
        match word(b, pos, 8)? {
            0 => Some("null".into()),
            o => Some(format!("*{}", T::model(b, pos.checked_add(o)?)?)),
        }
    }
}
macro_rules! string {
    ($($t:ty, $n:literal);*) => { $(impl Q for $t {
        fn width() -> u64 { 8 }
        fn show(&self) -> String { format!("{:?}", self.to_str()) }
        fn model(b: &Far, pos: u64) -> Option<String> {
            match word(b, pos, 8)? {
                0 => Some("None".into()),
                o => CString::<$n>::model(b, pos.checked_add(o)?),
            }
        }
    })* };
}
string!(SsbhString, 4; SsbhString8, 8);
macro_rules! ptr {
    ($($p:ident $n:literal),*) => { $(impl<T: Q> Q for $p<T> {
        fn width() -> u64 { $n }
        fn show(&self) -> String { self.as_ref().map_or("null".into(), |v| format!("*{}", v.show())) }
        fn model(b: &Far, pos: u64) -> Option<String> {
            match word(b, pos, $n)? {
                0 => Some("null".into()),
                o => Some(format!("*{}", T::model(b, o)?)),
            }
        }
    })* };
}
ptr!(Ptr16 2, Ptr32 4, Ptr64 8);

impl<T: Q + 'static> Q for SsbhArray<T> {
    fn width() -> u64 {
        16
    }
    fn show(&self) -> String {
        format!("[{}]", self.elements.iter().map(|e| e.show()).collect::<Vec<_>>().join(" "))
    }
    fn model(b: &Far, pos: u64) -> Option<String> {
        list::<T>(b, pos.checked_add(word(b, pos, 8)?)?, word(b, pos + 8, 8)?)
    }
}
impl Q for SsbhByteBuffer {
    fn width() -> u64 {
        16
    }
    fn show(&self) -> String {
        format!("[{}]", self.elements.iter().map(|e| e.show()).collect::<Vec<_>>().join(" "))
    }
    fn model(b: &Far, pos: u64) -> Option<String> {
        list::<u8>(b, pos.checked_add(word(b, pos, 8)?)?, word(b, pos + 8, 8)?)
    }
}
impl<const N: usize> Q for CString<N> {
    fn width() -> u64 {
        panic!("strings have no fixed width")
    }
    fn show(&self) -> String {
        format!("{:?}", self.to_str())
    }
    fn model(b: &Far, pos: u64) -> Option<String> {
        let (start, b) = b.segs.iter().rev().find(|s| s.0 <= pos)?;
        let b = b.get(usize::try_from(pos - start).ok()?..)?;
        let n = b.iter().position(|x| *x == 0)?;
        Some(format!("{:?}", std::str::from_utf8(&b[..n]).ok()))
    }
}

#[derive(Debug, BinRead, SsbhWrite)]
#[br(import(data_type: u64))]
enum Data {
    #[br(pre_assert(data_type == 1))]
    Byte(u8),
    #[br(pre_assert(data_type == 4))]
    Text(SsbhString),
    #[br(pre_assert(data_type == 7))]
    Pair(u16, RelPtr64<u16>),
}
impl DataType for Data {
    fn data_type(&self) -> u64 {
        match self {
            Data::Byte(_) => 1,
            Data::Text(_) => 4,
            Data::Pair(..) => 7,
        }
    }
}
impl Q for SsbhEnum64<Data> {
    fn width() -> u64 {
        16
    }
    fn show(&self) -> String {
        match self.data.as_ref() {
            None => "null".into(),
            Some(Data::Byte(x)) => format!("byte {}", x.show()),
            Some(Data::Text(x)) => format!("text {}", x.show()),
            Some(Data::Pair(x, y)) => format!("pair {} {}", x.show(), y.show()),
        }
    }
    fn model(b: &Far, pos: u64) -> Option<String> {
        let (o, t) = (word(b, pos, 8)?, word(b, pos + 8, 8)?);
        if o == 0 {
            return Some("null".into());
        }
        let to = pos.checked_add(o)?;
        Some(match t {
            1 => format!("byte {}", u8::model(b, to)?),
            4 => format!("text {}", SsbhString::model(b, to)?),
            7 => format!("pair {} {}", u16::model(b, to)?, RelPtr64::<u16>::model(b, to + 2)?),
            _ => return None,
        })
    }
}

fn all<T: Q + 'static>(name: &str) -> Scenario {
    scenario(format!("pointer {name}"), 0, move |ctx: &mut Ctx| {
        let pos = ctx.free(5) as u64;
        let total = [48usize, 49, 64, 71][ctx.free(4)];
        // small words, so that pointers behind pointers stay within the data most of the time
        let pattern = ctx.free(3);
        let mut b: Vec<u8> = (0..total)
            .map(|i| match pattern {
                0 => if i % 8 == (pos as usize) % 8 { (i * 5 % 37) as u8 } else { 0 },
                1 => if i % 4 == 1 { 0 } else { (i + 65) as u8 },
                _ => if i % 2 == (pos as usize) % 2 { (i * 3 % 23) as u8 } else { 0 },
            })
            .collect();
        const EXTRA: [u64; 9] = [255, 256, 65535, 1 << 31, 1 << 32, i64::MAX as u64, u64::MAX - 3, u64::MAX - 1, u64::MAX];
        let n = total + 4;
        let o = ctx.free(n + EXTRA.len());
        let o = if o < n { o as u64 } else { EXTRA[o - n] };
        let w = T::width().min(8) as usize;
        b[pos as usize..pos as usize + w].copy_from_slice(&o.to_le_bytes()[..w]);
        if T::width() == 16 {
            const COUNTS: [u64; 14] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 17, 40, 1 << 32, i64::MAX as u64, u64::MAX];
            let c = COUNTS[ctx.free(14)];
            b[pos as usize + 8..pos as usize + 16].copy_from_slice(&c.to_le_bytes());
        }
        ctx.note(|| format!("position {pos} of {}", crate::util::hexs(&b)));
        ctx.hash_u64(pos);
        ctx.hash_bytes(&b);
        ctx.step();
        let mut r = Cursor::new(b.clone());
        r.set_position(pos);
        let got = T::read_options(&mut r, Endian::Little, ());
        match (T::model(&Far::of(b), pos), got) {
            (None, Err(_)) => Ok(false),
            (Some(want), Ok(v)) => {
                ensure!(v.show() == want, "pointer:value", "read {} instead of {want}", v.show());
                ensure!(r.position() == pos + T::width(), "pointer:position", "the fields behind it are read from {} instead of {}", r.position(), pos + T::width());
                Ok(true)
            }
            (Some(want), Err(e)) => fail("pointer:rejected", format!("{want} is rejected: {e}")),
            (None, Ok(v)) => fail("pointer:accepted", format!("read {} where there is no such data", v.show())),
        }
    })
}

/// The pointer in one piece of a stream and its target in another one, more than 2 GiB away.
fn distant<T: Q + 'static>(name: &str) -> Scenario {
    let abs = name.starts_with("Ptr");
    scenario(format!("distant {name}"), 0, move |ctx: &mut Ctx| {
        const STARTS: [u64; 8] = [1 << 31, (1 << 31) - 3, 1 << 32, (1 << 32) - 3, (1 << 32) + 8, 1 << 33, 1 << 40, 1 << 62];
        // where the piece with the pointer and the one with its target start
        let from = [0u64, 1 << 31, (1 << 32) - 4, 1 << 32, (1 << 45) + 1][ctx.free(5)];
        let far = STARTS[ctx.free(STARTS.len())];
        let to = from + far;
        let pos = from + ctx.free(4) as u64;
        let o = ctx.free(24) as u64;
        let piece = |k: usize| -> Vec<u8> { (0..64usize).map(|i| if i % 8 == k % 8 { (i * 5 % 37) as u8 } else if i % 8 < 3 { i as u8 } else { 0 }).collect() };
        let mut b = piece(1);
        let w = T::width().min(8) as usize;
        let offset = if abs { to + o } else { to + o - pos };
        let p = (pos - from) as usize;
        b[p..p + w].copy_from_slice(&offset.to_le_bytes()[..w]);
        if T::width() == 16 {
            b[p + 8..p + 16].copy_from_slice(&([0u64, 1, 2, 4, 7][ctx.free(5)]).to_le_bytes());
        }
        let mut segs = vec![(from, b), (to, piece(o as usize))];
        if from > 0 {
            segs.insert(0, (0, piece(2)));
        }
        let mut f = Far::new(segs, 0xcc);
        let model = f.clone();
        ctx.note(|| format!("{f:x?} from {pos:#x}"));
        ctx.hash_bytes(format!("{from} {far} {pos} {o} {:?}", f.segs[f.segs.len() - 2]).as_bytes());
        ctx.step();
        f.set_position(pos);
        let Some(want) = T::model(&model, pos) else { return Ok(false) };
        let v = T::read_options(&mut f, Endian::Little, ()).map_err(|e| failure("distant:rejected", format!("{want} is rejected: {e}")))?;
        ensure!(v.show() == want, "distant:value", "read {} instead of {want}", v.show());
        ensure!(f.position() == pos + T::width(), "distant:position", "the fields behind it are read from {:#x} instead of {:#x}", f.position(), pos + T::width());
        Ok(true)
    })
}

/// Arrays and strings of every length behind every kind of gap: what follows the fixed part is read
/// the same way however much there is of it.
fn lengths<T: Q + SsbhWrite + 'static>(name: &str, elem: u64) -> Scenario {
    scenario(format!("lengths {name}"), 0, move |ctx: &mut Ctx| {
        let pos = ctx.free(4) as u64;
        let gap = [0u64, 1, 2, 3, 4, 5, 7, 8, 13, 100][ctx.free(10)];
        let n = ctx.free(3);
        let n = match n {
            0 => ctx.free(301) as u64,
            1 => [511u64, 512, 513, 1000, 1023, 1024, 1025][ctx.free(7)],
            _ => [2048u64, 4097][ctx.free(2)],
        };
        let head = if elem == 0 { 8 } else { 16 };
        let start = pos + head + gap;
        let mut b = vec![0xCCu8; start as usize];
        b[pos as usize..pos as usize + 8].copy_from_slice(&(head + gap).to_le_bytes());
        if elem != 0 {
            b[pos as usize + 8..pos as usize + 16].copy_from_slice(&n.to_le_bytes());
        }
        let byte = |i: u64| 1 + ((i * 7 + i / 256 * 3) % 127) as u8;
        match name_kind::<T>(elem) {
            Kind::Text => {
                b.extend((0..n).map(byte));
                b.push(0);
            }
            Kind::Plain => b.extend((0..n * elem).map(byte)),
            Kind::Relative => {
                for i in 0..n {
                    b.extend(((n - i) * elem).to_le_bytes());
                    if elem == 16 {
                        b.extend((i % 5).to_le_bytes());
                    }
                }
            }
            Kind::Absolute => {
                for i in 0..n {
                    b.extend(((start + n * elem + i % 7) as u32).to_le_bytes());
                }
            }
        }
        b.extend(8u64.to_le_bytes());
        b.extend(b"a text\0after it\0");
        ctx.note(|| format!("{n} at position {pos} with a gap of {gap}"));
        ctx.hash_u64(pos << 40 | gap << 20 | n);
        ctx.step();
        let mut r = Cursor::new(&b);
        r.set_position(pos);
        let v = T::read_options(&mut r, Endian::Little, ()).map_err(|e| failure("lengths:rejected", format!("{n} elements are rejected: {e}")))?;
        let r_end = r.position();
        let Some(want) = T::model(&Far::of(b), pos) else { return fail("lengths:model", "the harness built a wrong file") };
        let differ = |a: &str, b: &str| a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let got = v.show();
        ensure!(got == want, "lengths:value", "{n} elements, gap {gap}: read differently from character {} on", differ(&got, &want));
        ensure!(r_end == pos + head, "lengths:position", "the fields behind it are read from {r_end}");
        // and written again
        let mut w = Cursor::new(vec![]);
        v.write(&mut w).or_fail("lengths:write")?;
        let w = w.into_inner();
        ensure!(T::model(&Far::of(w.clone()), 0).as_ref() == Some(&want), "lengths:rewrite", "{n} elements are written differently");
        let again = T::read_options(&mut Cursor::new(&w), Endian::Little, ()).or_fail("lengths:reread")?;
        ensure!(again.show() == want, "lengths:reread", "{n} elements come back differently");
        Ok(n > 0)
    })
}

enum Kind {
    Text,
    Plain,
    Relative,
    Absolute,
}

fn name_kind<T: 'static>(elem: u64) -> Kind {
    use std::any::TypeId;
    let t = TypeId::of::<T>();
    if elem == 0 {
        Kind::Text
    } else if t == TypeId::of::<SsbhArray<Ptr32<u8>>>() {
        Kind::Absolute
    } else if t == TypeId::of::<SsbhArray<u8>>() || t == TypeId::of::<SsbhByteBuffer>() || t == TypeId::of::<SsbhArray<u16>>() || t == TypeId::of::<SsbhArray<i16>>() || t == TypeId::of::<SsbhArray<u32>>() || t == TypeId::of::<SsbhArray<u64>>() || t == TypeId::of::<SsbhArray<i8>>() {
        Kind::Plain
    } else {
        Kind::Relative
    }
}

pub fn scenarios() -> Vec<Scenario> {
    let mut out = all_scenarios();
    macro_rules! each {
        ($($t:ty: $n:literal),* $(,)?) => { vec![$(lengths::<$t>(stringify!($t), $n)),*] };
    }
    out.extend(each!(
        SsbhArray<u8>: 1, SsbhArray<i8>: 1, SsbhArray<u16>: 2, SsbhArray<i16>: 2, SsbhArray<u32>: 4, SsbhArray<u64>: 8, SsbhByteBuffer: 1, SsbhString: 0, SsbhString8: 0,
        SsbhArray<SsbhString>: 8, SsbhArray<SsbhString8>: 8, SsbhArray<RelPtr64<u16>>: 8, SsbhArray<RelPtr64<SsbhString>>: 8, SsbhArray<Ptr32<u8>>: 4, SsbhArray<SsbhArray<u8>>: 16, SsbhArray<SsbhByteBuffer>: 16,
    ));
    out
}

fn all_scenarios() -> Vec<Scenario> {
    macro_rules! each {
        ($($t:ty),* $(,)?) => { vec![$(all::<$t>(stringify!($t)), distant::<$t>(stringify!($t))),*] };
    }
    each!(
        RelPtr64<u8>, RelPtr64<u32>, RelPtr64<u64>, RelPtr64<RelPtr64<u16>>, RelPtr64<SsbhArray<u8>>, RelPtr64<Ptr64<u8>>, SsbhString, SsbhString8, RelPtr64<SsbhString>,
        Ptr16<u8>, Ptr16<u64>, Ptr32<u16>, Ptr32<Ptr16<u8>>, Ptr64<u8>, Ptr64<u32>, Ptr64<Ptr64<u16>>, Ptr64<CString<4>>, Ptr64<RelPtr64<i8>>, Ptr64<SsbhArray<u16>>,
        SsbhArray<u8>, SsbhArray<i16>, SsbhArray<u64>, SsbhArray<RelPtr64<u8>>, SsbhArray<SsbhString>, SsbhArray<SsbhArray<u8>>, SsbhArray<Ptr32<u8>>, SsbhArray<SsbhByteBuffer>, SsbhArray<SsbhEnum64<Data>>,
        SsbhByteBuffer, SsbhEnum64<Data>, RelPtr64<SsbhEnum64<Data>>,
    )
}
