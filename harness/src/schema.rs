//! Independent declarative description of every SSBH format (schema/ssbh.schema), with
//! * a value tree whose shape is chosen by the explorer,
//! * a reference encoder written from the rules in ssbh_offsets.md (not from the Rust writer),
//! * the JSON value the tree corresponds to.
use crate::explore::Ctx;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    U(u8),
    I(u8),
    F32,
    Unit,
    Str(u64),
    Bytes,
    Arr(Box<Ty>),
    Ptr(Box<Ty>),
    Enum64(String),
    Fix(Box<Ty>, usize),
    Named(String),
}

#[derive(Clone, Debug)]
pub enum Def {
    Struct { fields: Vec<(String, Ty)>, pad: u64 },
    Enum { size: u8, vars: Vec<(String, u64)> },
    Union { vars: Vec<(u64, String, Ty)> },
    Bits { size: u8, fields: Vec<(String, u32)> },
}

#[derive(Clone, Debug)]
pub struct Version {
    pub name: String,
    pub major: u16,
    pub minor: u16,
    pub body: Ty,
    pub align_after: u64,
    pub pad_after: u64,
}

#[derive(Clone, Debug)]
pub struct Root {
    pub name: String,
    pub magic: [u8; 4],
    pub versions: Vec<Version>,
    pub inline: bool,
}

pub struct Schema {
    pub roots: Vec<Root>,
    pub defs: HashMap<String, Def>,
    pub order: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Int(u64),
    F32(u32),
    Unit,
    Str(Option<Vec<u8>>),
    Bytes(Vec<u8>),
    List(Vec<Val>),
    Opt(Option<Box<Val>>),
    Struct(Vec<Val>),
    Variant(usize, Box<Val>),
    Null,
    Sym(usize),
    Bits(u64),
}

fn parse_ty(s: &str) -> Ty {
    let s = s.trim();
    if let Some(r) = s.strip_prefix("Arr<") {
        return Ty::Arr(Box::new(parse_ty(&r[..r.len() - 1])));
    }
    if let Some(r) = s.strip_prefix("Ptr<") {
        return Ty::Ptr(Box::new(parse_ty(&r[..r.len() - 1])));
    }
    if let Some(r) = s.strip_prefix("Enum64<") {
        return Ty::Enum64(r[..r.len() - 1].to_string());
    }
    if let Some(r) = s.strip_prefix('[') {
        let (t, n) = r[..r.len() - 1].split_once(';').unwrap();
        return Ty::Fix(Box::new(parse_ty(t)), n.parse().unwrap());
    }
    match s {
        "u8" => Ty::U(1),
        "u16" => Ty::U(2),
        "u32" => Ty::U(4),
        "u64" => Ty::U(8),
        "i8" => Ty::I(1),
        "i16" => Ty::I(2),
        "i32" => Ty::I(4),
        "i64" => Ty::I(8),
        "f32" => Ty::F32,
        "unit" => Ty::Unit,
        "Str4" => Ty::Str(4),
        "Str8" => Ty::Str(8),
        "Bytes" => Ty::Bytes,
        _ => Ty::Named(s.to_string()),
    }
}

fn attr(line: &str, key: &str) -> u64 {
    line.split_whitespace().find_map(|t| t.strip_prefix(key).and_then(|r| r.strip_prefix('='))).map(|v| v.parse().unwrap()).unwrap_or(0)
}

impl Schema {
    fn parse(text: &str) -> Schema {
        let mut s = Schema { roots: vec![], defs: HashMap::new(), order: vec![] };
        enum Cur {
            None,
            Def(String),
        }
        let mut cur = Cur::None;
        for l in text.lines() {
            if l.trim().is_empty() {
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            if l.starts_with("  ") {
                let Cur::Def(name) = &cur else { panic!("{l}") };
                match s.defs.get_mut(name).unwrap() {
                    Def::Struct { fields, .. } => {
                        let (n, t) = l.split_once(':').unwrap();
                        fields.push((n.trim().into(), parse_ty(t)));
                    }
                    Def::Enum { vars, .. } => vars.push((w[0].into(), w[1].parse().unwrap())),
                    Def::Union { vars } => vars.push((w[0].parse().unwrap(), w[1].into(), parse_ty(w[2]))),
                    Def::Bits { fields, .. } => fields.push((w[0].into(), w[1].parse().unwrap())),
                }
                continue;
            }
            let mut def = |s: &mut Schema, n: String, d: Def| {
                s.order.push(n.clone());
                s.defs.insert(n.clone(), d);
                cur = Cur::Def(n);
            };
            match w[0] {
                "root" => s.roots.push(Root { name: w[1].into(), magic: w[2].as_bytes().try_into().unwrap(), versions: vec![], inline: false }),
                "version" => {
                    let r = s.roots.last_mut().unwrap();
                    let inline = w[4] == "inline";
                    r.inline = inline;
                    let name = if inline { format!("{}.{}", r.name, w[1]) } else { w[4].to_string() };
                    let v = Version {
                        name: w[1].into(),
                        major: w[2].parse().unwrap(),
                        minor: w[3].parse().unwrap(),
                        body: Ty::Named(name.clone()),
                        align_after: attr(l, "align_after"),
                        pad_after: attr(l, "pad"),
                    };
                    r.versions.push(v);
                    if inline {
                        def(&mut s, name, Def::Struct { fields: vec![], pad: 0 });
                    }
                }
                "struct" => def(&mut s, w[1].into(), Def::Struct { fields: vec![], pad: attr(l, "pad") }),
                "enum" => {
                    let size = match w[2] {
                        "u8" => 1,
                        "u16" => 2,
                        "u32" => 4,
                        _ => 8,
                    };
                    def(&mut s, w[1].into(), Def::Enum { size, vars: vec![] })
                }
                "union" => def(&mut s, w[1].into(), Def::Union { vars: vec![] }),
                "bitfield" => def(&mut s, w[1].into(), Def::Bits { size: w[2].parse().unwrap(), fields: vec![] }),
                _ => panic!("{l}"),
            }
        }
        // Mesh: 16 bytes of padding after the fields and the file padded to 8 bytes.
        for r in &mut s.roots {
            if r.name == "Mesh" {
                for v in &mut r.versions {
                    v.pad_after = 16;
                    v.align_after = 8;
                }
            }
        }
        for (n, k) in [("Vector3", &["x", "y", "z"][..]), ("Vector4", &["x", "y", "z", "w"]), ("Color4f", &["r", "g", "b", "a"])] {
            s.defs.insert(n.into(), Def::Struct { fields: k.iter().map(|f| (f.to_string(), Ty::F32)).collect(), pad: 0 });
        }
        for (n, r, t) in [("Matrix3x3", 3, "Vector3"), ("Matrix4x4", 4, "Vector4")] {
            s.defs.insert(n.into(), Def::Struct { fields: (1..=r).map(|i| (format!("col{i}"), Ty::Named(t.into()))).collect(), pad: 0 });
        }
        s
    }

    pub fn get() -> &'static Schema {
        static S: OnceLock<Schema> = OnceLock::new();
        S.get_or_init(|| Schema::parse(include_str!("../schema/ssbh.schema")))
    }

    pub fn size(&self, t: &Ty) -> u64 {
        match t {
            Ty::U(n) | Ty::I(n) => *n as u64,
            Ty::F32 => 4,
            Ty::Unit => 0,
            Ty::Str(_) | Ty::Ptr(_) => 8,
            Ty::Bytes | Ty::Arr(_) | Ty::Enum64(_) => 16,
            Ty::Fix(t, n) => self.size(t) * *n as u64,
            Ty::Named(n) => match &self.defs[n] {
                Def::Struct { fields, pad } => fields.iter().map(|f| self.size(&f.1)).sum::<u64>() + pad,
                Def::Enum { size, .. } | Def::Bits { size, .. } => *size as u64,
                Def::Union { .. } => unreachable!("unions are only pointed to"),
            },
        }
    }

    /// Minimum alignment of data that a pointer to this type points to.
    fn align(&self, t: &Ty) -> u64 {
        match t {
            Ty::U(n) | Ty::I(n) => *n as u64,
            Ty::F32 => 4,
            Ty::Unit => 1,
            Ty::Fix(t, _) => self.align(t),
            Ty::Named(n) => match &self.defs[n] {
                Def::Struct { fields, .. } => fields.iter().map(|f| self.align(&f.1)).max().unwrap_or(1),
                Def::Enum { size, .. } => *size as u64,
                Def::Bits { size, .. } => *size as u64,
                Def::Union { .. } => 8,
            },
            _ => 8,
        }
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, PartialEq)]
pub enum Scalars {
    /// no alternatives for plain numbers
    Fixed,
    Full,
}

#[derive(Clone)]
pub struct Gen {
    pub deflen: usize,
    pub scalars: Scalars,
    pub lens: &'static [usize],
    pub byte_lens: &'static [usize],
    pub strs: &'static [&'static str],
    pub enums: bool,
    pub nonfinite: bool,
    pub nonutf8: bool,
    pub null_str: bool,
    pub counter: u64,
    /// added to the default variant of every union
    pub rot: usize,
    /// long payloads instead of short ones
    pub huge: bool,
    /// all default values are this instead of all different
    pub same: Option<u64>,
}

pub const STRS: &[&str] = &["", "a", "abc", "abcd", "abcdefg", "abcdefgh", "é漢🦀", "x y\t\"\\\u{7f}/", " lead and trail \r\n", "\u{feff}null", "-1.5e3", "true"];

impl Gen {
    pub fn standard(deflen: usize) -> Gen {
        Gen {
            deflen,
            scalars: Scalars::Full,
            lens: &[0, 1, 2, 3, 9],
            byte_lens: &[0, 1, 7, 8, 9, 16, 255],
            strs: STRS,
            enums: true,
            nonfinite: false,
            nonutf8: false,
            null_str: true,
            counter: 0,
            rot: usize::MAX,
            huge: false,
            same: None,
        }
    }
    /// All default values are equal.
    pub fn same(ctx: &mut Ctx, deflen: usize) -> Gen {
        Gen { same: Some(ctx.free(3) as u64), ..Gen::standard(deflen) }
    }
    pub fn structural(deflen: usize) -> Gen {
        Gen { scalars: Scalars::Fixed, enums: false, lens: &[0, 1, 2, 3], byte_lens: &[0, 1, 8, 9], strs: &["", "abc", "abcd", "abcdefgh"], ..Gen::standard(deflen) }
    }
    pub fn huge() -> Gen {
        Gen {
            scalars: Scalars::Fixed,
            enums: false,
            lens: &[255, 256, 1023, 1024, 1025, 4097],
            byte_lens: &[1023, 1024, 1025, 4096, 65535, 65536, 70001],
            strs: &[],
            null_str: false,
            huge: true,
            ..Gen::standard(1)
        }
    }
    fn next(&mut self) -> u64 {
        self.counter += 1;
        self.same.unwrap_or(self.counter)
    }
    fn int(&mut self, ctx: &mut Ctx, bytes: u8) -> Val {
        let bits = bytes as u32 * 8;
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let c = self.next();
        let d = match self.same {
            Some(c) => c & mask,
            None => (c.wrapping_mul(0x0101_0101_0101_0107).rotate_left(7) ^ c) & mask,
        };
        if self.scalars == Scalars::Fixed {
            return Val::Int(d);
        }
        let v = match ctx.choose(6) {
            0 => d,
            1 => 0,
            2 => mask,
            3 => 1u64 << (bits - 1),
            4 => mask >> 1,
            _ => 1,
        };
        Val::Int(v)
    }
    pub fn float(&mut self, ctx: &mut Ctx) -> Val {
        let c = self.next();
        let d = if self.same.is_some() { c as f32 } else { c as f32 * 0.37 - 3.0 };
        if self.scalars == Scalars::Fixed {
            return Val::F32(d.to_bits());
        }
        let alts: &[u32] = &[0, 0x8000_0000, 0x3f80_0000, 0xbfa0_0000, 0x7f7f_ffff, 0x0000_0001, 0x3dcc_cccd, 0x4b80_0001];
        let nf: &[u32] = &[0x7fc0_0000, 0x7f80_0000, 0xff80_0000, 0xffc0_1234];
        let n = 1 + alts.len() + if self.nonfinite { nf.len() } else { 0 };
        let i = ctx.choose(n);
        Val::F32(if i == 0 {
            d.to_bits()
        } else if i <= alts.len() {
            alts[i - 1]
        } else {
            nf[i - 1 - alts.len()]
        })
    }
    fn string(&mut self, ctx: &mut Ctx) -> Val {
        let c = self.next();
        let mut d = format!("n{c}");
        while d.len() < 2 + (c % 7) as usize {
            d.push('_');
        }
        let mut alts: Vec<Option<Vec<u8>>> = self.strs.iter().map(|s| Some(s.as_bytes().to_vec())).collect();
        if self.null_str {
            alts.push(None);
        }
        if self.scalars == Scalars::Full {
            alts.push(Some(vec![b'L'; 300]));
        }
        if self.huge {
            for n in [1023usize, 4096, 70000] {
                alts.push(Some((0..n).map(|i| b'a' + (i % 26) as u8).collect()));
            }
        }
        if self.nonutf8 {
            alts.push(Some(vec![0xff, 0xfe, 1, 0x80]));
        }
        let i = ctx.choose(alts.len() + 1);
        Val::Str(if i == 0 { Some(d.into_bytes()) } else { alts.swap_remove(i - 1) })
    }
    fn pick_len(&mut self, ctx: &mut Ctx, def: usize, alts: &[usize]) -> usize {
        let a: Vec<usize> = alts.iter().copied().filter(|&x| x != def).collect();
        let i = ctx.choose(a.len() + 1);
        if i == 0 {
            def
        } else {
            a[i - 1]
        }
    }
    pub fn val(&mut self, ctx: &mut Ctx, t: &Ty) -> Val {
        let s = Schema::get();
        match t {
            Ty::U(n) | Ty::I(n) => self.int(ctx, *n),
            Ty::F32 => self.float(ctx),
            Ty::Unit => Val::Unit,
            Ty::Str(_) => self.string(ctx),
            Ty::Bytes => {
                let n = self.pick_len(ctx, 5, self.byte_lens);
                let c = self.next();
                Val::Bytes((0..n as u64).map(|i| (c * 31 + i * 7 + i / 251) as u8).collect())
            }
            Ty::Arr(e) => {
                let n = self.pick_len(ctx, self.deflen, self.lens);
                if n > 16 {
                    // elements of long arrays: only the first ones offer choices
                    let first = self.val(ctx, e);
                    let mut v = vec![first];
                    let mut frozen = Ctx::new(vec![], false);
                    let mut g = Gen { scalars: Scalars::Fixed, enums: false, deflen: 1, ..self.clone() };
                    for _ in 1..n {
                        v.push(g.val(&mut frozen, e));
                    }
                    self.counter = g.counter;
                    return Val::List(v);
                }
                Val::List((0..n).map(|_| self.val(ctx, e)).collect())
            }
            Ty::Fix(e, n) => Val::List((0..*n).map(|_| self.val(ctx, e)).collect()),
            Ty::Ptr(e) => {
                let null = ctx.choose(2) == 1;
                Val::Opt(if null { None } else { Some(Box::new(self.val(ctx, e))) })
            }
            Ty::Enum64(u) => {
                let Def::Union { vars } = &s.defs[u] else { unreachable!() };
                let c = self.next() as usize;
                let i = ctx.choose(vars.len() + 1);
                if i == vars.len() {
                    return Val::Null;
                }
                let i = if self.rot == usize::MAX { (i + c) % vars.len() } else { (i + self.rot) % vars.len() };
                Val::Variant(i, Box::new(self.val(ctx, &vars[i].2)))
            }
            Ty::Named(n) => match &s.defs[n] {
                Def::Struct { fields, .. } => Val::Struct(fields.iter().map(|f| self.val(ctx, &f.1)).collect()),
                Def::Enum { vars, .. } => {
                    let c = self.next() as usize;
                    let i = if self.enums { ctx.choose(vars.len().min(40)) } else { 0 };
                    Val::Sym((i + c) % vars.len())
                }
                Def::Bits { fields, .. } => {
                    let bits: u32 = fields.iter().filter(|f| !f.0.starts_with("__")).count() as u32;
                    let c = self.next() as usize;
                    let n = 1usize << bits;
                    let i = if self.enums { ctx.choose(n) } else { 0 };
                    let mut v = 0u64;
                    let (mut pos, mut k) = (0, 0);
                    for f in fields {
                        if !f.0.starts_with("__") {
                            if ((i + c) % n) >> k & 1 == 1 {
                                v |= 1 << pos;
                            }
                            k += 1;
                        }
                        pos += f.1;
                    }
                    Val::Bits(v)
                }
                Def::Union { .. } => unreachable!(),
            },
        }
    }
}

// ---------------------------------------------------------------- JSON

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn f32_json(bits: u32) -> Value {
    let f = f32::from_bits(bits);
    if f.is_finite() {
        json!(f)
    } else {
        Value::Null
    }
}

pub fn to_json(t: &Ty, v: &Val) -> Value {
    let s = Schema::get();
    match (t, v) {
        (Ty::U(_), Val::Int(i)) => json!(i),
        (Ty::I(n), Val::Int(i)) => {
            let sh = 64 - *n as u32 * 8;
            json!(((*i << sh) as i64) >> sh)
        }
        (Ty::F32, Val::F32(b)) => f32_json(*b),
        (Ty::Unit, _) => Value::Null,
        (Ty::Str(_), Val::Str(x)) => match x {
            None => Value::Null,
            Some(b) => json!(std::str::from_utf8(b).unwrap_or("")),
        },
        (Ty::Bytes, Val::Bytes(b)) => json!(hex(b)),
        (Ty::Arr(e), Val::List(l)) | (Ty::Fix(e, _), Val::List(l)) => Value::Array(l.iter().map(|x| to_json(e, x)).collect()),
        (Ty::Ptr(e), Val::Opt(o)) => match o {
            None => Value::Null,
            Some(x) => to_json(e, x),
        },
        (Ty::Enum64(_), Val::Null) => json!({ "data": null }),
        (Ty::Enum64(u), Val::Variant(i, x)) => {
            let Def::Union { vars } = &s.defs[u] else { unreachable!() };
            let mut m = Map::new();
            m.insert(vars[*i].1.clone(), to_json(&vars[*i].2, x));
            json!({ "data": m })
        }
        (Ty::Named(n), _) => match (&s.defs[n], v) {
            (Def::Struct { fields, .. }, Val::Struct(l)) => {
                let mut m = Map::new();
                for (f, x) in fields.iter().zip(l) {
                    m.insert(f.0.clone(), to_json(&f.1, x));
                }
                Value::Object(m)
            }
            (Def::Enum { vars, .. }, Val::Sym(i)) => json!(vars[*i].0),
            (Def::Bits { size, .. }, Val::Bits(b)) => json!({ "bytes": b.to_le_bytes()[..*size as usize] }),
            _ => unreachable!("{n}"),
        },
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- reference encoder

#[derive(Clone, Debug, PartialEq)]
pub enum MarkKind {
    Offset,
    Count,
    Tag,
    Scalar,
    Symbol,
    Text,
}

#[derive(Clone, Debug)]
pub struct Mark {
    pub pos: u64,
    pub size: u8,
    pub kind: MarkKind,
    pub what: String,
}

/// How pointed-to data is placed.
#[derive(Clone, Debug, PartialEq)]
pub enum Layout {
    /// the canonical layout of ssbh_offsets.md
    Canonical,
    /// canonical order with extra bytes (filled with 0xCC) before every block
    Gap(u64),
    /// blocks are placed in breadth-first / last-in-first-out order, `u64` bytes apart
    Queue { lifo: bool, gap: u64 },
    /// like Queue{fifo}, but equal strings are stored once
    Shared,
    /// like Queue fifo, but equal blocks of any kind are stored once and empty arrays keep a non-null offset
    NonNullEmpty,
    /// like Queue fifo, with the given distance before every block; the bytes between do not exist in `buf`
    Far(u64),
}

struct Pending {
    at: u64,
    kind: u8, // 0 pointer to value, 1 array elements, 2 bytes
    ty: Ty,
    val: Val,
}

pub struct Enc {
    pub buf: Vec<u8>,
    data_ptr: u64,
    pub marks: Vec<Mark>,
    layout: Layout,
    pending: std::collections::VecDeque<Pending>,
    strings: HashMap<Vec<u8>, u64>,
    want_marks: bool,
    /// position of the last empty byte buffer (in-memory writers extend the file up to it)
    empty_end: u64,
    /// positions in the file and in `buf` at which the pieces start (only one without Layout::Far)
    pieces: Vec<(u64, usize)>,
}

fn round_up(v: u64, n: u64) -> u64 {
    v.div_ceil(n) * n
}

impl Enc {
    pub fn new(layout: Layout, want_marks: bool) -> Enc {
        Enc { buf: vec![], data_ptr: 0, marks: vec![], layout, pending: Default::default(), strings: HashMap::new(), want_marks, empty_end: 0, pieces: vec![(0, 0)] }
    }
    fn put(&mut self, pos: u64, b: &[u8]) {
        let piece = self.pieces[self.pieces.partition_point(|x| x.0 <= pos) - 1];
        let p = piece.1 + (pos - piece.0) as usize;
        let e = p + b.len();
        if self.buf.len() < e {
            let fill = if matches!(self.layout, Layout::Canonical) { 0 } else { 0xCC };
            self.buf.resize(e, fill);
        }
        self.buf[p..e].copy_from_slice(b);
    }
    fn mark(&mut self, pos: u64, size: u8, kind: MarkKind, what: &str) {
        if self.want_marks {
            self.marks.push(Mark { pos, size, kind, what: what.into() });
        }
    }
    fn bump(&mut self, end: u64) {
        if self.data_ptr < end {
            self.data_ptr = end;
        }
    }
    /// Places a block behind the pointer at `at`.
    fn pointee(&mut self, at: u64, kind: u8, ty: &Ty, val: &Val) {
        let s = Schema::get();
        let empty = match val {
            Val::List(l) => kind == 1 && l.is_empty(),
            Val::Bytes(b) => b.is_empty(),
            _ => false,
        };
        match self.layout.clone() {
            Layout::Canonical | Layout::Gap(_) => {
                let gap = if let Layout::Gap(g) = self.layout { g } else { 0 };
                let align = match (kind, ty) {
                    (0, Ty::Str(n)) => *n, // string data itself
                    (0, t) => s.align(t),
                    _ => 8,
                };
                self.data_ptr = round_up(self.data_ptr, align);
                if empty {
                    self.put(at, &0u64.to_le_bytes());
                    if kind == 2 {
                        // an empty buffer at the very end may or may not pad the file
                        self.empty_end = self.empty_end.max(self.data_ptr);
                    }
                    return;
                }
                self.data_ptr += gap;
                let start = self.data_ptr;
                self.put(at, &(start - at).to_le_bytes());
                let end = self.block(start, kind, ty, val);
                match kind {
                    0 => {
                        if end > self.data_ptr {
                            self.data_ptr = round_up(end, align);
                        }
                    }
                    _ => self.bump(end),
                }
            }
            _ => {
                if empty && self.layout != Layout::NonNullEmpty {
                    self.put(at, &0u64.to_le_bytes());
                    return;
                }
                self.put(at, &0u64.to_le_bytes());
                self.pending.push_back(Pending { at, kind, ty: ty.clone(), val: val.clone() });
            }
        }
    }
    /// Encodes the block itself, returns its end.
    fn block(&mut self, start: u64, kind: u8, ty: &Ty, val: &Val) -> u64 {
        let s = Schema::get();
        match (kind, ty, val) {
            (0, Ty::Str(n), Val::Str(Some(b))) => {
                if b.is_empty() {
                    self.put(start, &vec![0u8; *n as usize]);
                    start + n
                } else {
                    self.put(start, b);
                    self.put(start + b.len() as u64, &[0]);
                    start + b.len() as u64 + 1
                }
            }
            (1, e, Val::List(l)) => {
                let sz = s.size(e);
                self.bump(start + sz * l.len() as u64);
                let mut p = start;
                for x in l {
                    p = self.enc(p, e, x);
                }
                p
            }
            (2, _, Val::Bytes(b)) => {
                self.put(start, b);
                start + b.len() as u64
            }
            (0, t, v) => self.enc(start, t, v),
            _ => unreachable!(),
        }
    }
    /// Encodes a value in place and returns the position behind it.
    pub fn enc(&mut self, pos: u64, t: &Ty, v: &Val) -> u64 {
        let s = Schema::get();
        match (t, v) {
            (Ty::U(n), Val::Int(i)) | (Ty::I(n), Val::Int(i)) => {
                self.put(pos, &i.to_le_bytes()[..*n as usize]);
                self.mark(pos, *n, MarkKind::Scalar, "int");
                pos + *n as u64
            }
            (Ty::F32, Val::F32(b)) => {
                self.put(pos, &b.to_le_bytes());
                self.mark(pos, 4, MarkKind::Scalar, "f32");
                pos + 4
            }
            (Ty::Unit, _) => pos,
            (Ty::Str(_), Val::Str(x)) => {
                self.bump(pos + 8);
                self.mark(pos, 8, MarkKind::Offset, "string");
                match x {
                    None => self.put(pos, &0u64.to_le_bytes()),
                    Some(_) => self.pointee(pos, 0, t, v),
                }
                pos + 8
            }
            (Ty::Bytes, Val::Bytes(b)) => {
                self.bump(pos + 16);
                self.mark(pos, 8, MarkKind::Offset, "bytes");
                self.mark(pos + 8, 8, MarkKind::Count, "bytes");
                self.put(pos + 8, &(b.len() as u64).to_le_bytes());
                self.pointee(pos, 2, t, v);
                pos + 16
            }
            (Ty::Arr(e), Val::List(l)) => {
                self.bump(pos + 16);
                self.mark(pos, 8, MarkKind::Offset, "array");
                self.mark(pos + 8, 8, MarkKind::Count, "array");
                self.put(pos + 8, &(l.len() as u64).to_le_bytes());
                self.pointee(pos, 1, e, v);
                pos + 16
            }
            (Ty::Fix(e, _), Val::List(l)) => {
                let mut p = pos;
                for x in l {
                    p = self.enc(p, e, x);
                }
                p
            }
            (Ty::Ptr(e), Val::Opt(o)) => {
                self.bump(pos + 8);
                self.mark(pos, 8, MarkKind::Offset, "pointer");
                match o {
                    None => self.put(pos, &0u64.to_le_bytes()),
                    Some(x) => {
                        // a pointer to a string is a pointer to the (8-byte aligned) string pointer
                        if let Ty::Str(_) = **e {
                            self.pointee_of_strptr(pos, e, x)
                        } else {
                            self.pointee(pos, 0, e, x)
                        }
                    }
                }
                pos + 8
            }
            (Ty::Enum64(u), v) => {
                let Def::Union { vars } = &s.defs[u] else { unreachable!() };
                self.bump(pos + 16);
                self.mark(pos, 8, MarkKind::Offset, "union");
                self.mark(pos + 8, 8, MarkKind::Tag, u);
                match v {
                    Val::Null => {
                        self.put(pos, &[0u8; 16]);
                    }
                    Val::Variant(i, x) => {
                        self.put(pos + 8, &vars[*i].0.to_le_bytes());
                        let w = Ty::Named(format!("@{u}@{i}"));
                        self.union_pointee(pos, &w, &vars[*i].2, x);
                    }
                    _ => unreachable!(),
                }
                pos + 16
            }
            (Ty::Named(n), v) => match (&s.defs[n], v) {
                (Def::Struct { fields, pad }, Val::Struct(l)) => {
                    self.bump(pos + s.size(t));
                    let mut p = pos;
                    for (f, x) in fields.iter().zip(l) {
                        p = self.enc(p, &f.1, x);
                    }
                    let fill = if self.layout == Layout::Canonical { 0 } else { 0xCC };
                    self.put(p, &vec![fill; *pad as usize]);
                    p + pad
                }
                (Def::Enum { size, vars }, Val::Sym(i)) => {
                    self.put(pos, &vars[*i].1.to_le_bytes()[..*size as usize]);
                    self.mark(pos, *size, MarkKind::Symbol, n);
                    pos + *size as u64
                }
                (Def::Bits { size, .. }, Val::Bits(b)) => {
                    self.put(pos, &b.to_le_bytes()[..*size as usize]);
                    self.mark(pos, *size, MarkKind::Scalar, "bits");
                    pos + *size as u64
                }
                _ => unreachable!(),
            },
            _ => unreachable!("{t:?} {v:?}"),
        }
    }
    fn strptr(&mut self, at: u64, e: &Ty, x: &Val, align: u64) {
        // canonical placement of a string *pointer* (8 bytes) behind the pointer at `at`
        let gap = if let Layout::Gap(g) = self.layout { g } else { 0 };
        self.data_ptr = round_up(self.data_ptr, align) + gap;
        let start = self.data_ptr;
        self.put(at, &(start - at).to_le_bytes());
        let end = self.enc(start, e, x);
        if end > self.data_ptr {
            self.data_ptr = round_up(end, align);
        }
    }
    fn pointee_of_strptr(&mut self, at: u64, e: &Ty, x: &Val) {
        match self.layout {
            Layout::Canonical | Layout::Gap(_) => self.strptr(at, e, x, 8),
            _ => {
                self.put(at, &0u64.to_le_bytes());
                self.pending.push_back(Pending { at, kind: 3, ty: e.clone(), val: x.clone() });
            }
        }
    }
    fn union_pointee(&mut self, at: u64, _w: &Ty, t: &Ty, x: &Val) {
        match self.layout {
            // unions are always 8-byte aligned
            Layout::Canonical | Layout::Gap(_) => {
                let gap = if let Layout::Gap(g) = self.layout { g } else { 0 };
                self.data_ptr = round_up(self.data_ptr, 8) + gap;
                let start = self.data_ptr;
                self.put(at, &(start - at).to_le_bytes());
                self.bump(start + Schema::get().size(t));
                let end = self.enc(start, t, x);
                if end > self.data_ptr {
                    self.data_ptr = round_up(end, 8);
                }
            }
            _ => {
                self.put(at, &0u64.to_le_bytes());
                self.pending.push_back(Pending { at, kind: 3, ty: t.clone(), val: x.clone() });
            }
        }
    }
    fn drain(&mut self) {
        loop {
            let lifo = matches!(self.layout, Layout::Queue { lifo: true, .. });
            let p = if lifo { self.pending.pop_back() } else { self.pending.pop_front() };
            let Some(p) = p else { return };
            let gap = if let Layout::Queue { gap, .. } = self.layout { gap } else { 0 };
            if self.layout == Layout::Shared && p.kind == 0 {
                if let Val::Str(Some(b)) = &p.val {
                    if let Some(&at) = self.strings.get(b) {
                        if at > p.at {
                            self.put(p.at, &(at - p.at).to_le_bytes());
                            continue;
                        }
                    }
                }
            }
            let start = if let Layout::Far(gap) = self.layout {
                let last = self.pieces.last().unwrap();
                let start = last.0 + (self.buf.len() - last.1) as u64 + gap;
                self.pieces.push((start, self.buf.len()));
                start
            } else {
                self.buf.len() as u64 + gap
            };
            if let Val::Str(Some(b)) = &p.val {
                if p.kind == 0 {
                    self.strings.insert(b.clone(), start);
                }
            }
            self.put(p.at, &(start - p.at).to_le_bytes());
            if p.kind == 3 {
                let sz = Schema::get().size(&p.ty);
                self.put(start, &vec![0u8; sz as usize]);
                self.enc(start, &p.ty, &p.val);
            } else {
                if p.kind == 1 {
                    if let Val::List(l) = &p.val {
                        let sz = Schema::get().size(&p.ty) * l.len() as u64;
                        self.put(start, &vec![0u8; sz as usize]);
                    }
                }
                self.block(start, p.kind, &p.ty, &p.val);
            }
        }
    }
}

/// Encodes a whole SSBH file.
pub fn encode_file(root: &Root, ver: &Version, val: &Val, layout: Layout, want_marks: bool) -> Enc {
    let s = Schema::get();
    let mut e = Enc::new(layout, want_marks);
    e.put(0, b"HBSS");
    e.put(4, &64u64.to_le_bytes());
    e.put(12, &0u32.to_le_bytes());
    e.put(16, &root.magic);
    e.put(20, &ver.major.to_le_bytes());
    e.put(22, &ver.minor.to_le_bytes());
    let size = s.size(&ver.body) + ver.pad_after;
    e.data_ptr = 24 + size;
    if !matches!(e.layout, Layout::Canonical) {
        e.put(24, &vec![0u8; size as usize]);
    }
    let end = e.enc(24, &ver.body, val);
    e.put(end, &vec![0u8; ver.pad_after as usize]);
    e.drain();
    if ver.align_after > 0 {
        let n = round_up(e.buf.len() as u64, ver.align_after) as usize;
        e.buf.resize(n, 0);
    }
    e
}

impl Enc {
    /// The file as a stream that has only the pieces in memory.
    pub fn far(&self) -> crate::far::Far {
        let ends = self.pieces.iter().skip(1).map(|p| p.1).chain([self.buf.len()]);
        crate::far::Far::new(self.pieces.iter().zip(ends).map(|(p, e)| (p.0, self.buf[p.1..e].to_vec())).collect(), 0xcc)
    }
    pub fn diff(&self, got: &[u8]) -> Option<String> {
        crate::util::bytes_diff(&self.buf, got)
    }
}

pub fn file_json(root: &Root, ver: &Version, val: &Val) -> Value {
    let mut inner = Map::new();
    inner.insert(ver.name.clone(), to_json(&ver.body, val));
    let mut m = Map::new();
    m.insert(root.name.clone(), Value::Object(inner));
    Value::Object(m)
}
