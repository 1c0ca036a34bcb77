//! C31: shader metadata against hand placed shader binaries.
use crate::explore::*;
use crate::util::*;
use crate::{ensure, Check};
use ssbh_data::shdr_data::{Attribute, DataType, MetaData, ShaderBinary, ShdrData};
use ssbh_lib::formats::shdr::{Shader, ShaderStage, Shdr};
use std::io::Cursor;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C31",
        level: "exploration",
        rule: "one case = one shader binary (or one shader file) placed by the encoder and read; distinct by its bytes",
        assumptions: &["the layout of the binary (fixed positions 288, 2504 and 2896, entry sizes, data type codes) is the one the structures of shdr_data.rs declare"],
        scenarios,
        hang_s: 60,
    }]
}

const TYPES: [(u32, DataType); 15] = [
    (0, DataType::Boolean),
    (4, DataType::Int),
    (7, DataType::Unk7),
    (20, DataType::UnsignedInt),
    (22, DataType::UVec3),
    (36, DataType::Float),
    (37, DataType::Vector2),
    (38, DataType::Vector3),
    (39, DataType::Vector4),
    (50, DataType::Matrix4x4),
    (67, DataType::Sampler2d),
    (68, DataType::Sampler3d),
    (69, DataType::SamplerCube),
    (73, DataType::Sampler2dArray),
    (103, DataType::Image2d),
];

/// One entry: its name (bytes and stated length) and its numbers in file order.
#[derive(Clone)]
struct Entry {
    name: Vec<u8>,
    /// stated length: the name, its terminator
    length: u32,
    nums: Vec<u32>,
}
const NUMS: [usize; 4] = [9, 16, 5, 5];
const SIZES: [usize; 4] = [108, 164, 92, 92];

fn entry(kind: usize, i: usize, name: &[u8]) -> Entry {
    let mut nums: Vec<u32> = (0..NUMS[kind]).map(|n| (1000 * (kind + 1) + 100 * i + n + 1) as u32).collect();
    if kind > 0 {
        nums[0] = TYPES[(i + 3 * kind) % 15].0;
    }
    Entry { name: name.to_vec(), length: name.len() as u32 + 1, nums }
}

#[derive(Clone)]
struct Spec {
    tables: [Vec<Entry>; 4],
    /// order of the four tables and the string section (index 4) in the file
    order: [usize; 5],
    gap: usize,
    /// 0: behind the code, 1: between the header and the code
    area: usize,
    /// 0: at the area, 1: zero, 2: a little before the area
    base: usize,
    fill: u8,
    /// 0: in order, 1: reversed, 2: equal strings and tails shared
    strings: usize,
    code: Vec<u8>,
}
impl Spec {
    fn new(tables: [Vec<Entry>; 4]) -> Self {
        Spec { tables, order: [0, 1, 2, 3, 4], gap: 0, area: 0, base: 0, fill: 0, strings: 0, code: (0..32).map(|i| 0x40 + i).collect() }
    }
}

fn put(b: &mut Vec<u8>, at: usize, d: &[u8], fill: u8) {
    if b.len() < at + d.len() {
        b.resize(at + d.len(), fill);
    }
    b[at..at + d.len()].copy_from_slice(d);
}
fn put32(b: &mut Vec<u8>, at: usize, v: u32, fill: u8) {
    put(b, at, &v.to_le_bytes(), fill)
}

fn encode(s: &Spec) -> Vec<u8> {
    let f = s.fill;
    let mut b = vec![f; 2896];
    put(&mut b, 2896, &s.code, f);
    // the strings and their offsets
    let mut strings = vec![];
    let mut offs: Vec<Vec<u32>> = s.tables.iter().map(|t| vec![0; t.len()]).collect();
    let mut all: Vec<(usize, usize)> = (0..4).flat_map(|k| (0..s.tables[k].len()).map(move |i| (k, i))).collect();
    if s.strings == 1 {
        all.reverse();
    }
    if s.strings == 2 {
        // longest first, so that a tail is found in what is already there
        all.sort_by_key(|(k, i)| std::cmp::Reverse(s.tables[*k][*i].name.len()));
    }
    for (k, i) in all {
        let e = &s.tables[k][i];
        let mut z = e.name.clone();
        z.push(0);
        let at = if s.strings == 2 { strings.windows(z.len()).position(|w: &[u8]| w == z) } else { None };
        offs[k][i] = at.unwrap_or(strings.len()) as u32;
        if at.is_none() {
            strings.extend(&z);
        }
    }
    let area = if s.area == 0 { b.len() } else { 420 };
    let base = [area, 0, area - 12][s.base];
    let mut at = area;
    let mut pos = [0usize; 5];
    for k in s.order {
        at += s.gap;
        pos[k] = at;
        if k == 4 {
            put(&mut b, at, &strings, f);
            at += strings.len();
        } else {
            for (i, e) in s.tables[k].iter().enumerate() {
                put32(&mut b, at, offs[k][i], f);
                put32(&mut b, at + 4, e.length, f);
                put(&mut b, at + 8, &[f; 32], f);
                for (n, v) in e.nums.iter().enumerate() {
                    put32(&mut b, at + 40 + 4 * n, *v, f);
                }
                // the rest of the entry
                let used = 40 + 4 * e.nums.len();
                put(&mut b, at + used, &vec![f; SIZES[k] - used], f);
                at += SIZES[k];
            }
        }
    }
    if s.area == 1 {
        assert!(at <= 2504, "the area does not fit");
    }
    let h = 288;
    put32(&mut b, h, 7777, f);
    put32(&mut b, h + 4, base as u32, f);
    put32(&mut b, h + 8, 0, f);
    for k in 0..4 {
        put32(&mut b, h + 44 + 8 * k, s.tables[k].len() as u32, f);
        put32(&mut b, h + 44 + 8 * k + 4, (pos[k] - base) as u32, f);
    }
    for i in 0..5 {
        put32(&mut b, h + 76 + 4 * i, 90 + i as u32, f);
    }
    put32(&mut b, h + 96, 5, f);
    put32(&mut b, h + 100, strings.len() as u32, f);
    put32(&mut b, h + 104, (pos[4] - base) as u32, f);
    put32(&mut b, 2504, s.code.len() as u32, f);
    b
}

fn text(e: &Entry) -> String {
    let n = (e.length as usize).saturating_sub(1);
    String::from_utf8_lossy(&e.name[..n.min(e.name.len())]).to_string()
}
fn ty(code: u32) -> DataType {
    TYPES.iter().find(|t| t.0 == code).unwrap().1
}

fn check_meta(s: &Spec, m: &MetaData) -> Result<(), Failure> {
    ensure!(m.buffers.len() == s.tables[0].len(), "buffer_count", "{} buffers, expected {}", m.buffers.len(), s.tables[0].len());
    for (i, (a, e)) in m.buffers.iter().zip(&s.tables[0]).enumerate() {
        ensure!(a.name == text(e), "buffer_name", "buffer {i}: {:?}, expected {:?}", a.name, text(e));
        let got = [a.used_size_in_bytes, a.uniform_count, a.unk4 as u32, a.unk5 as u32, a.unk6 as u32, a.unk7 as u32];
        ensure!(got == e.nums[..6], "buffer_fields", "buffer {i}: {got:x?}, expected {:x?}", &e.nums[..6]);
    }
    ensure!(m.uniforms.len() == s.tables[1].len(), "uniform_count", "{} uniforms, expected {}", m.uniforms.len(), s.tables[1].len());
    for (i, (a, e)) in m.uniforms.iter().zip(&s.tables[1]).enumerate() {
        ensure!(a.name == text(e), "uniform_name", "uniform {i}: {:?}, expected {:?}", a.name, text(e));
        ensure!(a.data_type == ty(e.nums[0]), "uniform_type", "uniform {i}: {:?}, expected code {}", a.data_type, e.nums[0]);
        let got = [a.buffer_index as u32, a.uniform_buffer_offset as u32, a.unk11 as u32];
        let want = [e.nums[1], e.nums[2], e.nums[9]];
        ensure!(got == want, "uniform_fields", "uniform {i}: {got:x?}, expected {want:x?}");
    }
    for (k, list) in [(2, &m.inputs), (3, &m.outputs)] as [(usize, &Vec<Attribute>); 2] {
        let what = if k == 2 { "input" } else { "output" };
        ensure!(list.len() == s.tables[k].len(), &format!("{what}_count"), "{} {what}s, expected {}", list.len(), s.tables[k].len());
        for (i, (a, e)) in list.iter().zip(&s.tables[k]).enumerate() {
            ensure!(a.name == text(e), &format!("{what}_name"), "{what} {i}: {:?}, expected {:?}", a.name, text(e));
            ensure!(a.data_type == ty(e.nums[0]), &format!("{what}_type"), "{what} {i}: {:?}, expected code {}", a.data_type, e.nums[0]);
            ensure!(a.location as u32 == e.nums[2], &format!("{what}_location"), "{what} {i}: {}, expected {}", a.location, e.nums[2] as i32);
        }
    }
    Ok(())
}

fn read_meta(b: &[u8]) -> Result<MetaData, String> {
    MetaData::read(&mut Cursor::new(b)).map_err(|e| e.to_string())
}

fn check(ctx: &mut Ctx, s: &Spec) -> Result<(), Failure> {
    let b = encode(s);
    ctx.hash_bytes(&b);
    ctx.step();
    let m = match read_meta(&b) {
        Ok(m) => m,
        Err(e) => return fail("rejected", format!("a well-formed shader binary is rejected: {e}")),
    };
    check_meta(s, &m)?;
    ctx.step();
    let sb = match ShaderBinary::read(&mut Cursor::new(&b)) {
        Ok(m) => m,
        Err(e) => return fail("rejected_binary", format!("a well-formed shader binary is rejected: {e}")),
    };
    ensure!(sb.program_code == s.code, "code", "program code: {:?}", bytes_diff(&sb.program_code, &s.code));
    // JSON
    let v = serde_json::to_value(&m).or_fail("json")?;
    let m2: MetaData = serde_json::from_str(&serde_json::to_string(&m).or_fail("json")?).or_fail("json_back")?;
    ensure!(serde_json::to_value(&m2).or_fail("json")? == v, "json_changed", "the metadata changes through JSON");
    check_meta(s, &m2)
}

fn names() -> Vec<Vec<u8>> {
    vec![
        b"a".to_vec(),
        b"".to_vec(),
        b"gl_Position".to_vec(),
        b"Position".to_vec(),
        "gr\u{fc}n\u{3042}\u{1f600}".as_bytes().to_vec(),
        vec![b'x', 0xff, 0xc3, b'y'],
        (0..200).map(|i| b'A' + (i % 26)).collect(),
        b"a[0].b".to_vec(),
    ]
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let base = |c: [usize; 4]| -> Spec {
        let n: [&[u8]; 3] = [b"first", b"n", b"the_third_name"];
        Spec::new([0, 1, 2, 3].map(|k| (0..c[k]).map(|i| entry(k, i, format!("{}{k}", String::from_utf8_lossy(n[i % 3])).as_bytes())).collect()))
    };
    // every number of every entry
    v.push(scenario("fields", 2, move |ctx| {
        let vals = [0u32, 1, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0102_0304];
        let mut s = base([2, 2, 2, 2]);
        for k in 0..4 {
            for i in 0..2 {
                let first = if k == 0 { 0 } else { 1 };
                for n in first..NUMS[k] {
                    let c = ctx.choose(vals.len() + 1);
                    if c > 0 {
                        s.tables[k][i].nums[n] = vals[c - 1];
                    }
                }
            }
        }
        if ctx.choose(2) == 1 {
            s.fill = 0xa5;
        }
        check(ctx, &s).map(|_| true)
    }));
    if thorough {
        v.push(scenario("fields3", 3, move |ctx| {
            let vals = [0x8000_0001u32, 0xffff_ffff, 0x0102_0304];
            let mut s = base([2, 2, 2, 2]);
            for k in 0..4 {
                for i in 0..2 {
                    for n in usize::from(k > 0)..NUMS[k] {
                        let c = ctx.choose(vals.len() + 1);
                        if c > 0 {
                            s.tables[k][i].nums[n] = vals[c - 1];
                        }
                    }
                }
            }
            check(ctx, &s).map(|_| true)
        }));
    }
    // counts and placements
    for area in 0..2usize {
        v.push(scenario(format!("place{area}"), 0, move |ctx| {
            let lim = if thorough { 4 } else { 3 };
            let mut c = [0; 4];
            for x in &mut c {
                *x = ctx.free(lim);
            }
            let mut s = base(c);
            s.area = area;
            // a permutation of the five parts
            let mut left: Vec<usize> = vec![0, 1, 2, 3, 4];
            for n in 0..5 {
                let i = ctx.free(left.len());
                s.order[n] = left.remove(i);
            }
            s.gap = [0, 5][ctx.free(2)];
            s.base = ctx.free(3);
            s.fill = [0, 0xcd][ctx.free(2)];
            if area == 1 && (0..4).map(|k| c[k] * SIZES[k]).sum::<usize>() + 5 * s.gap + 20 * c.iter().sum::<usize>() > 2504 - 420 {
                return Ok(false);
            }
            check(ctx, &s).map(|_| c.iter().sum::<usize>() > 0)
        }));
    }
    // names
    v.push(scenario("names", 0, move |ctx| {
        let ns = names();
        let mut s = base([1, 1, 1, 1]);
        for k in 0..4 {
            let n = &ns[ctx.free(ns.len())];
            s.tables[k][0].name = n.clone();
            s.tables[k][0].length = n.len() as u32 + 1;
        }
        s.strings = ctx.free(3);
        s.order = [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0]][ctx.free(2)];
        check(ctx, &s).map(|_| true)
    }));
    // long names
    v.push(scenario("long_names", 0, move |ctx| {
        let lens = [63usize, 64, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 1023, 4096, 65535, 65536, 70000];
        let n = lens[ctx.free(lens.len())];
        let k = ctx.free(4);
        let i = ctx.free(2);
        let mut s = base([2, 2, 2, 2]);
        let name: Vec<u8> = (0..n).map(|i| b'A' + (i % 26) as u8).collect();
        s.tables[k][i].length = n as u32 + 1;
        s.tables[k][i].name = name;
        check(ctx, &s).map(|_| true).map_err(|mut f| {
            f.msg.truncate(600);
            f
        })
    }));
    // more entries than fit one byte
    v.push(scenario("many", 0, move |ctx| {
        let n = [127usize, 128, 129, 255, 256, 257, 300, 1025, 4097, if thorough { 65537 } else { 9000 }][ctx.free(10)];
        let k = ctx.free(5);
        let mut s = base([0, 1, 2, 3].map(|i| if i == k { n } else if k == 4 { 300 } else { 1 }));
        s.gap = [0, 5][ctx.free(2)];
        check(ctx, &s).map(|_| true).map_err(|mut f| {
            f.msg.truncate(600);
            f
        })
    }));
    // stated lengths: the text is what they cover without the terminator
    v.push(scenario("name_lengths", 0, move |ctx| {
        let mut s = base([1, 1, 1, 1]);
        let k = ctx.free(4);
        let n = ctx.free(12);
        s.tables[k][0].name = b"0123456789".to_vec();
        s.tables[k][0].length = n as u32;
        check(ctx, &s).map(|_| true)
    }));
    // data types, defined and undefined
    v.push(scenario("types", 0, move |ctx| {
        let k = 1 + ctx.free(3);
        let i = ctx.free(2);
        let mut codes: Vec<u32> = (0..600).collect();
        codes.extend((0..32).flat_map(|b| [1u32 << b, !(1u32 << b)]));
        codes.extend((8..32).flat_map(|b| TYPES.iter().map(move |t| t.0 | 1 << b)));
        for code in codes {
            ctx.case();
            let mut s = base([1, 2, 2, 2]);
            s.tables[k][i].nums[0] = code;
            if TYPES.iter().any(|t| t.0 == code) {
                check(ctx, &s)?;
            } else {
                let b = encode(&s);
                ctx.hash_bytes(&b);
                ensure!(read_meta(&b).is_err(), "undefined_type", "data type code {code} is accepted for table {k}");
            }
        }
        Ok(true)
    }));
    // program code
    v.push(scenario("code", 0, move |ctx| {
        let n = ctx.free(if thorough { 1025 } else { 131 });
        let mut s = base([1, 1, 0, 1]);
        s.code = (0..n).map(|i| (i * 7 + n) as u8).collect();
        s.area = ctx.free(2);
        check(ctx, &s).map(|_| true)
    }));
    // data that is not there
    v.push(scenario("truncated", 0, move |ctx| {
        let mut s = base([1, 2, 1, 1]);
        s.area = ctx.free(2);
        s.order = [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0]][ctx.free(2)];
        let b = encode(&s);
        for n in 0..b.len() {
            ctx.case();
            if let Ok(m) = read_meta(&b[..n]) {
                check_meta(&s, &m).map_err(|f| Failure { key: format!("truncated:{}", f.key), msg: format!("{n} of {} bytes: {}", b.len(), f.msg) })?;
                // what follows the last number or letter of the last part is not needed
                let slack = if s.order[4] == 4 { 1 } else { SIZES[s.order[4]] - 40 - 4 * NUMS[s.order[4]] };
                ensure!(s.area == 1 || n + slack >= b.len(), "truncated", "{n} of {} bytes are accepted", b.len());
            }
        }
        ctx.hash_bytes(&b);
        Ok(true)
    }));
    // several shaders of one file
    v.push(scenario("file", 0, move |ctx| {
        const STAGES: [ShaderStage; 4] = [ShaderStage::Vertex, ShaderStage::Geometry, ShaderStage::Fragment, ShaderStage::Compute];
        let n = ctx.free(4);
        // different or equal names, different or equal stages
        let naming = ctx.free(3);
        let mut specs = vec![];
        let mut shaders = vec![];
        for i in 0..n {
            let kind = ctx.free(4);
            let name = if naming == 0 { format!("shader{i}_{kind}") } else { "shader".to_string() };
            let mut s = base([[1, 0, 0, 0], [0, 2, 1, 0], [2, 1, 0, 1], [0, 0, 0, 0]][kind]);
            s.code = vec![i as u8 + 1; 16 * i];
            s.area = i % 2;
            let stage = if naming == 2 { STAGES[3] } else { STAGES[(kind + i) % 4] };
            let b = encode(&s);
            // the recorded size does not decide what is read
            let size = [b.len() as u64, 0, u64::MAX][i % 3];
            shaders.push(Shader { name: name.as_str().into(), shader_stage: stage, unk3: 2, shader_binary: b.into(), binary_size: size });
            specs.push((name, stage, s));
        }
        let shdr = Shdr::V12 { shaders: shaders.into() };
        let mut c = Cursor::new(Vec::new());
        shdr.write(&mut c).or_fail("write")?;
        ctx.hash_bytes(c.get_ref());
        for route in 0..2 {
            ctx.step();
            let d: ShdrData = if route == 0 {
                (&shdr).try_into().or_fail("convert")?
            } else {
                ShdrData::read(&mut Cursor::new(c.get_ref())).or_fail("read")?
            };
            ensure!(d.shaders.len() == n, "shader_count", "{} shaders, expected {n}", d.shaders.len());
            for (a, (name, stage, s)) in d.shaders.iter().zip(&specs) {
                ensure!(&a.name == name && a.shader_stage == *stage, "shader", "{:?} {:?}, expected {name:?} {stage:?}", a.name, a.shader_stage);
                check_meta(s, &a.meta_data)?;
            }
            let back: ShdrData = serde_json::from_str(&serde_json::to_string(&d).or_fail("json")?).or_fail("json_back")?;
            ensure!(serde_json::to_value(&back).or_fail("json")? == serde_json::to_value(&d).or_fail("json")?, "json_changed", "the data changes through JSON");
        }
        Ok(n > 0)
    }));
    v
}
