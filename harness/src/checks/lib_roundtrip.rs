//! C01 write/read round trip, C02 canonical layout, C03 arbitrary layouts.
use crate::explore::*;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, fmt, Check};
use std::io::Cursor;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            level: "exploration",
            rule: "one execution = one value tree of one format version (shape, strings, numbers, union variants, enum symbols chosen by the explorer), built through the public types, written, read back, compared field by field, and written again; non-trivial when the file has a body; distinct by file bytes",
            assumptions: &["value trees within the deviation bound from the default tree of each family"],
            scenarios: |t| {
                let mut v = families(t, 2, roundtrip);
                v.extend(very_long(t));
                v
            },
            hang_s: 400,
        },
        Check {
            id: "C02",
            level: "exploration",
            rule: "as C01, and the bytes produced by the library are compared with an independent encoder written from the offset rules",
            assumptions: &["the independent schema (harness/schema) describes the formats"],
            scenarios: |t| families(t, 2, layout),
            hang_s: 60,
        },
        Check {
            id: "C03",
            level: "exploration",
            rule: "one execution = one value tree encoded by the independent encoder in one of the placement policies (canonical, gaps, fifo/lifo queues, unaligned, shared strings, non-null empty arrays), read by the library and compared with the model value; distinct by file bytes",
            assumptions: &["offsets are non-negative and relative to the position of the offset"],
            scenarios: |t| {
                let mut v = families(t, 1, layouts_read);
                v.extend(super::pointers::scenarios());
                v
            },
            hang_s: 60,
        },
    ]
}

type Body = fn(&mut Ctx, &Root, &Version, Gen) -> RunResult;

fn families(thorough: bool, kshape: u8, body: Body) -> Vec<Scenario> {
    let s = Schema::get();
    let mut out = vec![];
    for (ri, r) in s.roots.iter().enumerate() {
        for (vi, v) in r.versions.iter().enumerate() {
            let mk = |tag: &str, k: u8, g: Gen| {
                scenario(format!("{}-{}-{tag}", r.name, v.name), k, move |ctx: &mut Ctx| {
                    let s = Schema::get();
                    body(ctx, &s.roots[ri], &s.roots[ri].versions[vi], g.clone())
                })
            };
            let mut full = Gen::standard(2);
            full.nonfinite = true;
            out.push(mk("values2", 1, full.clone()));
            out.push(mk("shape1", if thorough { 2 } else { kshape }, Gen::structural(1)));
            out.push(mk("long", 1, Gen::huge()));
            let f = full.clone();
            out.push(scenario(format!("{}-{}-same", r.name, v.name), 1, move |ctx: &mut Ctx| {
                let s = Schema::get();
                let g = Gen { nonfinite: true, ..Gen::same(ctx, f.deflen) };
                body(ctx, &s.roots[ri], &s.roots[ri].versions[vi], g)
            }));
            let unions = match r.name.as_str() {
                "Matl" => 9,
                "Nrpd" => 15,
                _ => 0,
            };
            if unions > 0 {
                let mut f1 = full.clone();
                f1.deflen = 1;
                out.push(scenario(format!("{}-{}-variants", r.name, v.name), 1, move |ctx: &mut Ctx| {
                    let s = Schema::get();
                    let rot = ctx.free(unions);
                    body(ctx, &s.roots[ri], &s.roots[ri].versions[vi], Gen { rot, ..f1.clone() })
                }));
            }
            if thorough {
                let mut f3 = full.clone();
                f3.deflen = 3;
                out.push(mk("values3", 1, f3));
                let mut f1 = full.clone();
                f1.deflen = 1;
                out.push(mk("values1", 2, f1));
                out.push(mk("shape1x3", 3, Gen { strs: &["", "abc"], lens: &[0, 1, 2], byte_lens: &[0, 8], ..Gen::structural(1) }));
            }
        }
    }
    out
}

/// Counts beyond 16 bits for every array of every format, and byte buffers around the size up to
/// which the reader reserves memory in advance.
fn very_long(thorough: bool) -> Vec<Scenario> {
    let s = Schema::get();
    let mut out = vec![];
    for (ri, r) in s.roots.iter().enumerate() {
        for (vi, v) in r.versions.iter().enumerate() {
            // reading arrays is the same code for all elements: the small ones suffice
            let simple = ["Nlst", "Modl", "Skel", "Shdr", "Adj"].contains(&r.name.as_str());
            if !simple && !thorough {
                continue;
            }
            out.push(scenario(format!("{}-{}-verylong", r.name, v.name), 1, move |ctx: &mut Ctx| {
                let s = Schema::get();
                let g = Gen { lens: if simple || thorough { &[65537] } else { &[] }, byte_lens: &[], strs: &[], null_str: false, ..Gen::huge() };
                roundtrip(ctx, &s.roots[ri], &s.roots[ri].versions[vi], g)
            }));
        }
    }
    out.push(scenario("byte-buffers", 0, |ctx: &mut Ctx| {
        use ssbh_lib::formats::anim::Anim;
        let n = [(100 << 20) - 1, 100 << 20, (100 << 20) + 1, 129 << 20][ctx.free(4)];
        let two = ctx.free(2) == 1;
        ctx.hash_u64(n as u64 * 2 + two as u64);
        let bytes: Vec<u8> = (0..n).map(|i: usize| (i ^ i >> 8 ^ i >> 16) as u8).collect();
        macro_rules! go {
            ($t:ty, $v:expr, $pat:pat => $buf:expr) => {{
                let v: $t = $v;
                let mut w = Cursor::new(Vec::new());
                v.write(&mut w).or_fail("write")?;
                let b = w.into_inner();
                let f2 = <$t>::read(&mut Cursor::new(&b)).map_err(|e| failure("reread:bytes", format!("a file with a buffer of {n} bytes can not be read: {e}")))?;
                let back = match &f2 {
                    $pat => $buf,
                    #[allow(unreachable_patterns)]
                    _ => return fail("value:bytes", "another version was read"),
                };
                ensure!(back.elements == bytes, "value:bytes", "a buffer of {n} bytes changes");
                let mut w = Cursor::new(Vec::new());
                f2.write(&mut w).or_fail("rewrite")?;
                ensure!(w.into_inner() == b, "rewrite:bytes", "a buffer of {n} bytes is written differently the second time");
            }};
        }
        if two {
            use ssbh_lib::formats::shdr::*;
            go!(Shdr, Shdr::V12 { shaders: vec![Shader { name: "s".into(), shader_stage: ShaderStage::Vertex, unk3: 7, shader_binary: bytes.clone().into(), binary_size: n as u64 }].into() },
                Shdr::V12 { shaders } => &shaders.elements[0].shader_binary);
        } else {
            go!(Anim, Anim::V20 { final_frame_index: 1.0, unk1: 1, unk2: 3, name: "n".into(), groups: vec![].into(), buffer: bytes.clone().into() }, Anim::V20 { buffer, .. } => buffer);
        }
        ctx.steps += 3;
        Ok(true)
    }));
    out
}

fn gen_val(ctx: &mut Ctx, r: &Root, v: &Version, mut g: Gen) -> Val {
    let val = g.val(ctx, &v.body);
    ctx.note(|| {
        let mut j = file_json(r, v, &val).to_string();
        if j.len() > 1200 {
            let mut n = 1200;
            while !j.is_char_boundary(n) {
                n -= 1
            }
            j.truncate(n);
        }
        j
    });
    val
}

/// Does the tree contain something JSON can not carry (non-finite floats, non-UTF-8 strings)?
fn binary_only(v: &Val) -> bool {
    match v {
        Val::F32(b) => !f32::from_bits(*b).is_finite(),
        Val::Str(Some(b)) => std::str::from_utf8(b).is_err(),
        Val::List(l) | Val::Struct(l) => l.iter().any(binary_only),
        // a pointer to a null string and a null pointer are the same JSON value
        Val::Opt(Some(x)) if **x == Val::Str(None) => true,
        Val::Opt(Some(x)) | Val::Variant(_, x) => binary_only(x),
        _ => false,
    }
}

/// Builds the library value: through the public types (serde) where possible, otherwise by reading
/// the reference encoding.
fn build(ctx: &mut Ctx, r: &Root, v: &Version, val: &Val) -> Result<ssbh_lib::SsbhFile, Failure> {
    ctx.step();
    if binary_only(val) {
        let e = encode_file(r, v, val, Layout::Canonical, false);
        fmt::read(&e.buf).or_fail("build:read")
    } else {
        fmt::from_json(&file_json(r, v, val)).or_fail("build:json")
    }
}

fn roundtrip(ctx: &mut Ctx, r: &Root, v: &Version, g: Gen) -> RunResult {
    let val = gen_val(ctx, r, v, g);
    let f = build(ctx, r, v, &val)?;
    let b1 = fmt::write(&f).or_fail("write")?;
    ctx.hash_bytes(&b1);
    let f2 = fmt::read(&b1).map_err(|e| failure(format!("reread:{}", r.name), format!("the written file can not be read: {e}")))?;
    let want = file_json(r, v, &val);
    let got = fmt::json(&f2);
    if let Some(d) = json_diff(&want, &got) {
        return fail(&format!("value:{}", path_key(&d)), format!("written value differs from the value read back at {d}"));
    }
    let b2 = fmt::write(&f2).or_fail("rewrite")?;
    if let Some(d) = bytes_diff(&b1, &b2) {
        return fail(&format!("rewrite:{}:{}", r.name, v.name), format!("writing the value read back gives other bytes: {d}"));
    }
    // writing is a function of the value
    let b3 = fmt::write(&f).or_fail("write")?;
    ensure!(b1 == b3, format!("nondeterministic:{}", r.name), "two writes of one value differ");
    if binary_only(&val) {
        // bit exactness of what JSON can not show
        if let Some(d) = encode_file(r, v, &val, Layout::Canonical, false).diff(&b2) {
            return fail(&format!("bits:{}:{}", r.name, v.name), format!("not preserved bit by bit: {d}"));
        }
    }
    ctx.steps += 4;
    Ok(b1.len() > 24)
}

fn layout(ctx: &mut Ctx, r: &Root, v: &Version, g: Gen) -> RunResult {
    let val = gen_val(ctx, r, v, g);
    let f = build(ctx, r, v, &val)?;
    let want = encode_file(r, v, &val, Layout::Canonical, false);
    let got = fmt::write(&f).or_fail("write")?;
    ctx.hash_bytes(&want.buf);
    ctx.steps += 1;
    if let Some(d) = want.diff(&got) {
        return fail(&format!("layout:{}:{}", r.name, v.name), format!("expected layout differs from the written file: {d}"));
    }
    Ok(want.buf.len() > 24)
}

fn layouts_read(ctx: &mut Ctx, r: &Root, v: &Version, g: Gen) -> RunResult {
    // long payloads only with two of the policies
    let pick = if g.huge { [0, 4][ctx.free(2)] } else { ctx.free(11) };
    let l = match pick {
        0 => Layout::Canonical,
        1 => Layout::Gap(1),
        2 => Layout::Gap(8),
        3 => Layout::Gap(4096),
        4 => Layout::Queue { lifo: false, gap: 0 },
        5 => Layout::Queue { lifo: true, gap: 0 },
        6 => Layout::Queue { lifo: true, gap: 3 },
        7 => Layout::Shared,
        8 => Layout::NonNullEmpty,
        9 => Layout::Far(1 << 31),
        _ => Layout::Far(1 << 32),
    };
    let mut g = g;
    g.nonutf8 = true;
    let val = gen_val(ctx, r, v, g);
    ctx.note(|| format!("layout {l:?}"));
    let e = encode_file(r, v, &val, l.clone(), false);
    ctx.hash_bytes(&e.buf);
    ctx.hash_u64(pick as u64);
    let f = if let Layout::Far(_) = l { ssbh_lib::SsbhFile::read(&mut e.far()).map_err(|e| e.to_string()) } else { fmt::read(&e.buf) };
    let f = f.map_err(|e| failure(format!("read:{}:{}", r.name, v.name), format!("valid file rejected ({l:?}): {e}")))?;
    let want = file_json(r, v, &val);
    if let Some(d) = json_diff(&want, &fmt::json(&f)) {
        return fail(&format!("value:{}", path_key(&d)), format!("value in the file ({l:?}) differs from the value read at {d}"));
    }
    let b = fmt::write(&f).or_fail("write")?;
    if let Some(d) = encode_file(r, v, &val, Layout::Canonical, false).diff(&b) {
        return fail(&format!("normalize:{}:{}", r.name, v.name), format!("rewriting does not give the canonical file: {d}"));
    }
    ctx.steps += 2;
    Ok(e.buf.len() > 24)
}
