//! C04 dispatch, C09 codes, C10 JSON of raw files, C26 strings.
use crate::explore::*;
use crate::schema::*;
use crate::util::*;
use crate::{ensure, fmt, Check};
use serde_json::{json, Value};
use std::io::Cursor;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            level: "exploration",
            rule: "one execution = one file header (format, version numbers or magic bytes) with one body, read through the generic and a specific API; distinct by header and body bytes",
            assumptions: &["version numbers: 0..=64 and boundary values in both components; magics: all one-byte changes of both magics and all combinations of letters in use"],
            scenarios: c04,
            hang_s: 60,
        },
        Check {
            id: "C09",
            level: "exploration",
            rule: "one execution = one enumerated, tag or flag field of a file set to one code; distinct by file bytes",
            assumptions: &["codes 0..4352 and all boundary codes of the field width"],
            scenarios: c09,
            hang_s: 60,
        },
        Check {
            id: "C10",
            level: "exploration",
            rule: "one execution = one value tree converted to JSON text and back, or one invalid JSON text derived from a valid one; distinct by JSON text",
            assumptions: &["a pointer to a null string and a null pointer share their JSON form and are not distinguished"],
            scenarios: c10,
            hang_s: 60,
        },
        Check {
            id: "C26",
            level: "exploration",
            rule: "one execution = one byte string, alignment and construction route; distinct by content and route",
            assumptions: &["byte alphabet {00,01,20,41,7f,80,c3,a9,ff} up to length 4, lengths 0..=72 and around powers of two, all characters in six positions, all pairs of bytes in four"],
            scenarios: c26,
            hang_s: 60,
        },
    ]
}

fn base_val(ctx_deflen: usize, ver: &Version, rot: usize) -> Val {
    let mut g = Gen { scalars: Scalars::Fixed, rot, ..Gen::standard(ctx_deflen) };
    let mut c = Ctx::new(vec![], false);
    g.val(&mut c, &ver.body)
}

pub fn unions_of(root: &str) -> usize {
    match root {
        "Matl" => 9,
        "Nrpd" => 15,
        _ => 1,
    }
}

// ------------------------------------------------------------------ C04

const VERS: &[u16] = &[66, 99, 100, 127, 128, 254, 255, 256, 257, 258, 264, 265, 266, 511, 512, 0x0101, 0x0108, 0x0a00, 0x0105, 0x0106, 0x0107, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfffe, 0xffff];

fn c04(_t: bool) -> Vec<Scenario> {
    let mut out = vec![];
    // every file through every API
    out.push(scenario("apis", 0, |ctx: &mut Ctx| {
        let s = Schema::get();
        let r = &s.roots[ctx.free(s.roots.len())];
        let v = &r.versions[ctx.free(r.versions.len())];
        let val = base_val(1, v, 0);
        let typed = fmt::typed();
        let api = &typed[ctx.free(typed.len())];
        let e = encode_file(r, v, &val, Layout::Canonical, false);
        let b = &e.buf;
        ctx.hash_bytes(b);
        ctx.hash_bytes(api.name.as_bytes());
        ctx.note(|| format!("{} {} through {}", r.name, v.name, api.name));
        ctx.steps += 3;
        let f = fmt::read(b).or_fail("generic")?;
        let j = fmt::json(&f);
        ensure!(j == file_json(r, v, &val), "generic-value", "the generic API reads another value");
        let w = fmt::write(&f).or_fail("write")?;
        ensure!(w.len() >= 24 && w[16..20] == r.magic && w[..4] == *b"HBSS", "written-magic", "wrong magic written: {}", hexs(&w[..24.min(w.len())]));
        ensure!(w[20..22] == v.major.to_le_bytes() && w[22..24] == v.minor.to_le_bytes(), "written-version", "wrong version written: {}", hexs(&w[20..24]));
        if api.name == r.name {
            let (tj, tw) = (api.read)(b).or_fail("typed-read")?;
            ensure!(tj == j[&r.name], "typed-value", "{} reads another value than the generic API", api.name);
            if let Some(d) = bytes_diff(&w, &tw) {
                return fail("typed-write", format!("{} writes other bytes than the generic API: {d}", api.name));
            }
        } else {
            ensure!((api.read)(b).is_err(), "typed-accepts", "{} accepted a {} file", api.name, r.name);
            ensure!((api.is_type_error)(b), "typed-error", "{} on a {} file does not report a type mismatch", api.name, r.name);
        }
        Ok(true)
    }));
    // all version numbers
    out.push(scenario("versions", 0, |ctx: &mut Ctx| {
        let s = Schema::get();
        let ri = ctx.free(s.roots.len());
        let r = &s.roots[ri];
        // body: one of the versions' own bodies, or zeros
        let bi = ctx.free(r.versions.len() + 1);
        let pick = |i: usize| if i < 65 { i as u16 } else { VERS[i - 65] };
        let major = pick(ctx.free(65 + VERS.len()));
        let minor = pick(ctx.free(65 + VERS.len()));
        let bv = &r.versions[bi.min(r.versions.len() - 1)];
        let mut b = encode_file(r, bv, &base_val(1, bv, 0), Layout::Canonical, false).buf;
        if bi == r.versions.len() {
            b.truncate(24);
            b.resize(24 + 2048, 0);
        }
        b[20..22].copy_from_slice(&major.to_le_bytes());
        b[22..24].copy_from_slice(&minor.to_le_bytes());
        ctx.hash_bytes(&b);
        ctx.note(|| format!("{} version {major}.{minor}", r.name));
        ctx.steps += 1;
        let declared = r.versions.iter().find(|v| v.major == major && v.minor == minor);
        match (declared, fmt::read(&b)) {
            (None, Ok(_)) => fail("unsupported-accepted", format!("{} {major}.{minor} is not a supported version but was read", r.name)),
            (None, Err(_)) => Ok(true),
            (Some(v), Ok(f)) => {
                let j = fmt::json(&f);
                ensure!(j.get(&r.name).and_then(|x| x.get(&v.name)).is_some(), "version-variant", "{} {major}.{minor} was read as {}", r.name, j);
                Ok(true)
            }
            (Some(v), Err(e)) => {
                ensure!(v.name != bv.name || bi == r.versions.len(), "supported-rejected", "{} {major}.{minor} was rejected: {e}", r.name);
                Ok(true)
            }
        }
    }));
    // all one-byte changes of both magics
    out.push(scenario("magic-bytes", 0, |ctx: &mut Ctx| {
        let s = Schema::get();
        let r = &s.roots[ctx.free(s.roots.len())];
        let v = &r.versions[0];
        let at = ctx.free(8);
        let pos = if at < 4 { at } else { 12 + at };
        let byte = ctx.free(256) as u8;
        let mut b = encode_file(r, v, &base_val(1, v, 0), Layout::Canonical, false).buf;
        let orig = b[pos];
        b[pos] = byte;
        ctx.hash_bytes(&b);
        ctx.note(|| format!("{} byte {pos} = {byte:02x}", r.name));
        ctx.steps += 1;
        let ok = fmt::read(&b).is_ok();
        if byte == orig {
            ensure!(ok, "valid-rejected", "{} file rejected", r.name);
        } else {
            ensure!(!ok, "magic-accepted", "{} with byte {pos} changed to {byte:02x} was accepted", r.name);
        }
        Ok(true)
    }));
    // all combinations of letters used by the magics, with a body that every format can read
    out.push(scenario("magic-letters", 0, |ctx: &mut Ctx| {
        let s = Schema::get();
        let mut m = [0u8; 4];
        for (i, x) in m.iter_mut().enumerate() {
            let mut letters: Vec<u8> = s.roots.iter().map(|r| r.magic[i]).collect();
            letters.sort();
            letters.dedup();
            *x = letters[ctx.free(letters.len())];
        }
        let vers: Vec<(u16, u16)> = {
            let mut v: Vec<(u16, u16)> = s.roots.iter().flat_map(|r| r.versions.iter().map(|v| (v.major, v.minor))).collect();
            v.sort();
            v.dedup();
            v
        };
        let (major, minor) = vers[ctx.free(vers.len())];
        let mut b = vec![0u8; 2048];
        b[..4].copy_from_slice(b"HBSS");
        b[4..12].copy_from_slice(&64u64.to_le_bytes());
        b[16..20].copy_from_slice(&m);
        b[20..22].copy_from_slice(&major.to_le_bytes());
        b[22..24].copy_from_slice(&minor.to_le_bytes());
        ctx.hash_bytes(&b[..24]);
        ctx.note(|| format!("magic {} version {major}.{minor}", String::from_utf8_lossy(&m)));
        ctx.steps += 1;
        let want = s.roots.iter().find(|r| r.magic == m && r.versions.iter().any(|v| v.major == major && v.minor == minor));
        match (want, fmt::read(&b)) {
            (Some(r), Ok(f)) => {
                ensure!(fmt::json(&f).get(&r.name).is_some(), "magic-type", "magic {} read as {}", String::from_utf8_lossy(&m), fmt::json(&f));
                Ok(true)
            }
            (Some(r), Err(e)) => fail("magic-rejected", format!("{} {major}.{minor} with zero body rejected: {e}", r.name)),
            (None, Ok(f)) => fail("magic-accepted", format!("magic {} version {major}.{minor} accepted as {}", String::from_utf8_lossy(&m), fmt::json(&f))),
            (None, Err(_)) => Ok(true),
        }
    }));
    out
}

// ------------------------------------------------------------------ C09

fn boundary_codes(size: u8) -> Vec<u64> {
    if size == 1 {
        return (0..256).collect();
    }
    let mask = if size == 8 { u64::MAX } else { (1u64 << (size * 8)) - 1 };
    let mut v: Vec<u64> = (0..4352).collect();
    for k in 0..64 {
        for d in [-2i64, -1, 0, 1, 2, 5, 8] {
            v.push((1u64 << k).wrapping_add(d as u64) & mask);
        }
    }
    for x in [u64::MAX, u64::MAX - 1, 0xffff_ffff, 0x1_0000_0005, 0x8000_0000_0000_0001] {
        v.push(x & mask);
    }
    v.sort();
    v.dedup();
    v
}

fn nth_sym<'a>(v: &'a mut Val, n: &mut usize) -> Option<&'a mut usize> {
    match v {
        Val::Sym(i) => {
            if *n == 0 {
                return Some(i);
            }
            *n -= 1;
            None
        }
        Val::List(l) | Val::Struct(l) => {
            for x in l {
                if let Some(r) = nth_sym(x, n) {
                    return Some(r);
                }
            }
            None
        }
        Val::Opt(Some(x)) | Val::Variant(_, x) => nth_sym(x, n),
        _ => None,
    }
}

fn c09(_t: bool) -> Vec<Scenario> {
    let s = Schema::get();
    let mut out = super::values::enumerations();
    for (ri, r) in s.roots.iter().enumerate() {
        for vi in 0..r.versions.len() {
            let name = format!("{}-{}", r.name, r.versions[vi].name);
            out.push(scenario(format!("symbols-{name}"), 0, move |ctx: &mut Ctx| {
                let s = Schema::get();
                let (r, v) = (&s.roots[ri], &s.roots[ri].versions[vi]);
                let rot = ctx.free(unions_of(&r.name));
                let val = base_val(1, v, rot);
                let e = encode_file(r, v, &val, Layout::Canonical, true);
                let syms: Vec<&Mark> = e.marks.iter().filter(|m| m.kind == MarkKind::Symbol).collect();
                if syms.is_empty() {
                    return Ok(false);
                }
                let n = ctx.free(syms.len());
                let m = syms[n];
                let Def::Enum { vars, .. } = &s.defs[&m.what] else { unreachable!() };
                let codes = boundary_codes(m.size);
                let code = codes[ctx.free(codes.len())];
                let mut b = e.buf.clone();
                b[m.pos as usize..m.pos as usize + m.size as usize].copy_from_slice(&code.to_le_bytes()[..m.size as usize]);
                ctx.hash_bytes(&b);
                ctx.note(|| format!("{} at {} = {code}", m.what, m.pos));
                ctx.steps += 2;
                match (vars.iter().position(|x| x.1 == code), fmt::read(&b)) {
                    (None, Ok(_)) => fail(&format!("code-accepted:{}", m.what), format!("undefined code {code} of {} accepted", m.what)),
                    (None, Err(_)) => Ok(true),
                    (Some(i), Err(e)) => fail(&format!("code-rejected:{}", m.what), format!("code {code} ({}) of {} rejected: {e}", vars[i].0, m.what)),
                    (Some(i), Ok(f)) => {
                        let mut w = val.clone();
                        *nth_sym(&mut w, &mut n.clone()).expect("sym") = i;
                        let want = file_json(r, v, &w);
                        if let Some(d) = json_diff(&want, &fmt::json(&f)) {
                            return fail(&format!("code-value:{}", m.what), format!("code {code} of {}: {d}", m.what));
                        }
                        let back = fmt::write(&f).or_fail("write")?;
                        if let Some(d) = bytes_diff(&b, &back) {
                            return fail(&format!("code-written:{}", m.what), format!("code {code} of {} is not written back: {d}", m.what));
                        }
                        // and from the symbol's name to the code
                        let f2 = fmt::from_json(&want).or_fail(&format!("symbol-name:{}", m.what))?;
                        let back = fmt::write(&f2).or_fail("write")?;
                        if let Some(d) = bytes_diff(&b, &back) {
                            return fail(&format!("symbol-written:{}", m.what), format!("symbol {} of {}: {d}", vars[i].0, m.what));
                        }
                        Ok(true)
                    }
                }
            }));
            out.push(scenario(format!("tags-{name}"), 0, move |ctx: &mut Ctx| {
                let s = Schema::get();
                let (r, v) = (&s.roots[ri], &s.roots[ri].versions[vi]);
                let rot = ctx.free(unions_of(&r.name));
                let val = base_val(1, v, rot);
                let e = encode_file(r, v, &val, Layout::Canonical, true);
                let tags: Vec<&Mark> = e.marks.iter().filter(|m| m.kind == MarkKind::Tag).collect();
                if tags.is_empty() {
                    return Ok(false);
                }
                let m = tags[ctx.free(tags.len())];
                let Def::Union { vars } = &s.defs[&m.what] else { unreachable!() };
                let codes = boundary_codes(m.size);
                let code = codes[ctx.free(codes.len())];
                let at = m.pos as usize;
                let old = u64::from_le_bytes(e.buf[at..at + 8].try_into().unwrap());
                let mut b = e.buf.clone();
                b[at..at + 8].copy_from_slice(&code.to_le_bytes());
                ctx.hash_bytes(&b);
                ctx.note(|| format!("tag of {} at {} = {code}", m.what, m.pos));
                ctx.steps += 1;
                match (vars.iter().position(|x| x.0 == code), fmt::read(&b)) {
                    (None, Ok(_)) => fail(&format!("tag-accepted:{}", m.what), format!("undefined tag {code} of {} accepted", m.what)),
                    (None, Err(_)) => Ok(true),
                    (Some(i), Ok(f)) => {
                        // the variant read is the one the tag names
                        let text = fmt::json(&f).to_string();
                        ensure!(text.contains(&format!("\"{}\":", vars[i].1)), format!("tag-variant:{}", m.what), "tag {code} of {} not read as {}: {text}", m.what, vars[i].1);
                        let back = fmt::write(&f).or_fail("write")?;
                        let f2 = fmt::read(&back).map_err(|e| failure(format!("tag-reread:{}", m.what), e))?;
                        ensure!(fmt::json(&f2) == fmt::json(&f), format!("tag-roundtrip:{}", m.what), "tag {code} of {}", m.what);
                        Ok(true)
                    }
                    (Some(_), Err(e)) => {
                        ensure!(code != old, format!("tag-rejected:{}", m.what), "tag {code} of {} rejected: {e}", m.what);
                        Ok(true)
                    }
                }
            }));
        }
    }
    // flag bits through the accessors
    out.push(scenario("transform-flags", 0, |ctx: &mut Ctx| {
        use ssbh_lib::formats::anim::TransformFlags;
        let n = ctx.free(16);
        let (a, b, c, d) = (n & 1 != 0, n & 2 != 0, n & 4 != 0, n & 8 != 0);
        let f = TransformFlags::new().with_override_translation(a).with_override_rotation(b).with_override_scale(c).with_override_compensate_scale(d);
        let bytes = f.into_bytes();
        ctx.hash_u64(n as u64);
        ctx.steps += 2;
        ensure!(bytes == (n as u32).to_le_bytes(), "transform-flags", "flags {n:04b} are stored as {bytes:?}");
        let g = TransformFlags::from_bytes(bytes);
        ensure!(g.override_translation() == a && g.override_rotation() == b && g.override_scale() == c && g.override_compensate_scale() == d, "transform-flags", "flags {n:04b} read back differently");
        Ok(true)
    }));
    out.push(scenario("entry-flags", 0, |ctx: &mut Ctx| {
        use ssbh_lib::formats::meshex::EntryFlag;
        let n = ctx.free(32);
        let bit = |i: usize| n >> i & 1 == 1;
        let f = EntryFlag::new().with_draw_model(bit(0)).with_cast_shadow(bit(1)).with_unk3(bit(2)).with_unk4(bit(3)).with_unk5(bit(4));
        let want = (bit(0) as u16) | (bit(1) as u16) << 1 | (bit(2) as u16) << 3 | (bit(3) as u16) << 4 | (bit(4) as u16) << 5;
        ctx.hash_u64(n as u64);
        ctx.steps += 2;
        ensure!(f.into_bytes() == want.to_le_bytes(), "entry-flags", "flags {n:05b} are stored as {:?}", f.into_bytes());
        let g = EntryFlag::from_bytes(want.to_le_bytes());
        ensure!([g.draw_model(), g.cast_shadow(), g.unk3(), g.unk4(), g.unk5()] == [bit(0), bit(1), bit(2), bit(3), bit(4)], "entry-flags", "flags {n:05b} read back differently");
        Ok(true)
    }));
    // undefined flag bits survive a read/write cycle
    out.push(scenario("flag-bits", 0, |ctx: &mut Ctx| {
        let s = Schema::get();
        let r = s.roots.iter().find(|r| r.name == "Anim").unwrap();
        let v = &r.versions[1 + ctx.free(2)];
        let val = base_val(1, v, 0);
        let e = encode_file(r, v, &val, Layout::Canonical, true);
        let m = e.marks.iter().find(|m| m.what == "bits").unwrap();
        let i = ctx.free(33);
        let j = ctx.free(33);
        let bits: u32 = [i, j].iter().map(|&k| if k < 32 { 1u32 << k } else { 0 }).fold(0, |a, b| a | b);
        let mut b = e.buf.clone();
        b[m.pos as usize..m.pos as usize + 4].copy_from_slice(&bits.to_le_bytes());
        ctx.hash_bytes(&b);
        ctx.steps += 2;
        let f = fmt::read(&b).or_fail("flag-bits:read")?;
        let w = fmt::write(&f).or_fail("flag-bits:write")?;
        if let Some(d) = bytes_diff(&b, &w) {
            return fail("flag-bits", format!("flag bits {bits:08x} are not preserved: {d}"));
        }
        Ok(true)
    }));
    out
}

// ------------------------------------------------------------------ C10

/// Number of mutable nodes of a JSON value.
fn nodes(v: &Value) -> usize {
    1 + match v {
        Value::Object(m) => m.values().map(nodes).sum::<usize>(),
        Value::Array(a) => a.iter().map(nodes).sum::<usize>(),
        _ => 0,
    }
}

fn nth_node<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        Value::Object(m) => m.values_mut().find_map(|x| nth_node(x, n)),
        Value::Array(a) => a.iter_mut().find_map(|x| nth_node(x, n)),
        _ => None,
    }
}

fn c10(thorough: bool) -> Vec<Scenario> {
    let s = Schema::get();
    let mut out = vec![];
    for (ri, r) in s.roots.iter().enumerate() {
        for vi in 0..r.versions.len() {
            let name = format!("{}-{}", r.name, r.versions[vi].name);
            let unions = unions_of(&r.name);
            let mk = |tag: &str, k: u8, g: Gen, rots: usize| {
                scenario(format!("text-{name}-{tag}"), k, move |ctx: &mut Ctx| {
                    let s = Schema::get();
                    let (r, v) = (&s.roots[ri], &s.roots[ri].versions[vi]);
                    let mut g = g.clone();
                    if rots > 1 {
                        g.rot = ctx.free(rots);
                    }
                    let val = g.val(ctx, &v.body);
                    let want = file_json(r, v, &val);
                    let e = encode_file(r, v, &val, Layout::Canonical, false);
                    // start from the binary side: read, to text, back, write
                    let f = fmt::read(&e.buf).or_fail("read")?;
                    let pretty = ctx.free(2) == 1;
                    let text = if pretty { serde_json::to_string_pretty(&f) } else { serde_json::to_string(&f) }.or_fail("to-text")?;
                    ctx.hash_bytes(text.as_bytes());
                    ctx.note(|| text.chars().take(400).collect());
                    ctx.steps += 4;
                    let parsed: Value = serde_json::from_str(&text).or_fail("text-is-json")?;
                    // values in the text are the values in the file (numbers compared as f32 where they are f32)
                    if let Some(d) = json_diff(&canon_floats(&want), &canon_floats(&parsed)) {
                        return fail(&format!("text-value:{}", path_key(&d)), format!("text differs from the file's value at {d}"));
                    }
                    let f2: ssbh_lib::SsbhFile = serde_json::from_str(&text).map_err(|e| failure(format!("parse:{}", r.name), format!("own text rejected: {e}")))?;
                    if let Some(d) = json_diff(&want, &fmt::json(&f2)) {
                        return fail(&format!("parsed-value:{}", path_key(&d)), format!("parsed value differs at {d}"));
                    }
                    let b = fmt::write(&f2).or_fail("write")?;
                    if !has_ptr_to_null(&val) {
                        if let Some(d) = e.diff(&b) {
                            return fail(&format!("bytes:{}:{}", r.name, v.name), format!("file written from the text differs: {d}"));
                        }
                    }
                    Ok(true)
                })
            };
            let g1 = Gen::standard(1);
            out.push(mk("values", 1, g1.clone(), unions));
            out.push(mk("values2", 1, Gen::standard(2), 1));
            for c in 0..3 {
                out.push(mk(["same0", "same1", "same2"][c as usize], 1, Gen { same: Some(c), ..Gen::standard(2) }, unions));
            }
            out.push(mk("long", 1, Gen { lens: &[1025], byte_lens: &[4096, 65536], ..Gen::huge() }, 1));
            if thorough {
                out.push(mk("shape", 2, Gen::structural(1), 1));
                out.push(mk("values-k2", 2, g1, 1));
            }
            // invalid texts
            out.push(scenario(format!("invalid-{name}"), 0, move |ctx: &mut Ctx| {
                let s = Schema::get();
                let (r, v) = (&s.roots[ri], &s.roots[ri].versions[vi]);
                let rot = ctx.free(unions);
                let val = base_val(1, v, rot);
                let mut j = file_json(r, v, &val);
                let n = ctx.free(nodes(&j));
                let kind = ctx.free(8);
                let node = nth_node(&mut j, &mut n.clone()).unwrap();
                let before = node.clone();
                match (kind, &mut *node) {
                    (0, Value::Object(m)) => {
                        // drop the last field
                        let k = m.keys().last().cloned();
                        if let Some(k) = k {
                            m.remove(&k);
                        }
                    }
                    (0, Value::Number(_)) => *node = json!("12"),
                    (0, Value::String(_)) => *node = json!(7),
                    (0, Value::Array(_)) => *node = json!({"x": 1}),
                    (1, Value::Number(_)) => *node = json!(true),
                    (1, Value::Object(m)) if !m.is_empty() => {
                        // rename the first field
                        let k = m.keys().next().cloned().unwrap();
                        let x = m.remove(&k).unwrap();
                        m.insert(format!("{k}_"), x);
                    }
                    (1, Value::Array(_)) => *node = json!(5),
                    (1, Value::String(_)) => *node = json!(["a"]),
                    (2, Value::Number(x)) if x.is_u64() => *node = json!(1.5),
                    (3, Value::Number(x)) if x.is_u64() => *node = json!(u64::MAX as f64 * 4.0),
                    (4, Value::Number(x)) if x.is_u64() => *node = json!([1]),
                    (2, Value::String(_)) => *node = json!({"a": 1}),
                    (2, Value::Array(_)) => *node = json!("abc"),
                    (2, Value::Object(_)) => *node = json!(3),
                    (3, Value::Object(_)) => *node = json!("NoSuchVariant"),
                    (4, Value::Object(m)) if m.len() == 1 => *node = json!({"NoSuchVariant": {}}),
                    _ => return Ok(false),
                }
                if *node == before {
                    return Ok(false);
                }
                let text = j.to_string();
                ctx.hash_bytes(text.as_bytes());
                ctx.note(|| format!("{} kind {kind}", text.chars().take(300).collect::<String>()));
                ctx.steps += 1;
                match serde_json::from_str::<ssbh_lib::SsbhFile>(&text) {
                    Err(_) => Ok(true),
                    Ok(f) => fail(&format!("invalid-accepted:{}", r.name), format!("invalid text (node {n}, kind {kind}) was accepted and read as {}", fmt::json(&f).to_string().chars().take(300).collect::<String>())),
                }
            }));
        }
    }
    // byte buffers: every byte value, every length, every malformed digit string
    out.push(scenario("hex", 0, |ctx: &mut Ctx| {
        use ssbh_lib::SsbhByteBuffer;
        let which = ctx.free(3);
        match which {
            0 => {
                let b = ctx.free(256) as u8;
                let n = ctx.free(4);
                let v: Vec<u8> = (0..n).map(|i| b.wrapping_add(i as u8 * 77)).collect();
                ctx.hash_bytes(&v);
                let t = serde_json::to_string(&SsbhByteBuffer::from_vec(v.clone())).or_fail("hex")?;
                ensure!(t == format!("\"{}\"", hex(&v)), "hex", "{v:?} is converted to {t}");
                let w: SsbhByteBuffer = serde_json::from_str(&t).or_fail("hex")?;
                ensure!(w.elements == v, "hex", "{v:?} comes back as {:?}", w.elements);
            }
            1 => {
                let a = ctx.free(128) as u8;
                let c = ctx.free(128) as u8;
                let t = serde_json::to_string(&String::from_utf8(vec![a, c]).unwrap()).unwrap();
                ctx.hash_bytes(t.as_bytes());
                let d = |x: u8| (x as char).to_digit(16);
                let r: Result<SsbhByteBuffer, _> = serde_json::from_str(&t);
                match (d(a), d(c), r) {
                    (Some(h), Some(l), Ok(v)) => ensure!(v.elements == [(h * 16 + l) as u8], "hex", "{t} is read as {:?}", v.elements),
                    (Some(_), Some(_), Err(e)) => return fail("hex", format!("{t} rejected: {e}")),
                    (_, _, Ok(v)) => return fail("hex-accepted", format!("{t} is read as {:?}", v.elements)),
                    _ => {}
                }
            }
            _ => {
                let n = ctx.free(12);
                let t = format!("\"{}\"", "abcdef012345".chars().take(n).collect::<String>());
                ctx.hash_bytes(t.as_bytes());
                let r: Result<SsbhByteBuffer, _> = serde_json::from_str(&t);
                ensure!(r.is_ok() == (n % 2 == 0), "hex-odd", "{t}: {r:?}");
            }
        }
        ctx.steps += 2;
        Ok(true)
    }));
    // every float bit pattern of a structured set survives the text form
    out.push(scenario("floats", 0, |ctx: &mut Ctx| {
        use ssbh_lib::Vector3;
        let sign = ctx.free(2) as u32;
        let exp = ctx.free(255) as u32;
        let man = match ctx.free(26) {
            0 => 0,
            1 => 0x7f_ffff,
            2 => 0x55_5555,
            k => 1u32 << (k - 3),
        };
        let x = f32::from_bits(sign << 31 | exp << 23 | man);
        let t = serde_json::to_string(&Vector3::new(x, -x, 1.0)).or_fail("float")?;
        ctx.hash_u64(x.to_bits() as u64);
        ctx.steps += 2;
        let v: Vector3 = serde_json::from_str(&t).or_fail("float")?;
        ensure!(v.x.to_bits() == x.to_bits() && v.y.to_bits() == (-x).to_bits() && v.z == 1.0, "float", "{x:?} ({:08x}) becomes {:?} via {t}", x.to_bits(), v.x);
        Ok(true)
    }));
    out
}

fn has_ptr_to_null(v: &Val) -> bool {
    match v {
        Val::Opt(Some(x)) if **x == Val::Str(None) => true,
        Val::List(l) | Val::Struct(l) => l.iter().any(has_ptr_to_null),
        Val::Opt(Some(x)) | Val::Variant(_, x) => has_ptr_to_null(x),
        _ => false,
    }
}

/// Rounds every number that is not an integer to f32, so that shortest decimal texts compare equal.
fn canon_floats(v: &Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => json!(n.as_f64().unwrap() as f32),
        Value::Array(a) => Value::Array(a.iter().map(canon_floats).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), canon_floats(v))).collect()),
        _ => v.clone(),
    }
}

// ------------------------------------------------------------------ C26

const ALPHA: &[u8] = &[0x00, 0x01, 0x20, 0x41, 0x7f, 0x80, 0xc3, 0xa9, 0xff];

fn gen_bytes(ctx: &mut Ctx, thorough: bool) -> Vec<u8> {
    match ctx.free(2) {
        0 => {
            let n = ctx.free(if thorough { 6 } else { 5 });
            (0..n).map(|_| ALPHA[ctx.free(ALPHA.len())]).collect()
        }
        _ => {
            let i = ctx.free(73 + 12);
            let n = if i < 73 { i } else { [127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65536][i - 73] };
            let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
            // one zero byte at a chosen place, or none
            let z = ctx.free(5);
            let at = [n, 0, n / 2, n.saturating_sub(1), n.saturating_sub(2)][z];
            if at < n {
                v[at] = 0;
            }
            v
        }
    }
}

fn upto0(b: &[u8]) -> Vec<u8> {
    b.iter().copied().take_while(|&x| x != 0).collect()
}

fn c26(thorough: bool) -> Vec<Scenario> {
    use binrw::BinReaderExt;
    use ssbh_lib::{CString, RelPtr64, SsbhArray, SsbhString, SsbhString8};
    use ssbh_write::SsbhWrite;
    let mut out = vec![];

    fn check_c<const N: usize>(ctx: &mut Ctx, b: &[u8]) -> RunResult {
        let want = upto0(b);
        let s = CString::<N>::from_bytes(b);
        ctx.steps += 4;
        let text = std::str::from_utf8(&want).ok();
        ensure!(s.to_str() == text, "cstring-str", "from_bytes({}).to_str() = {:?}", hexs(b), s.to_str());
        ensure!(s.to_string_lossy() == text.unwrap_or(""), "cstring-lossy", "from_bytes({}).to_string_lossy() = {:?}", hexs(b), s.to_string_lossy());
        if let Ok(t) = std::str::from_utf8(b) {
            use std::str::FromStr;
            let routes = [CString::<N>::from(t), CString::<N>::from(&t.to_string()), CString::<N>::from(t.to_string()), CString::<N>::from_str(t).unwrap()];
            for (i, r) in routes.iter().enumerate() {
                ensure!(*r == s, format!("cstring-route{i}"), "construction route {i} of {t:?} differs from from_bytes");
            }
        }
        let mut c = Cursor::new(vec![]);
        s.write(&mut c).or_fail("cstring-write")?;
        let w = c.into_inner();
        let expect = if want.is_empty() { vec![0u8; N] } else { [&want[..], &[0]].concat() };
        ensure!(w == expect, "cstring-bytes", "{} with alignment {N} is written as {}", hexs(&want), hexs(&w));
        let mut tail = w.clone();
        tail.extend_from_slice(b"tail\0");
        let r: CString<N> = Cursor::new(&tail).read_le().or_fail("cstring-read")?;
        ensure!(r == s, "cstring-roundtrip", "{} comes back differently", hexs(&want));
        // a missing terminator is an error
        if !want.is_empty() {
            ensure!(Cursor::new(&want).read_le::<CString<N>>().is_err(), "cstring-unterminated", "unterminated {} accepted", hexs(&want));
        }
        Ok(true)
    }

    out.push(scenario("cstring", 0, move |ctx: &mut Ctx| {
        let b = gen_bytes(ctx, thorough);
        ctx.hash_bytes(&b);
        ctx.note(|| hexs(&b));
        match ctx.free(6) {
            0 => check_c::<1>(ctx, &b),
            1 => check_c::<2>(ctx, &b),
            2 => check_c::<4>(ctx, &b),
            3 => check_c::<8>(ctx, &b),
            4 => check_c::<16>(ctx, &b),
            _ => check_c::<3>(ctx, &b),
        }
    }));

    macro_rules! ssbh_string {
        ($name:expr, $t:ty, $n:expr) => {
            out.push(scenario($name, 0, move |ctx: &mut Ctx| {
                // null or bytes
                let null = ctx.free(2) == 1;
                let b = if null { vec![] } else { gen_bytes(ctx, thorough) };
                let want = upto0(&b);
                ctx.hash_bytes(&b);
                ctx.hash_u64(null as u64);
                ctx.note(|| format!("null {null} bytes {}", hexs(&b)));
                ctx.steps += 4;
                let s: $t = if null { Cursor::new([0u8; 8]).read_le().or_fail("null-read")? } else { <$t>::from_bytes(&b) };
                let text = if null { None } else { std::str::from_utf8(&want).ok() };
                ensure!(s.to_str() == text, "string-str", "{}: to_str {:?}", hexs(&b), s.to_str());
                ensure!(s.to_string_lossy() == text.unwrap_or(""), "string-lossy", "{}: {:?}", hexs(&b), s.to_string_lossy());
                if let (false, Ok(t)) = (null, std::str::from_utf8(&b)) {
                    use std::str::FromStr;
                    let routes = [<$t>::from(t), <$t>::from(&t.to_string()), <$t>::from(t.to_string()), <$t>::from_str(t).unwrap()];
                    for (i, r) in routes.iter().enumerate() {
                        ensure!(*r == s, format!("string-route{i}"), "construction route {i} of {t:?} differs from from_bytes");
                    }
                }
                // among neighbours
                let list = SsbhArray::from_vec(vec![<$t>::from("before"), s.clone(), <$t>::from("after"), s.clone()]);
                let mut c = Cursor::new(vec![]);
                list.write(&mut c).or_fail("string-write")?;
                let w = c.into_inner();
                let back: SsbhArray<$t> = Cursor::new(&w).read_le().or_fail("string-read")?;
                ensure!(back == list, "string-neighbours", "{} disturbs its neighbours: {:?}", hexs(&b), back.elements.iter().map(|x| x.to_str().map(|x| x.to_string())).collect::<Vec<_>>());
                // expected placement
                let mut at = 16u64 + 32;
                for (i, x) in [Some(b"before".to_vec()), if null { None } else { Some(want.clone()) }, Some(b"after".to_vec()), if null { None } else { Some(want.clone()) }].iter().enumerate() {
                    let p = 16 + i as u64 * 8;
                    let off = u64::from_le_bytes(w[p as usize..p as usize + 8].try_into().unwrap());
                    match x {
                        None => ensure!(off == 0, "string-null", "null string has offset {off}"),
                        Some(x) => {
                            at = at.div_ceil($n) * $n;
                            ensure!(off == at - p, "string-place", "string {i} at {} instead of {at}", off + p);
                            let len = if x.is_empty() { $n } else { x.len() as u64 + 1 };
                            let got = w.get(at as usize..(at + len) as usize).unwrap_or(&[]);
                            ensure!(got.len() as u64 == len && got[..x.len()] == x[..] && got[x.len()..].iter().all(|&z| z == 0), "string-bytes", "string {i} stored as {}", hexs(got));
                            at += len;
                        }
                    }
                }
                // through a pointer
                let p = RelPtr64::new(s.clone());
                let mut c = Cursor::new(vec![]);
                p.write(&mut c).or_fail("ptr-write")?;
                let q: RelPtr64<$t> = Cursor::new(c.into_inner()).read_le().or_fail("ptr-read")?;
                ensure!(p == q, "string-pointer", "{} changes behind a pointer", hexs(&b));
                Ok(true)
            }));
            // from JSON text
            out.push(scenario(concat!($name, "-json"), 0, move |ctx: &mut Ctx| {
                let b = gen_bytes(ctx, thorough);
                let Ok(t) = String::from_utf8(b.clone()) else { return Ok(false) };
                let j = serde_json::to_string(&t).unwrap();
                ctx.hash_bytes(&b);
                ctx.note(|| j.clone());
                ctx.steps += 3;
                let Ok(s) = serde_json::from_str::<$t>(&j) else {
                    // rejecting is fine only for text that a string can not hold
                    ensure!(b.contains(&0), "json-rejected", "{j} rejected");
                    return Ok(true);
                };
                let mut c = Cursor::new(vec![]);
                s.write(&mut c).or_fail("json-write")?;
                let r: $t = Cursor::new(c.into_inner()).read_le().or_fail("json-read")?;
                ensure!(r == s, "json-file-form", "the string read from {j} is {:?}, its file form reads back as {:?}", s.to_str(), r.to_str());
                ensure!(s.to_str() == std::str::from_utf8(&upto0(&b)).ok(), "json-text", "{j} is read as {:?}", s.to_str());
                let again = serde_json::to_string(&s).or_fail("json-again")?;
                if !b.contains(&0) {
                    ensure!(again == j, "json-again", "{j} becomes {again}");
                }
                Ok(true)
            }));
        };
    }
    ssbh_string!("string4", SsbhString, 4u64);
    ssbh_string!("string8", SsbhString8, 8u64);
    // every character: alone, first, last, inside and repeated, through every route
    out.push(scenario("characters", 0, |ctx: &mut Ctx| {
        let block = ctx.free(0x110000 / 256) as u32;
        ctx.hash_u64(block as u64);
        ctx.note(|| format!("characters {:x}..{:x}", block * 256, block * 256 + 256));
        for c in (block * 256..block * 256 + 256).filter_map(char::from_u32) {
            for text in [format!("{c}"), format!("{c}ab"), format!("ab{c}"), format!("a{c}b"), format!("{c}{c}"), format!("{c}a{c}")] {
                ctx.case();
                ctx.steps += 6;
                let cut = text.split('\0').next().unwrap();
                let j = serde_json::to_string(&text).unwrap();
                macro_rules! routes {
                    ($t:ty) => {{
                        let w = [<$t>::from(text.as_str()), <$t>::from(text.clone()), <$t>::from_bytes(text.as_bytes())];
                        for (i, s) in w.iter().enumerate() {
                            ensure!(s.to_str() == Some(cut) && s.to_string_lossy() == cut, "character", "{text:?} by route {i} is {:?}", s.to_str());
                        }
                        let mut f = Cursor::new(vec![]);
                        w[0].write(&mut f).or_fail("character-write")?;
                        let r: $t = Cursor::new(f.get_ref()).read_le().or_fail("character-read")?;
                        ensure!(r == w[0], "character-file", "{text:?} is read back as {:?}", r.to_str());
                        match serde_json::from_str::<$t>(&j) {
                            Ok(s) => ensure!(s == w[0], "character-json", "{j} is read as {:?}", s.to_str()),
                            Err(e) => ensure!(text.contains('\0'), "character-json", "{j} is rejected: {e}"),
                        }
                        ensure!(serde_json::to_string(&w[0]).ok() == serde_json::to_string(cut).ok(), "character-json", "{text:?} becomes {:?}", serde_json::to_string(&w[0]));
                    }};
                }
                routes!(CString<1>);
                routes!(CString<4>);
                routes!(SsbhString);
                routes!(SsbhString8);
            }
        }
        Ok(true)
    }));
    // every pair of bytes between others
    out.push(scenario("bytes", 0, |ctx: &mut Ctx| {
        let a = ctx.free(256) as u8;
        ctx.hash_u64(a as u64);
        ctx.note(|| format!("first byte {a:02x}"));
        for b in 0..=255u8 {
            for v in [vec![a, b], vec![a, b'x', b], vec![b'x', a, b, b'y'], vec![a, a, b, b]] {
                ctx.case();
                check_c::<1>(ctx, &v)?;
                check_c::<4>(ctx, &v)?;
                check_c::<8>(ctx, &v)?;
            }
        }
        Ok(true)
    }));
    out
}
