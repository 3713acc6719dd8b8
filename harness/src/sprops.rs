//! Stream-level properties C01..C15.
use crate::dev::Dev;
use crate::refm::*;
use crate::util::*;
use crate::walk::*;
use crate::{ck, eq};
use fourleaf::stream::{Blob, Element, Error, Stream, Value};
use fourleaf::wire;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

fn dec_check(g: &mut G, b: &[u8]) -> R {
    let mut d = Dev::adverse(b.to_vec(), &mut g.r);
    let r = wire::decode_u64(&mut d);
    match (dec_int(b, 0), r) {
        (Ok((v, n)), Ok(x)) => { eq!(x, v, "decode_u64"); eq!(d.pos, n as u64, "bytes consumed by decode_u64"); }
        (Err(k), Err(e)) => { ck!(fclass(&e) & k != 0, "decode_u64 failed with {}, expected {}", e, fl(k)); }
        (Ok((v, _)), Err(e)) => return Err(format!("decode_u64 failed ({}), expected {}", e, v)),
        (Err(k), Ok(v)) => return Err(format!("decode_u64 gave {}, expected error {}", v, fl(k))),
    }
    Ok(())
}
pub fn c01_exh(g: &mut G) -> R {
    // all strings of one and two bytes, then three bytes over a small alphabet
    let i = g.idx as usize;
    let al = [0u8, 1, 2, 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0x81, 0x82, 0xBF, 0xC0, 0xFE, 0xFF];
    let b = if i < 256 { vec![i as u8] } else if i < 256 + 65536 { vec![(i - 256) as u8, ((i - 256) >> 8) as u8] } else { let j = i - 65792; vec![al[j % 14], al[j / 14 % 14], al[j / 196 % 14], al[j / 2744 % 14]] };
    g.case("bytes", &b);
    dec_check(g, &b)
}
pub fn c01_enc(g: &mut G) -> R {
    let v = if g.idx < 4096 { g.idx } else if g.idx < 4096 + 64 * 8 { let k = (g.idx - 4096) / 8; (1u64 << k).wrapping_add((g.idx - 4096) % 8).wrapping_sub(4) } else { g.r.int() };
    let mut min = vec![]; enc_int(&mut min, v);
    g.case("minimal encoding", &min);
    let mut d = Dev::adverse(vec![], &mut g.r);
    wire::encode_u64(&mut d, v).map_err(|e| e.to_string())?;
    eq!(hex(&d.head), hex(&min), "encode_u64({})", v);
    let mut o = vec![]; wire::encode_fixed_u64(&mut o, v).map_err(|e| e.to_string())?;
    eq!(o.len(), 10, "length of encode_fixed_u64({})", v);
    eq!(wire::decode_u64(&mut &o[..]).ok(), Some(v), "decoding encode_fixed_u64({}) = {}", v, hex(&o));
    // zig-zag
    let i = v as i64;
    let z: u128 = if i < 0 { -(i as i128) as u128 * 2 - 1 } else { i as u128 * 2 };
    eq!(wire::zigzag(i) as u128, z, "zigzag({})", i);
    eq!(wire::unzigzag(z as u64), i, "unzigzag({})", z);
    eq!(wire::zigzag(wire::unzigzag(v)), v, "zigzag(unzigzag({}))", v);
    let mut o = vec![]; wire::encode_i64(&mut o, i).map_err(|e| e.to_string())?;
    let mut e2 = vec![]; enc_int(&mut e2, z as u64);
    eq!(hex(&o), hex(&e2), "encode_i64({})", i);
    eq!(wire::decode_i64(&mut &o[..]).ok(), Some(i), "decode_i64(encode_i64({}))", i);
    // non-minimal, followed by other bytes
    let extra = match g.r.below(4) { 0 => 257 - min.len(), 1 => 258 - min.len(), 2 => g.r.us(12), _ => g.r.us(260) };
    let mut b = vec![]; enc_int_x(&mut b, v, extra); b.extend(g.r.bytes(3));
    g.case("non-minimal", &b);
    dec_check(g, &b)
}
pub fn c01_rnd(g: &mut G) -> R {
    let mut b = vec![];
    match g.r.below(5) {
        0 => { let n = g.r.us(14); for _ in 0..n { b.push(g.r.next() as u8 | 0x80); } b.push(g.r.next() as u8 & 0x7F) }
        1 => { let n = 8 + g.r.us(4); for _ in 0..n { b.push(*g.r.pick(&[0x80u8, 0xFF])); } b.push(g.r.below(4) as u8); }
        2 => { let v = g.r.int(); let k = g.r.us(300); enc_int_x(&mut b, v, k); let i = g.r.us(b.len()); b[i] |= 1 << g.r.below(8); }
        3 => { let n = g.r.us(270); for _ in 0..n { b.push(if g.r.chance(1, 40) { g.r.next() as u8 | 0x80 } else { 0x80 }); } b.push(g.r.below(3) as u8); }
        _ => { let v = g.r.int(); enc_int(&mut b, v); let k = g.r.us(b.len()); b.truncate(k); }
    }
    g.case("bytes", &b);
    dec_check(g, &b)
}

macro_rules! acc { ($g:expr, $raw:expr, $m:ident, $w:ident, $t:ty, $signed:expr, $v:expr) => { {
    let raw: u64 = $raw;
    let num: i128 = if $signed { if raw & 1 == 1 { -((raw >> 1) as i128) - 1 } else { (raw >> 1) as i128 } } else { raw as i128 };
    match $v.$m() {
        Ok(x) => { ck!(num >= <$t>::min_value() as i128 && num <= <$t>::max_value() as i128 && x as i128 == num, "{} of {} gives {}", stringify!($m), num, x); }
        Err(Error::IntegerOutOfRange(_)) => { ck!(num < <$t>::min_value() as i128 || num > <$t>::max_value() as i128, "{} of {} refused", stringify!($m), num); }
        Err(e) => return Err(format!("{} of {}: wrong error {}", stringify!($m), num, e)),
    }
    // write and read back through the same type
    let n = raw as $t;
    let tag = 1 + $g.r.below(63) as u8;
    let mut s = Stream::new(Vec::new());
    s.$w(tag, n).map_err(|e| e.to_string())?;
    s.commit().map_err(|e| e.to_string())?;
    let o = s.into_inner();
    let mut s = Stream::from_slice(&o[..]);
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    eq!(f.tag, tag, "tag after {}", stringify!($w));
    eq!(f.value.$m().map_err(|e| e.to_string())?, n, "{} then {}", stringify!($w), stringify!($m));
} } }
pub fn c02(g: &mut G) -> R {
    let raw = if g.idx < 1400 { g.idx } else if g.idx < 1400 + 64 * 16 { let k = (g.idx - 1400) / 16; (1u64 << k).wrapping_add((g.idx - 1400) % 16).wrapping_sub(8) } else { g.r.int() };
    let mut b = vec![0x41]; enc_int(&mut b, raw);
    g.case("field", &b);
    let mut s = Stream::from_slice(&b[..]);
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    let mut v = f.value;
    acc!(g, raw, to_u8, write_u8, u8, false, v); acc!(g, raw, to_u16, write_u16, u16, false, v); acc!(g, raw, to_u32, write_u32, u32, false, v);
    acc!(g, raw, to_u64, write_u64, u64, false, v); acc!(g, raw, to_usize, write_usize, usize, false, v);
    acc!(g, raw, to_i8, write_i8, i8, true, v); acc!(g, raw, to_i16, write_i16, i16, true, v); acc!(g, raw, to_i32, write_i32, i32, true, v);
    acc!(g, raw, to_i64, write_i64, i64, true, v); acc!(g, raw, to_isize, write_isize, isize, true, v);
    eq!(v.to_bool().ok(), if raw < 2 { Some(raw == 1) } else { None }, "to_bool of {}", raw);
    eq!(v.to_null().ok(), if raw == 0 { Some(()) } else { None }, "to_null of {}", raw);
    ck!(v.to_blob().is_err() && v.to_struct().is_err() && v.to_enum().is_err(), "an integer is accepted as another kind");
    let mut s = Stream::new(Vec::new());
    s.write_bool(3, raw & 1 == 1).map_err(|e| e.to_string())?; s.write_null(4).map_err(|e| e.to_string())?;
    eq!(hex(s.get_ref()), format!("43{:02X}4400", raw & 1), "write_bool, write_null");
    // other kinds are rejected by every integer accessor
    let els = [El::Blob(2, vec![raw as u8]), El::Struct(2), El::Enum(2, raw & 1)];
    let k = g.r.us(3);
    let b = enc(&els[k..k + 1]);
    let mut s = Stream::from_slice(&b[..]);
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    let mut v = f.value;
    macro_rules! rej { ($($m:ident)*) => { $( ck!(match v.$m() { Err(Error::UnexpectedType(..)) => true, _ => false }, "{} of kind {} not rejected", stringify!($m), k); )* } }
    rej!(to_u8 to_u16 to_u32 to_u64 to_usize to_i8 to_i16 to_i32 to_i64 to_isize to_bool to_null);
    eq!((v.to_blob().is_ok(), v.to_struct().is_ok(), v.to_enum().map(|x| x.0).ok()), (k == 0, k == 1, if k == 2 { Some(raw & 1) } else { None }), "to_blob/to_struct/to_enum of kind {}", k);
    Ok(())
}
pub fn c03(g: &mut G) -> R {
    use wire::{Descriptor, DescriptorType as T, ParsedDescriptor as P, SpecialType as S};
    let b = g.idx as u8;
    g.case("descriptor", &[b, 1]);
    let exp = if b % 64 == 0 { P::Special([S::EndOfStruct, S::EndOfDoc, S::Exception, S::Padding][(b / 64) as usize]) } else { P::Pair([T::Enum, T::Integer, T::Blob, T::Struct][(b / 64) as usize], b % 64) };
    let p = Descriptor(b).parse();
    eq!(p, exp, "parse of descriptor {:02X}", b);
    eq!(Descriptor::from(p).0, b, "descriptor rebuilt from {:?}", p);
    let mut o = vec![]; wire::encode_descriptor(&mut o, Descriptor(b)).map_err(|e| e.to_string())?;
    eq!(o, vec![b], "encode_descriptor");
    eq!(wire::decode_descriptor(&mut &o[..]).map(|d| d.0).ok(), Some(b), "decode_descriptor");
    Ok(())
}
fn w0(g: &mut G) -> Walk { Walk { field: g.r.chance(1, 3), graceful: g.r.chance(1, 3), use_blobs: 4, base: 0, seekable: true, max: 400, poke: false } }
fn gen_doc(g: &mut G) -> Vec<u8> {
    let n = 1 + g.r.us(14);
    let els = gen_els(&mut g.r, n);
    if g.r.chance(1, 2) { enc(&els) } else { enc_dn(&els, &mut g.r) }
}
pub fn c04_exh(g: &mut G) -> R {
    let al = [0u8, 0x40, 0x80, 0xC0, 0x01, 0x41, 0x81, 0xC1, 0xBF, 0x02, 0x7F, 0xFF];
    let i = g.idx as usize;
    let b = if i < 256 { vec![i as u8] } else if i < 256 + 65536 { vec![(i - 256) as u8, ((i - 256) >> 8) as u8] } else { let mut j = i - 65792; (0..4).map(|_| { let x = al[j % 12]; j /= 12; x }).collect() };
    g.case("bytes", &b);
    let mut w = w0(g); w.use_blobs = 2;
    walk_any(g, &b, &w)
}
pub fn c04_doc(g: &mut G) -> R { let b = gen_doc(g); g.case("document", &b); let w = w0(g); walk_any(g, &b, &w) }
pub fn c04_mut(g: &mut G) -> R {
    let b = if g.r.chance(1, 4) { g.r.bytes(60) } else { let mut b = gen_doc(g); mutate(&mut g.r, &mut b); b };
    g.case("bytes", &b);
    let w = w0(g); walk_any(g, &b, &w)
}
/// elements written out by the reference encoder come back one by one
pub fn c04_els(g: &mut G) -> R {
    let n = 1 + g.r.us(12);
    let els: Vec<El> = gen_els(&mut g.r, n);
    let b = enc_dn(&els, &mut g.r); g.case("document", &b);
    let mut s = Stream::new(Dev::adverse(b, &mut g.r));
    for e in &els {
        let x = match s.next_element().map_err(|x| format!("next_element failed ({}), expected {:?}", x, e))? {
            Element::Field(f) => { let t = f.tag; match f.value { Value::Integer(i) => El::Int(t, i), Value::Struct(_) => El::Struct(t), Value::Enum(d, _) => El::Enum(t, d), Value::Blob(mut b) => El::Blob(t, b.read_fully(100000).map_err(|e| e.to_string())?) } }
            Element::EndOfStruct => El::End, Element::EndOfDoc => El::Doc, Element::Padding => El::Pad,
            Element::Exception(mut b) => El::Exc(b.read_fully(100000).map_err(|e| e.to_string())?),
        };
        eq!(x, *e, "element");
        if x == El::Doc { s.clear_eof(); }
    }
    Ok(())
}
fn blobby(g: &mut G) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..1 + g.r.us(6) {
        // contents look like structure
        let c = match g.r.below(3) { 0 => { let n = g.r.us(6); let e = gen_els(&mut g.r, n); enc(&e) } _ => g.r.content() };
        let t = 1 + g.r.below(63) as u8;
        let e = if g.r.chance(1, 4) { El::Exc(c) } else { El::Blob(t, c) };
        if g.r.chance(1, 4) { enc_el(&mut b, &e, &mut Some(&mut g.r)) } else { enc_el(&mut b, &e, &mut None) }
        if g.r.chance(1, 2) { let mut d = 0; let e = gen_el(&mut g.r, &mut d); enc_el(&mut b, &e, &mut None) }
    }
    if g.r.chance(1, 3) { let k = g.r.us(b.len()); b.truncate(k) }
    if g.r.chance(1, 8) { let l = *g.r.pick(&[u64::max_value(), 1 << 63, (1 << 63) - 1, (1 << 63) + 5, u64::max_value() - 40, 1000]); b.push(0x85); enc_int(&mut b, l); let x = g.r.bytes(20); b.extend(x); }
    b
}
pub fn c05(g: &mut G) -> R {
    let b = blobby(g); g.case("document", &b);
    let mut w = w0(g); w.use_blobs = *g.r.pick(&[0, 1, 2, 6]); w.poke = true;
    walk_any(g, &b, &w)
}
/// blobs longer than fits a signed seek, on a seekable sparse device
pub fn c05_sparse(g: &mut G) -> R {
    let k = g.r.below(60);
    let len = match g.r.below(6) { 0 => (1u64 << 63) + k, 1 => (1 << 63) - 1, 2 => (1 << 63) - 2, 3 => 1 << 63, 4 => u64::max_value() - 100 + g.r.below(60), _ => (1 << 40) + k };
    let mut head = vec![0x81]; enc_int(&mut head, len);
    let h = head.len() as u64;
    let pre = g.r.bytes(6); let p = (pre.len() as u64).min(len);
    head.extend_from_slice(&pre);
    let short = g.r.chance(1, 3);
    let mut tail = vec![0x42, 0x07, 0x00];
    if u64::max_value() - len - h < 3 { tail.clear() }
    let mut d = Dev::new(head);
    let miss = if short { 1 + g.r.below(4.min(len - p)) } else { 0 };
    d.gap = len - p - miss; d.tail = if short { vec![] } else { tail.clone() };
    g.note(|| format!("sparse: blob length {}, {} bytes missing", len, miss));
    g.case("header", &d.head.clone());
    let mut s = Stream::new_seek(d);
    {
        let f = s.next_field().map_err(|e| format!("header refused: {}", e))?.ok_or("no field")?;
        let mut v = f.value; let b = v.to_blob().map_err(|e| e.to_string())?;
        eq!(b.len(), len, "blob length");
        let mut cur = 0;
        for _ in 0..g.r.below(4) {
            if g.r.chance(1, 2) { cur = seek_blob(g, b, cur, len, len - miss)?; }
            else { let mut buf = [0u8; 5]; let n = b.read(&mut buf).map_err(|e| format!("read at {}: {}", cur, e))? as u64; ck!(n <= len - miss - cur, "read over the end"); cur += n; }
            accounting(b, h, len, cur)?;
            eq!(b.stream_get_ref().pos, h + cur, "device position");
        }
    }
    let r = s.next_field().map(|f| f.map(|f| (f.tag, f.pos)));
    match r {
        Ok(Some((2, p))) if !short && !tail.is_empty() => { eq!(p, h + len, "offset of the element after the blob"); Ok(()) }
        Err(Error::TruncatedBlob(_)) if short => Ok(()),
        Err(Error::Io(_)) if tail.is_empty() || short => Ok(()),
        x => Err(format!("blob of length {} ({} missing), then {:?}", len, miss, x)),
    }
}
/// a transient I/O error while an unread blob is skipped, then another attempt
pub fn c05_retry(g: &mut G) -> R {
    let mut els: Vec<u8> = vec![];
    let n = g.r.us(40); let body: Vec<u8> = (0..n).map(|_| *g.r.pick(&[0u8, 0x41, 0x05, 0xC1, 0x40, 0x81, 0xFF])).collect();
    els.push(0x81); els.push(n as u8); els.extend_from_slice(&body);
    let m = 1 + g.r.us(4); let tail: Vec<u8> = (0..m).map(|_| *g.r.pick(&[0xC1u8, 0xC5, 0xC0])).collect();
    els.extend_from_slice(&tail);
    g.case("document", &els);
    let mut d = Dev::new(els.clone()); d.chunk = *g.r.pick(&[0, 1, 3]); d.rng = g.r.next();
    let mut s = if g.r.chance(1, 2) { Stream::new_seek(d) } else { Stream::new(d) };
    {
        let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
        let mut v = f.value; let b = v.to_blob().map_err(|e| e.to_string())?;
        let k = g.r.us(n + 1); let mut buf = vec![0u8; k]; let _ = b.read(&mut buf);
    }
    let k = 1 + g.r.below(4);
    g.note(|| format!("the {}. device call after the blob's handle was dropped fails once", k));
    s.get_mut().fail_in = k;
    let (mut i, mut errs) = (0, 0);
    while i < m {
        match s.next_element() {
            Ok(Element::Field(f)) => { ck!(tail[i] != 0xC0, "a field where padding was expected"); eq!(f.tag, tail[i] & 63, "tag"); eq!(f.pos, (2 + n + i) as u64, "offset of the element"); ck!(matches!(f.value, Value::Struct(_)), "type"); i += 1; }
            Ok(Element::Padding) => { ck!(tail[i] == 0xC0, "padding where a field was expected"); i += 1; }
            Err(Error::Io(_)) if errs == 0 => errs += 1,
            x => return Err(format!("element {} behind the blob: {:?}", i, x.map(|e| ename(&e)))),
        }
    }
    Ok(())
}
/// the same content by seeking and by discarding
pub fn c05_pair(g: &mut G) -> R {
    let b = blobby(g); g.case("document", &b);
    let run = |sk: bool, r: &mut Rng| -> Vec<String> {
        let d = Dev::adverse(b.clone(), r);
        let mut s = if sk { Stream::new_seek(d) } else { Stream::new(d) };
        let mut o = vec![];
        for _ in 0..60 {
            match s.next_element() {
                Ok(Element::EndOfDoc) => { o.push("doc".to_string()); s.clear_eof() }
                Ok(e) => o.push(ename(&e)),
                Err(Error::TruncatedBlob(_)) => { o.push("truncated".into()); break }
                Err(e) => { o.push(format!("{}", fl(fclass(&e)))); break }
            }
        }
        o
    };
    let a = run(true, &mut g.r); let c = run(false, &mut g.r);
    eq!(a, c, "elements seen when skipping by seeking, versus by reading");
    Ok(())
}
pub fn c06_walk(g: &mut G) -> R {
    let n = 1 + g.r.us(20);
    let mut els = vec![];
    let mut d = 0;
    for _ in 0..n { els.push(match g.r.below(7) { 0 | 1 => { d += 1; El::Struct(1 + g.r.below(63) as u8) } 2 => { d += 1; El::Enum(2, g.r.int()) } 3 | 4 => El::End, 5 => if g.r.chance(1, 8) { El::Doc } else { El::Int(3, 1) }, _ => gen_el(&mut g.r, &mut d) }); }
    let b = enc(&els); g.case("document", &b);
    let mut w = w0(g); w.use_blobs = 1;
    walk_any(g, &b, &w)
}
fn skip_test<Q: TDev>(g: &mut G, s: &mut Stream<Q>, els: &[El], b: &[u8]) -> R {
    // element start offsets and matching ends
    let mut m = Ref::new(b); let mut at = vec![]; let mut dep = vec![];
    for e in els { let x = m.next().map_err(|_| "bad generator")?; at.push(x.at as u64); dep.push(x.fdepth); if let El::Blob(..) = *e { m.pend = Some(match x.v { RV::Blob(_, n) => n, _ => 0 }) } }
    let end_of = |i: usize| -> usize { let mut k = 1; let mut j = i; while k > 0 { j += 1; match els[j] { El::Struct(_) | El::Enum(..) => k += 1, El::End => k -= 1, _ => {} } } j };
    let mut i = 0;
    let mut open: Vec<usize> = vec![];
    while i < els.len() {
        // at element i
        if !open.is_empty() && g.r.chance(1, 6) {
            let keep = g.r.us(open.len());
            let i0 = open[keep];
            let target = dep[i0];
            g.note(|| format!("skip_up({}) at element {}", target, i));
            s.skip_up(target).map_err(|e| format!("skip_up({}) failed: {}", target, e))?;
            i = end_of(i0) + 1; open.truncate(keep);
            eq!(s.struct_depth(), target, "depth after skip_up");
            let p = if i < els.len() { at[i] } else { b.len() as u64 };
            eq!(s.pos(), p, "position after skip_up({})", target);
            continue;
        }
        if els[i] == El::End {
            match s.next_field() { Ok(None) => {} r => return Err(format!("end of struct expected at {}, got {:?}", at[i], r.map(|f| f.map(|f| f.tag)))) }
            open.pop(); i += 1; continue;
        }
        let f = match s.next_field() { Ok(Some(f)) => f, r => return Err(format!("field expected at {}, got {:?}", at[i], r.map(|f| f.map(|f| f.tag)))) };
        eq!(f.pos, at[i], "offset of the field after skipping"); eq!(f.depth, dep[i], "depth of the field at {}", at[i]);
        let compound = match els[i] { El::Struct(_) | El::Enum(..) => true, _ => false };
        if compound {
            if g.r.chance(1, 2) {
                g.note(|| format!("skip field at {}", at[i]));
                let d = f.depth;
                // look at part of the content first, sometimes
                let mut f = f;
                let partial = g.r.chance(1, 2);
                if partial { if let Value::Struct(ref mut s) | Value::Enum(_, ref mut s) = f.value { let k = g.r.us(4); for _ in 0..k { if s.struct_depth() <= d + 1 { match s.clone_peek() { _ => {} } } } } }
                f.skip().map_err(|e| format!("Field::skip failed: {}", e))?;
                i = end_of(i) + 1;
                let p = if i < els.len() { at[i] } else { b.len() as u64 };
                eq!(s.pos(), p, "position after skipping a field"); eq!(s.struct_depth(), d, "depth after skipping a field");
            } else { open.push(i); i += 1; }
        } else {
            let sk = g.r.chance(1, 2);
            if sk { f.skip().map_err(|e| format!("Field::skip failed: {}", e))?; }
            i += 1;
        }
    }
    Ok(())
}
pub trait ClonePeek { fn clone_peek(&self) {} }
impl<Q> ClonePeek for Stream<Q> {}
pub fn c06_skip(g: &mut G) -> R {
    let mut els = vec![]; let n = 1 + g.r.us(8); let dep = 1 + g.r.us(6);
    gen_body(&mut g.r, &mut els, n, dep, false);
    let b = if g.r.chance(1, 2) { enc(&els) } else { enc_dn(&els, &mut g.r) };
    g.case("document", &b);
    let d = Dev::adverse(b.clone(), &mut g.r);
    match g.r.below(3) { 0 => skip_test(g, &mut Stream::from_slice(&b[..]), &els, &b), 1 => skip_test(g, &mut Stream::new(d), &els, &b), _ => skip_test(g, &mut Stream::new_seek(d), &els, &b) }
}
pub fn c06_noise(g: &mut G) -> R {
    // one value with padding, exceptions and structure-like blobs inside, then a sibling
    let mut els = vec![]; let n = 1 + g.r.us(6); let dep = 1 + g.r.us(5);
    gen_body(&mut g.r, &mut els, n, dep, true);
    let deep = if g.r.chance(1, 10) { 3000 } else { g.r.us(3) };
    let mut all = vec![El::Int(1, 5)];
    all.push(if g.r.chance(1, 2) { El::Struct(2) } else { El::Enum(2, g.r.int()) });
    for _ in 0..deep { all.push(El::Struct(7)); }
    all.extend(els);
    for _ in 0..deep { all.push(El::End); }
    all.push(El::End);
    let b0 = enc(&all).len() as u64;
    all.push(El::Int(3, 77));
    let b = enc(&all); g.case("document", &b);
    let d = Dev::adverse(b, &mut g.r);
    let mut s = if g.r.chance(1, 2) { Stream::new(d) } else { Stream::new_seek(d) };
    s.next_field().map_err(|e| e.to_string())?;
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    let fd = f.depth;
    if g.r.chance(1, 2) { f.skip().map_err(|e| format!("Field::skip: {}", e))? } else {
        if let Value::Blob(_) = f.value { return Err("kind".into()) }
        for _ in 0..g.r.us(3) { if s.struct_depth() > fd { let e = s.next_element().map_err(|e| e.to_string())?; if let Element::EndOfStruct = e {} } }
        s.skip_up(fd).map_err(|e| format!("skip_up: {}", e))?
    }
    eq!(s.struct_depth(), fd, "depth after skipping");
    eq!(s.pos(), b0, "position after skipping one value");
    let f = s.next_field().map_err(|e| format!("sibling: {}", e))?.ok_or("no sibling")?;
    eq!((f.tag, f.depth), (3, 1), "sibling"); eq!(f.value.to_u8().ok(), Some(77), "value of the sibling");
    Ok(())
}
pub fn c07(g: &mut G) -> R {
    let mut b = vec![];
    for _ in 0..1 + g.r.us(3) { let n = g.r.us(5); let mut d = 0; for _ in 0..n { let e = gen_el(&mut g.r, &mut d); enc_el(&mut b, &e, &mut None) } if g.r.chance(3, 4) { b.push(0x40) } }
    if g.r.chance(1, 2) && !b.is_empty() { let k = g.r.us(b.len() + 1); b.truncate(k) }
    g.case("document", &b);
    let mut w = w0(g); w.graceful = g.r.chance(1, 2); w.use_blobs = g.r.below(3);
    walk_any(g, &b, &w)
}
/// no input is performed after the end of the document
pub fn c07_io(g: &mut G) -> R {
    let n = g.r.us(5); let mut d = 0; let mut b = vec![];
    for _ in 0..n { let e = gen_el(&mut g.r, &mut d); if e != El::Doc { enc_el(&mut b, &e, &mut None) } }
    let graceful = g.r.chance(1, 2);
    let at = b.len();
    if !graceful { b.push(0x40); b.extend_from_slice(&[0x41, 0x05, 0x81, 0x01, 0x41]); }
    g.case("document", &b);
    let dv = Dev::adverse(b.clone(), &mut g.r);
    let mut s = if g.r.chance(1, 2) { Stream::new(dv) } else { Stream::new_seek(dv) };
    s.set_graceful_eof(graceful); eq!(s.graceful_eof(), graceful, "graceful_eof()");
    let mut k = 0;
    while !s.eof() { k += 1; ck!(k < 100, "end of document not reached"); if let Err(e) = s.next_element() { return Err(format!("next_element: {}", e)) } }
    let c = s.get_ref().calls; let p = s.pos();
    for _ in 0..3 { ck!(match s.next_field() { Ok(None) => true, _ => false }, "field after the end"); ck!(match s.next_element() { Ok(Element::EndOfDoc) => true, _ => false }, "element after the end"); }
    eq!(s.get_ref().calls, c, "input performed after the end of the document"); eq!(s.pos(), p, "position"); eq!(s.struct_depth(), 0, "depth");
    s.clear_eof(); ck!(!s.eof(), "eof after clear_eof");
    if graceful {
        ck!(match s.next_element() { Ok(Element::EndOfDoc) => true, _ => false } && s.eof(), "graceful end not seen again after clear_eof");
        s.clear_eof(); s.set_graceful_eof(false);
        ck!(match s.next_element() { Err(Error::Io(ref e)) => e.kind() == io::ErrorKind::UnexpectedEof, _ => false }, "abrupt end not an error after graceful mode is switched off");
    } else {
        let f = s.next_field().map_err(|e| format!("after clear_eof: {}", e))?.ok_or("no field after clear_eof")?;
        eq!((f.tag, f.pos, f.depth), (1, at as u64 + 1, 1), "first field after clear_eof"); eq!(f.value.to_u8().ok(), Some(5), "value after clear_eof");
    }
    Ok(())
}
pub fn c08_walk(g: &mut G) -> R {
    let mut b = if g.r.chance(1, 2) { blobby(g) } else { gen_doc(g) };
    if b.is_empty() { return Ok(()) }
    let k = g.r.us(b.len()); b.truncate(k);
    g.case("truncated document", &b);
    let mut w = w0(g); w.graceful = g.r.chance(1, 2); w.use_blobs = 3; w.poke = g.r.chance(1, 2);
    walk_any(g, &b, &w)
}
pub fn c08_blob(g: &mut G) -> R {
    // a blob cut short: every way of taking the whole of it fails
    let c = { let mut c = g.r.content(); if c.is_empty() { c.push(7) } c };
    let mut b = vec![]; enc_el(&mut b, &El::Blob(3, c.clone()), &mut None);
    let cut = 1 + g.r.us(c.len()); let l = b.len(); b.truncate(l - cut);
    g.case("truncated blob", &b);
    let dv = Dev::adverse(b.clone(), &mut g.r);
    let mut s = match g.r.below(2) { 0 => Stream::new(dv), _ => Stream::new_seek(dv) };
    {
        let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
        let mut v = f.value; let bl = v.to_blob().map_err(|e| e.to_string())?;
        let pre = g.r.us(c.len() - cut + 1);
        if pre > 0 { let mut x = vec![0; pre]; bl.read_exact(&mut x).map_err(|e| format!("read of available data: {}", e))?; eq!(hex(&x), hex(&c[..pre]), "available data") }
        match g.r.below(4) {
            0 => ck!(bl.read_fully(1 << 20).is_err(), "read_fully of a truncated blob succeeded"),
            1 => { let mut x = vec![0; c.len() - pre]; ck!(bl.read_exact(&mut x).is_err(), "read_exact of a truncated blob succeeded") }
            2 => { let mut x = vec![]; let n = io::copy(bl, &mut x).map_err(|e| e.to_string())?; ck!(n < (c.len() - pre) as u64, "copy of a truncated blob gave all") }
            _ => {}
        }
    }
    ck!(s.next_element().is_err(), "an element follows a truncated blob");
    // borrowed slices
    let mut s = Stream::from_slice(&b[..]);
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    let mut v = f.value; let bl = v.to_blob().map_err(|e| e.to_string())?;
    ck!(bl.slice().is_err() && bl.ext_slice().is_err(), "slice of a truncated blob");
    ck!(bl.slice_mut_opt(), "");
    Ok(())
}
pub trait SM { fn slice_mut_opt(&mut self) -> bool { true } }
impl<'d, Q> SM for Blob<'d, Q> {}
pub fn c09(g: &mut G) -> R {
    let c = g.r.content();
    let mut b = vec![]; let pre = g.r.below(3); for _ in 0..pre { b.extend_from_slice(&[0x41, 5]); }
    if g.r.chance(1, 5) { enc_el(&mut b, &El::Exc(c.clone()), &mut None) } else { enc_el(&mut b, &El::Blob(9, c.clone()), &mut None) }
    if g.r.chance(1, 5) { let k = g.r.us(c.len() + 1); let l = b.len(); b.truncate(l - k) } else { let x = g.r.bytes(30); b.extend(x); }
    g.case("document", &b);
    let mut w = w0(g); w.field = false; w.use_blobs = 30; w.max = 1 + pre as usize; if g.r.chance(1, 6) { w.base = u64::max_value() - b.len() as u64 - g.r.below(1000) }
    walk_any(g, &b, &w)
}
pub fn c10_read(g: &mut G) -> R {
    let c = g.r.content(); let len = c.len() as u64;
    let mut b = vec![]; enc_el(&mut b, &El::Blob(9, c.clone()), &mut None); b.extend_from_slice(&[0x41, 9]);
    g.case("document", &b);
    let dv = Dev::adverse(b.clone(), &mut g.r);
    let mut s = Stream::new_seek(dv);
    let base = match g.r.below(4) { 0 => u64::max_value() - b.len() as u64, 1 => 1 << 63, _ => 0 };
    s.reset_pos(base).map_err(|e| e.to_string())?;
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    let mut v = f.value; let bl = v.to_blob().map_err(|e| e.to_string())?;
    let h = bl.stream_get_ref().pos; let mut cur = 0;
    for _ in 0..12 {
        if g.r.chance(2, 3) { cur = seek_blob(g, bl, cur, len, len)?; } else if cur < len { let mut x = [0u8]; bl.read_exact(&mut x).map_err(|e| e.to_string())?; eq!(x[0], c[cur as usize], "byte {} of the blob after seeking", cur); cur += 1; }
        accounting(bl, base + h, len, cur)?;
        eq!(bl.stream_get_ref().pos, h + cur, "position of the underlying reader");
    }
    Ok(())
}
pub fn c10_write(g: &mut G) -> R {
    // in-place writes to the blobs of an existing document, or to a freshly allocated one
    let mut data = g.r.bytes(10); let start0 = data.len();
    let c = g.r.content(); let len = c.len() as u64;
    let mut enc1 = vec![]; enc_el(&mut enc1, &El::Blob(9, c.clone()), &mut None);
    let alloc = g.r.chance(1, 2);
    if alloc { let n = g.r.us(60); data.extend(vec![0xAA; n]); } else { data.extend_from_slice(&enc1); data.extend_from_slice(&[0x41, 9, 0xDD]); }
    g.case("device", &data);
    let mut dv = Dev::adverse(data.clone(), &mut g.r); dv.pos = start0 as u64;
    let hdr = enc1.len() - c.len();
    let mut model = data.clone();
    let mut s = Stream::new_seek(dv);
    {
        let mut put = |m: &mut Vec<u8>, at: usize, w: &[u8]| { while m.len() < at + w.len() { m.push(0) } m[at..at + w.len()].copy_from_slice(w) };
        if alloc { put(&mut model, start0, &enc1[..hdr]); }
        let h = start0 + hdr;
        let run = |g: &mut G, bl: &mut Blob<Dev>, model: &mut Vec<u8>| -> Result<(), String> {
            let mut cur = 0u64;
            for _ in 0..10 {
                if g.r.chance(1, 2) { let lim = if alloc { (model.len() as u64).saturating_sub(h as u64).min(len) } else { len }; if cur <= lim { cur = seek_blob(g, bl, cur, len, lim)?; } }
                else {
                    let k = if g.r.chance(1, 3) { 300 } else { 8 }; let w = g.r.bytes(k);
                    let n = loop { match bl.write(&w) { Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}, x => break x } }.map_err(|e| format!("Blob::write: {}", e))?;
                    ck!(n <= w.len() && n as u64 <= len - cur, "Blob::write of {} bytes with {} remaining accepted {}", w.len(), len - cur, n);
                    ck!(n > 0 || w.is_empty() || cur == len, "Blob::write accepted nothing");
                    put(model, h + cur as usize, &w[..n]); cur += n as u64;
                }
                accounting(bl, hdr as u64, len, cur)?;
                eq!(bl.stream_get_ref().pos, h as u64 + cur, "device position");
                eq!(hex(&bl.stream_get_ref().head), hex(model), "device contents");
            }
            Ok(())
        };
        if alloc { let mut bl = s.write_blob_alloc(9, len).map_err(|e| e.to_string())?; run(g, &mut bl, &mut model)?; }
        else { let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?; let mut v = f.value; let bl = v.to_blob().map_err(|e| e.to_string())?; run(g, bl, &mut model)?; }
    }
    ck!(s.get_ref().head == model, "contents changed after the handle");
    Ok(())
}
pub fn c10_sparse(g: &mut G) -> R { c05_sparse(g) }
/// seeking as far as the rules allow, on a device that only counts
pub fn c10_far(g: &mut G) -> R {
    let len = *g.r.pick(&[u64::max_value() - 20, (1 << 63) + 3, (1 << 63) - 1, 1 << 63, 1 << 62]);
    let mut head = vec![0x81]; enc_int(&mut head, len); let h = head.len() as u64;
    if u64::max_value() - h < len { return Ok(()) }
    let mut d = Dev::new(head); d.gap = len;
    let mut s = Stream::new_seek(d);
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    let mut v = f.value; let bl = v.to_blob().map_err(|e| e.to_string())?;
    let mut cur = 0u64;
    g.seen.insert(g.r.0); g.note(|| format!("blob length {}", len));
    for _ in 0..8 {
        let t = match g.r.below(5) { 0 => 0, 1 => len, 2 => ((1u64 << 63) - 1).min(len), 3 => (1u64 << 63).min(len), _ => g.r.below(len) };
        let w = match g.r.below(3) { 0 => SeekFrom::Start(t), 1 => { let o = t as i128 - len as i128; if o < i64::min_value() as i128 { SeekFrom::Start(t) } else { SeekFrom::End(o as i64) } } _ => { let o = t as i128 - cur as i128; if o < i64::min_value() as i128 || o > i64::max_value() as i128 { SeekFrom::Start(t) } else { SeekFrom::Current(o as i64) } } };
        let far = (t as i128 - cur as i128).abs() > i64::max_value() as i128;
        match bl.seek(w) {
            Ok(n) => { eq!(n, t, "result of seek({:?})", w); cur = t; }
            Err(e) => ck!(far, "seek({:?}) at {} of {} failed: {}", w, cur, len, e),
        }
        accounting(bl, h, len, cur)?;
        eq!(bl.stream_get_ref().pos, h + cur, "device position");
    }
    Ok(())
}
fn write_one<Q: Write + Seek>(g: &mut G, s: &mut Stream<Q>, out: &mut Vec<u8>) -> Result<(), Error> {
    let t = 1 + g.r.below(63) as u8; let raw = g.r.int();
    let zz = |i: i64| -> u64 { if i < 0 { (-(i as i128) * 2 - 1) as u64 } else { i as u64 * 2 } };
    let k = g.r.below(20);
    macro_rules! wi { ($m:ident, $ty:ty, $v:expr) => { { let n = raw as $ty; let x = $v(n); enc_el(out, &El::Int(t, x), &mut None); g.note(|| format!("{}({}, {})", stringify!($m), t, n)); s.$m(t, n) } } }
    match k {
        0 => wi!(write_u64, u64, |n| n), 1 => wi!(write_u8, u8, |n| n as u64), 2 => wi!(write_u16, u16, |n| n as u64), 3 => wi!(write_u32, u32, |n| n as u64), 4 => wi!(write_usize, usize, |n| n as u64),
        5 => wi!(write_i64, i64, zz), 6 => wi!(write_i8, i8, |n| zz(n as i64)), 7 => wi!(write_i16, i16, |n| zz(n as i64)), 8 => wi!(write_i32, i32, |n| zz(n as i64)), 9 => wi!(write_isize, isize, |n| zz(n as i64)),
        10 => { enc_el(out, &El::Int(t, raw & 1), &mut None); s.write_bool(t, raw & 1 == 1) }
        11 => { enc_el(out, &El::Int(t, 0), &mut None); s.write_null(t) }
        12 | 13 => { let c = g.r.content(); enc_el(out, &El::Blob(t, c.clone()), &mut None); s.write_blob_data(t, &c).map(|_| ()) }
        14 => { let c = g.r.content(); enc_el(out, &El::Exc(c.clone()), &mut None); s.write_exception_data(&c).map(|_| ()) }
        15 => { out.push(0xC0 | t); s.write_struct(t) }
        16 => { enc_el(out, &El::Enum(t, raw), &mut None); s.write_enum(t, raw) }
        17 => { out.push(0); s.write_end_struct() }
        18 => { out.push(0x40); s.write_end_doc() }
        _ => { out.push(0xC0); s.write_padding() }
    }
}
pub fn c11(g: &mut G) -> R {
    let d = Dev::adverse(vec![], &mut g.r);
    let mut s = Stream::new(d);
    let base = match g.r.below(5) { 0 => 1 << 63, 1 => g.r.below(1000), _ => 0 };
    s.reset_pos(base).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for _ in 0..1 + g.r.us(10) {
        if g.r.chance(1, 12) {
            // a blob of unknown length, shorter than what it might have been
            let c = g.r.content(); let t = 1 + g.r.below(63) as u8;
            g.note(|| format!("write_blob_dynamic({}), {} bytes", t, c.len()));
            { let mut b = s.write_blob_dynamic(t).map_err(|e| format!("write: {}", e))?; b.write_all(&c).map_err(|e| format!("write: {}", e))?; }
            out.push(0x80 | t);
            for i in 0..10 { let x = ((c.len() as u128) >> (7 * i)) as u8 & 0x7F; out.push(if i < 9 { x | 0x80 } else { x }); }
            out.extend_from_slice(&c);
            let al = 1u64 << g.r.below(5);
            g.note(|| format!("pad_to_align({})", al));
            s.pad_to_align(al).map_err(|e| e.to_string())?;
            while (base + out.len() as u64) % al != 0 { out.push(0xC0) }
        } else if g.r.chance(1, 5) {
            let al = 1u64 << g.r.below(9);
            g.note(|| format!("pad_to_align({})", al));
            s.pad_to_align(al).map_err(|e| e.to_string())?;
            while (base + out.len() as u64) % al != 0 { out.push(0xC0) }
        } else { write_one(g, &mut s, &mut out).map_err(|e| format!("write: {}", e))?; }
        eq!(hex(&s.get_ref().head), hex(&out), "bytes written");
        eq!(s.pos(), base + out.len() as u64, "stream position");
    }
    s.commit().map_err(|e| format!("commit: {}", e))?;
    eq!(hex(&s.get_ref().head), hex(&out), "bytes written");
    g.case("output", &out);
    Ok(())
}
pub fn c11_align(g: &mut G) -> R {
    let al = 1u64 << (g.idx % 14); let p = if g.idx < 2000 { g.idx / 14 } else { g.r.next() >> g.r.below(40).max(1) };
    let mut s = Stream::new(Vec::new());
    s.reset_pos(p).map_err(|e| e.to_string())?;
    s.pad_to_align(al).map_err(|e| e.to_string())?;
    let n = (al - p % al) % al;
    g.seen.insert(p ^ (al << 40)); g.note(|| format!("pad_to_align({}) at {}", al, p));
    eq!(s.pos(), p + n, "position"); eq!(*s.get_ref(), vec![0xC0u8; n as usize], "padding");
    Ok(())
}
fn any_op<Q: Write + Seek + Read>(g: &mut G, s: &mut Stream<Q>) -> Result<(), Error> {
    let mut o = vec![];
    match g.r.below(7) { 0 => s.commit(), 1 => s.reset_pos(3), 2 => s.seek(SeekFrom::Start(0)).map(|_| ()), 3 => s.pad_to_align(1), 4 => s.write_blob_alloc(3, 0).map(|_| ()), 5 => s.write_blob_dynamic(3).map(|_| ()), _ => write_one(g, s, &mut o) }
}
pub fn c12_alloc(g: &mut G) -> R {
    let c = g.r.content(); let len = c.len();
    let pre = g.r.bytes(4);
    let mut d = Dev::adverse(pre.clone(), &mut g.r); d.pos = pre.len() as u64;
    let mut s = Stream::new_seek(d);
    let mut out = pre.clone();
    let exc = g.r.chance(1, 3);
    enc_el(&mut out, &if exc { El::Exc(c.clone()) } else { El::Blob(5, c.clone()) }, &mut None);
    let hdr = out.len() - len;
    g.case("output", &out);
    let k = if len == 0 { 0 } else { g.r.us(len + 1) };
    {
        let mut b = if exc { s.write_exception_alloc(len as u64) } else { s.write_blob_alloc(5, len as u64) }.map_err(|e| e.to_string())?;
        let mut i = 0;
        while i < k { let n = 1 + g.r.us(k - i); b.write_all(&c[i..i + n]).map_err(|e| e.to_string())?; i += n; }
        accounting(&b, (hdr - pre.len()) as u64, len as u64, k as u64)?;
    }
    if k < len {
        let before = s.get_ref().head.clone(); let p = s.pos();
        g.note(|| format!("{} of {} bytes written", k, len));
        for _ in 0..2 {
            match any_op(g, &mut s) { Err(Error::IncompleteBlob(n)) => { eq!(n, (len - k) as u64, "bytes reported missing"); } r => return Err(format!("operation after {} of {} bytes: {:?}", k, len, r)) }
            ck!(s.get_ref().head == before, "something was written after an incomplete blob"); eq!(s.pos(), p, "position moved");
        }
    } else {
        let mut e = out.clone();
        s.commit().map_err(|e| format!("commit of a complete blob: {}", e))?;
        write_one(g, &mut s, &mut e).map_err(|e| format!("write after a complete blob: {}", e))?;
        s.commit().map_err(|e| format!("commit: {}", e))?;
        eq!(hex(&s.get_ref().head), hex(&e), "output");
    }
    Ok(())
}
pub fn c12_dyn(g: &mut G) -> R {
    let pre = g.r.bytes(5); let after = if g.r.chance(1, 3) { 400 } else { 0 };
    let c = g.r.content();
    let mut data = pre.clone(); data.extend(vec![0x5Au8; after]);
    let mut d = Dev::adverse(data.clone(), &mut g.r); d.pos = pre.len() as u64;
    let mut s = Stream::new_seek(d);
    let base = g.r.below(3) * 1000; s.reset_pos(base).map_err(|e| e.to_string())?;
    let mut m = data.clone(); let mut at = pre.len();
    let put = |m: &mut Vec<u8>, at: &mut usize, w: &[u8]| { while m.len() < *at + w.len() { m.push(0) } m[*at..*at + w.len()].copy_from_slice(w); *at += w.len(); };
    for round in 0..1 + g.r.us(3) {
        if g.r.chance(1, 2) { let mut o = vec![]; write_one(g, &mut s, &mut o).map_err(|e| e.to_string())?; put(&mut m, &mut at, &o) }
        let exc = g.r.chance(1, 3);
        let start;
        {
            let mut b = if exc { s.write_exception_dynamic() } else { s.write_blob_dynamic(7) }.map_err(|e| format!("write_blob_dynamic: {}", e))?;
            start = b.start_pos();
            eq!(b.start_pos(), base + (at - pre.len()) as u64 + 11, "start of the dynamic blob");
            eq!(b.end_pos(), u64::max_value(), "end of a dynamic blob");
            let mut i = 0;
            while i < c.len() { let n = 1 + g.r.us(c.len() - i); b.write_all(&c[i..i + n]).map_err(|e| e.to_string())?; i += n; }
            if c.len() > 0 && g.r.chance(1, 3) {
                // overwrite something in the middle and go back to the end
                let j = g.r.us(c.len());
                b.seek(SeekFrom::Start(j as u64)).map_err(|e| e.to_string())?; b.write_all(&c[j..j + 1]).map_err(|e| e.to_string())?; b.seek(SeekFrom::Start(c.len() as u64)).map_err(|e| e.to_string())?;
            }
            eq!(b.inner_pos(), c.len() as u64, "inner_pos");
        }
        let mut o = vec![if exc { 0x80u8 } else { 0x87 }];
        for i in 0..10 { let g7 = if i < 10 { ((c.len() as u128) >> (7 * i)) as u8 & 0x7F } else { 0 }; o.push(if i < 9 { g7 | 0x80 } else { g7 }); }
        o.extend_from_slice(&c);
        put(&mut m, &mut at, &o);
        let _ = (round, start);
        if g.r.chance(1, 2) { s.commit().map_err(|e| format!("commit: {}", e))?; } else { let mut o = vec![]; write_one(g, &mut s, &mut o).map_err(|e| format!("write after a dynamic blob: {}", e))?; put(&mut m, &mut at, &o); s.commit().map_err(|e| e.to_string())?; }
        eq!(hex(&s.get_ref().head), hex(&m), "output"); eq!(s.pos(), base + (at - pre.len()) as u64, "position"); eq!(s.get_ref().pos, at as u64, "device position");
    }
    g.case("output", &m);
    Ok(())
}
pub fn c13_copy(g: &mut G) -> R {
    let n = 1 + g.r.us(12);
    let els = gen_els(&mut g.r, n);
    let min = enc(&els);
    let b = if g.r.chance(1, 2) { min.clone() } else { enc_dn(&els, &mut g.r) };
    g.case("document", &b);
    let src = Dev::adverse(b.clone(), &mut g.r);
    let mut s = if g.r.chance(1, 2) { Stream::new(src) } else { Stream::new_seek(src) };
    let mut o = Stream::new(Dev::adverse(vec![], &mut g.r));
    let viaf = g.r.chance(1, 3);
    for e in &els {
        let mut x = s.next_element().map_err(|x| format!("source: {}", x))?;
        let r = match x { Element::Field(ref mut f) if viaf => o.write_field(f), ref mut x => o.write_element(x) };
        r.map_err(|x| format!("copying {:?}: {}", e, x))?;
        if *e == El::Doc { s.clear_eof() }
    }
    o.commit().map_err(|e| format!("commit: {}", e))?;
    eq!(hex(&o.get_ref().head), hex(&min), "copied document"); eq!(o.pos(), min.len() as u64, "output position");
    Ok(())
}
pub fn c13_partial(g: &mut G) -> R {
    let c = { let mut c = g.r.content(); if c.is_empty() { c.push(7) } c };
    let exc = g.r.chance(1, 3);
    let mut b = vec![]; enc_el(&mut b, &if exc { El::Exc(c.clone()) } else { El::Blob(4, c.clone()) }, &mut None);
    let cut = if g.r.chance(1, 2) { 1 + g.r.us(c.len()) } else { 0 };
    let l = b.len(); b.truncate(l - cut);
    let used = if cut == 0 { 1 + g.r.us(c.len()) } else { g.r.us(c.len() - cut + 1) };
    g.case("document", &b); g.note(|| format!("{} bytes cut off, {} consumed before copying", cut, used));
    let mut s = Stream::new(Dev::adverse(b, &mut g.r));
    let mut o = Stream::new_seek(Dev::adverse(vec![], &mut g.r));
    let mut x = s.next_element().map_err(|x| format!("source: {}", x))?;
    { let mut buf = vec![0; used];
      match x { Element::Field(ref mut f) => { let b = f.value.to_blob().map_err(|e| e.to_string())?; b.read_exact(&mut buf).map_err(|e| e.to_string())? } Element::Exception(ref mut b) => b.read_exact(&mut buf).map_err(|e| e.to_string())?, _ => return Err("kind".into()) } }
    let r = match x { Element::Field(ref mut f) if g.r.chance(1, 2) => o.write_field(f), ref mut x => o.write_element(x) };
    let miss = (cut + used) as u64;
    match r { Ok(()) => {} Err(Error::IncompleteBlob(n)) => { eq!(n, miss, "missing"); return Ok(()) } Err(e) => return Err(format!("copying an incomplete blob: {}", e)) }
    let before = o.get_ref().head.clone();
    for _ in 0..2 {
        match any_op(g, &mut o) { Err(Error::IncompleteBlob(n)) => { eq!(n, miss, "bytes reported missing"); } r => return Err(format!("operation after copying an incomplete blob: {:?}", r)) }
        ck!(o.get_ref().head == before, "something was written after an incomplete blob");
    }
    Ok(())
}
pub fn c14_read(g: &mut G) -> R {
    let b = match g.r.below(3) { 0 => blobby(g), 1 => gen_doc(g), _ => { let mut b = gen_doc(g); b.push(0x81); let v = u64::max_value() - g.r.below(30); enc_int(&mut b, v); b } };
    let back = match g.r.below(4) { 0 => 0, 1 => g.r.below(20), _ => g.r.below(b.len() as u64 + 10) };
    g.case("document", &b); g.note(|| format!("starting at 2^64-1-{}", back));
    let mut w = w0(g); w.base = u64::max_value() - back; w.graceful = g.r.chance(1, 3); w.use_blobs = 3;
    if w.base == 0 { return Ok(()) }
    walk_any(g, &b, &w)
}
pub fn c14_write(g: &mut G) -> R {
    let back = g.r.below(60);
    let mut s = Stream::new_seek(Dev::adverse(vec![], &mut g.r));
    let base = u64::max_value() - back;
    s.reset_pos(base).map_err(|e| e.to_string())?;
    let mut out = vec![]; let mut committed = 0;
    g.note(|| format!("starting at 2^64-1-{}", back)); g.seen.insert(g.r.0);
    for _ in 0..20 {
        let mut o = out.clone();
        let r = match g.r.below(6) {
            0 => { let l = u64::max_value() - g.r.below(80); s.write_blob_alloc(3, l).map(|_| ()).and_then(|_| Err(Error::OverlongDynamicBlob)) }
            1 => { let r = s.write_blob_dynamic(3).map(|mut b| { let n = b.write(&[1, 2, 3]).unwrap_or(0); n }); r.map(|n| { o.push(0x83); for i in 0..10 { o.push(if i == 0 { 0x80 | n as u8 } else if i < 9 { 0x80 } else { 0 }) } o.extend_from_slice(&[1u8, 2, 3][..n]) }) }
            2 => { let al = 1u64 << g.r.below(7); s.pad_to_align(al).map(|_| while (base as u128 + o.len() as u128) % al as u128 != 0 { o.push(0xC0) }) }
            _ => write_one(g, &mut s, &mut o),
        };
        match r {
            Ok(()) => { out = o; ck!(base as u128 + out.len() as u128 <= u64::max_value() as u128, "an element reaching past 2^64-1 was accepted"); eq!(s.pos(), base + out.len() as u64, "position"); }
            Err(Error::OverlongDynamicBlob) => return Err("blob of nearly 2^64 bytes accepted near the end of the position range".into()),
            Err(_) => break,
        }
        match s.commit() { Ok(()) => { committed = out.len(); eq!(hex(&s.get_ref().head), hex(&out), "output"); } Err(_) => break }
    }
    ck!(s.get_ref().head.len() >= committed, "output lost"); ck!(s.get_ref().head[..committed] == out[..committed], "output changed");
    ck!(s.pos() >= base, "position wrapped to {}", s.pos());
    Ok(())
}
/// declared lengths of any size at any position
pub fn c14_len(g: &mut G) -> R {
    let base = match g.r.below(3) { 0 => 0, 1 => g.r.int(), _ => u64::max_value() - g.r.below(40) };
    let len = match g.r.below(3) { 0 => u64::max_value() - g.r.below(40), 1 => g.r.int(), _ => (u64::max_value() - base).saturating_sub(g.r.below(30)) };
    let mut b = vec![0x82]; enc_int(&mut b, len); b.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
    g.case("document", &b); g.note(|| format!("at {}", base));
    let mut w = w0(g); w.base = base; w.use_blobs = 3; w.poke = true;
    walk_any(g, &b, &w)
}
pub fn c15(g: &mut G) -> R {
    let mut b = vec![]; let mut d = 0;
    for _ in 0..1 + g.r.us(5) {
        if g.r.chance(1, 2) { b.push(0xC0) }
        let n = match g.r.below(4) { 0 => 250 + g.r.us(14), 1 => 256, 2 => 255 + g.r.us(400), _ => g.r.us(20) };
        let c: Vec<u8> = match g.r.below(3) { 0 => (0..n).map(|_| g.r.next() as u8).collect(), 1 => "é€😀x".bytes().cycle().skip(g.r.us(9)).take(n).collect(), _ => vec![b'm'; n] };
        enc_el(&mut b, &El::Exc(c), &mut None);
        let e = gen_el(&mut g.r, &mut d); if g.r.chance(2, 3) { enc_el(&mut b, &e, &mut None) }
    }
    g.case("document", &b);
    let mut w = w0(g); w.field = g.r.chance(3, 4); w.use_blobs = 3;
    walk_any(g, &b, &w)
}

