//! Drives a real `Stream` and compares every step with the reference parser.
use crate::dev::Dev;
use crate::refm::*;
use crate::util::*;
use crate::{ck, eq};
use fourleaf::io::TransparentCursor;
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::io::{self, BufRead, Cursor, ErrorKind, Read, Seek, SeekFrom};

pub trait TDev: Read + BufRead + Seek + Sized {
    fn p(&self) -> u64;
    fn slices(_b: &mut Blob<Self>) -> Vec<Result<Vec<u8>, Error>> { vec![] }
}
impl TDev for Dev { fn p(&self) -> u64 { self.pos } }
impl<'a> TDev for Cursor<&'a [u8]> {
    fn p(&self) -> u64 { self.position() }
    fn slices(b: &mut Blob<Self>) -> Vec<Result<Vec<u8>, Error>> { vec![b.ext_slice().map(|s| s.to_vec())] }
}
impl<'a> TDev for TransparentCursor<&'a [u8]> {
    fn p(&self) -> u64 { self.0.position() }
    fn slices(b: &mut Blob<Self>) -> Vec<Result<Vec<u8>, Error>> { vec![b.slice().map(|s| s.to_vec()), b.ext_slice().map(|s| s.to_vec())] }
}
impl TDev for TransparentCursor<Vec<u8>> {
    fn p(&self) -> u64 { self.0.position() }
    fn slices(b: &mut Blob<Self>) -> Vec<Result<Vec<u8>, Error>> { vec![b.slice().map(|s| s.to_vec()), b.slice_mut().map(|s| s.to_vec())] }
}
pub fn fclass(e: &Error) -> u8 {
    match *e { Error::Io(_) => F_IO, Error::IntegerOverflow => F_OVERFLOW, Error::OverwideInteger => F_OVERWIDE, Error::TruncatedBlob(_) => F_TRUNC, Error::OverlongBlob => F_LONG, _ => 0x80 }
}
pub fn fl(f: u8) -> String {
    let n = ["Io", "IntegerOverflow", "OverwideInteger", "TruncatedBlob", "OverlongBlob", "", "", "other"];
    (0..8).filter(|i| f >> i & 1 == 1).map(|i| n[i]).collect::<Vec<_>>().join("|")
}
fn intr<T>(mut f: impl FnMut() -> io::Result<T>) -> io::Result<T> {
    loop { match f() { Err(ref e) if e.kind() == ErrorKind::Interrupted => {}, x => return x } }
}
pub fn accounting<Q>(b: &Blob<Q>, start: u64, len: u64, cur: u64) -> R {
    eq!(b.len(), len, "Blob::len"); eq!(b.remaining(), len - cur, "Blob::remaining"); eq!(b.inner_pos(), cur, "Blob::inner_pos");
    eq!(b.start_pos(), start, "Blob::start_pos"); eq!(b.end_pos(), start + len, "Blob::end_pos"); eq!(b.stream_pos(), start + cur, "Blob::stream_pos");
    Ok(())
}
/// random operations on a blob handle; `avail` is what the input holds of the blob's `len` bytes.
/// Returns the handle's position in the blob, and whether it must not be used any more.
pub fn use_blob<Q: TDev>(g: &mut G, b: &mut Blob<Q>, avail: &[u8], len: u64, start: u64, ops: u64, seekable: bool) -> Result<(u64, bool), String> {
    let mut cur = b.inner_pos();
    let a = avail.len() as u64;
    let dev0 = b.stream_get_ref().p().wrapping_sub(cur);
    accounting(b, start, len, cur)?;
    for _ in 0..ops {
        match g.r.below(if seekable { 9 } else { 7 }) {
            0 | 1 => {
                let k = match g.r.below(4) { 0 => 0, 1 => g.r.us(4), 2 => g.r.us(300), _ => 5000 };
                let mut buf = vec![0xEEu8; k];
                let n = match intr(|| b.read(&mut buf)) { Ok(n) => n as u64, Err(e) => return Err(format!("Blob::read({}) failed: {}", k, e)) };
                ck!(n <= k as u64 && cur + n <= a, "Blob::read({}) at {} of {} (available {}) returned {}", k, cur, len, a, n);
                ck!(n > 0 || k == 0 || cur == a, "Blob::read({}) at {} of {} (available {}) reports the end", k, cur, len, a);
                ck!(buf[..n as usize] == avail[cur as usize..(cur + n) as usize], "Blob::read({}) at {}: wrong bytes {}, expected {}", k, cur, hex(&buf[..n as usize]), hex(&avail[cur as usize..(cur + n) as usize]));
                ck!(buf[n as usize..].iter().all(|x| *x == 0xEE), "Blob::read wrote behind what it returned");
                cur += n;
            }
            2 if start < u64::max_value() - (1 << 40) => {
                let k = g.r.us(20);
                let n = {
                    let s = match intr(|| b.fill_buf().map(|s| s.to_vec())) { Ok(s) => s, Err(e) => return Err(format!("Blob::fill_buf failed: {}", e)) };
                    ck!(cur + s.len() as u64 <= a, "Blob::fill_buf at {} of {} (available {}) shows {} bytes", cur, len, a, s.len());
                    ck!(s.len() > 0 || cur == a, "Blob::fill_buf at {} of {} shows nothing", cur, len);
                    ck!(s[..] == avail[cur as usize..cur as usize + s.len()], "Blob::fill_buf at {}: wrong bytes", cur);
                    k.min(s.len())
                };
                b.consume(n); cur += n as u64;
            }
            3 => {
                let max = match g.r.below(5) { 0 => (len - cur) as usize, 1 => ((len - cur) as usize).saturating_sub(1), 2 => usize::max_value(), 3 => 0, _ => g.r.us(40) };
                match b.read_fully(max) {
                    Ok(v) => {
                        ck!(len - cur <= max as u64, "read_fully({}) with {} remaining succeeded", max, len - cur);
                        ck!(a == len, "read_fully({}) of a truncated blob returned {} of {} bytes as complete", max, v.len(), len - cur);
                        ck!(v[..] == avail[cur as usize..], "read_fully: wrong bytes {}, expected {}", hex(&v), hex(&avail[cur as usize..]));
                        cur = len;
                    }
                    Err(Error::LargeBlob(m, r)) => { ck!(len - cur > max as u64 && m == max && r == len - cur, "LargeBlob({}, {}) from read_fully({}) with {} remaining", m, r, max, len - cur); }
                    Err(Error::TruncatedBlob(n)) => { ck!(a < len && len - cur <= max as u64, "read_fully({}) of a complete blob reports truncation by {}", max, n); return Ok((a, true)); }
                    Err(e) => { ck!(a < len, "read_fully failed: {}", e); return Ok((a, true)); }
                }
            }
            4 => {
                let max = match g.r.below(4) { 0 => 0, 1 => (len - cur) as usize, 2 => usize::max_value(), _ => g.r.us(300) };
                match b.read_or_trunc(max) {
                    Ok(v) => {
                        let n = (max as u64).min(a - cur);
                        ck!(v[..] == avail[cur as usize..(cur + n) as usize], "read_or_trunc({}) at {}: got {}, expected {}", max, cur, hex(&v), hex(&avail[cur as usize..(cur + n) as usize]));
                        cur += n;
                    }
                    Err(e) => return Err(format!("read_or_trunc({}) failed: {}", max, e)),
                }
            }
            2 => {}
            5 => {
                for s in Q::slices(b) {
                    match s {
                        Ok(s) => { ck!(a == len, "slice of a truncated blob succeeded"); ck!(s[..] == avail[cur as usize..], "slice at {}: got {}, expected {}", cur, hex(&s), hex(&avail[cur as usize..])); }
                        Err(Error::TruncatedBlob(n)) => { ck!(a < len, "slice of a complete blob fails"); eq!(n, len - a, "bytes missing from slice"); }
                        Err(e) => return Err(format!("slice failed: {}", e)),
                    }
                }
            }
            6 => {
                let k = g.r.us(12);
                let mut buf = vec![0u8; k];
                match b.read_exact(&mut buf) {
                    Ok(()) => { ck!(cur + k as u64 <= a, "read_exact({}) at {} of {} succeeded", k, cur, a); ck!(buf[..] == avail[cur as usize..cur as usize + k], "read_exact: wrong bytes"); cur += k as u64; }
                    Err(e) => { ck!(cur + k as u64 > a, "read_exact({}) at {} of {} failed: {}", k, cur, a, e); cur = b.inner_pos(); ck!(cur <= a, "read_exact ran past the data"); }
                }
            }
            _ => cur = seek_blob(g, b, cur, len, a)?,
        }
        accounting(b, start, len, cur)?;
        eq!(b.stream_get_ref().p(), dev0.wrapping_add(cur), "position of the underlying reader");
    }
    Ok((cur, false))
}
/// one seek, valid (within `lim`) or not; returns the new position
pub fn seek_blob<Q: Seek>(g: &mut G, b: &mut Blob<Q>, cur: u64, len: u64, lim: u64) -> Result<u64, String> {
    let w = match g.r.below(12) {
        0..=2 => SeekFrom::Start(g.r.below(lim + 1)),
        3..=5 => { let t = g.r.below(lim + 1); SeekFrom::Current((t as i128 - cur as i128) as i64) }
        6 | 7 => { let t = g.r.below(lim + 1); let o = t as i128 - len as i128; if o < i64::min_value() as i128 { SeekFrom::Start(t) } else { SeekFrom::End(o as i64) } }
        8 => SeekFrom::Start(len.saturating_add(1 + g.r.below(5))),
        9 => SeekFrom::Current(*g.r.pick(&[i64::min_value(), i64::max_value(), -1 - cur.min(i64::max_value() as u64 - 1) as i64, (len - cur).min(i64::max_value() as u64 - 1) as i64 + 1, i64::min_value() + 1])),
        10 => SeekFrom::End(*g.r.pick(&[i64::min_value(), i64::max_value(), 1, -(len.min(i64::max_value() as u64 - 1) as i64) - 1, i64::min_value() + 1])),
        _ => SeekFrom::Start(*g.r.pick(&[u64::max_value(), 1 << 63, (1 << 63) - 1])),
    };
    let t: i128 = match w { SeekFrom::Start(o) => o as i128, SeekFrom::End(o) => len as i128 + o as i128, SeekFrom::Current(o) => cur as i128 + o as i128 };
    if t > lim as i128 && t <= len as i128 { return Ok(cur); } // into missing data: not part of the property
    match b.seek(w) {
        Ok(n) => { ck!(t >= 0 && t <= len as i128, "seek({:?}) at {} of {} succeeded: {}", w, cur, len, n); eq!(n as i128, t, "result of seek({:?})", w); Ok(n) }
        Err(e) => { ck!(t < 0 || t > len as i128 || (t - cur as i128).abs() > i64::max_value() as i128, "seek({:?}) at {} of {} failed: {}", w, cur, len, e); Ok(cur) }
    }
}
#[derive(Clone)]
pub struct Walk { pub field: bool, pub graceful: bool, pub use_blobs: u64, pub base: u64, pub seekable: bool, pub max: usize, pub poke: bool }

pub enum Act { Fin, More }

/// parse all of `b` through `s`, comparing with the reference
pub fn walk<Q: TDev>(g: &mut G, s: &mut Stream<Q>, b: &[u8], w: &Walk) -> R {
    let mut m = Ref::new(b);
    m.graceful = w.graceful; s.set_graceful_eof(w.graceful);
    if w.base > 0 { s.reset_pos(w.base).map_err(|e| format!("reset_pos: {}", e))?; m.base = w.base; }
    let p0 = s.get_ref().p();
    for _ in 0..w.max {
        if w.poke && m.pend.is_some() && g.r.chance(1, 6) {
            // an explicit commit finishes the blob
            let n = m.pend.unwrap();
            let ok = (b.len() - m.off) as u64 >= n;
            match s.commit() {
                Ok(()) => { ck!(ok, "commit over a truncated blob succeeded"); m.off += n as usize; m.pend = None; }
                Err(e) => { ck!(!ok, "commit failed: {}", e); return Ok(()); }
            }
            eq!(s.pos(), m.pos(), "position after commit");
        }
        let mut exp = m.next();
        if w.field { while let Ok(REl { v: RV::Pad, .. }) = exp { exp = m.next(); } }
        let exc = if let Ok(REl { v: RV::Exc(o, n), .. }) = exp { Some((o, n)) } else { None };
        if w.field {
            let r = s.next_field();
            match (exp, r) {
                (Ok(_), Err(Error::Exception(msg))) if exc.is_some() => {
                    let (o, n) = exc.unwrap();
                    let k = n.min(256).min((b.len() - o) as u64) as usize;
                    eq!(msg, String::from_utf8_lossy(&b[o..o + k]).into_owned(), "exception message");
                    m.off = o + k; m.pend = Some(n - k as u64);
                }
                (Ok(e), Ok(None)) => { ck!(e.v == RV::End || e.v == RV::Doc || e.v == RV::Graceful, "next_field() gives no field, expected {:?}", e); }
                (Ok(e), Ok(Some(f))) => field(g, &mut m, e, f, w)?,
                (Ok(e), Err(x)) => return Err(format!("next_field() failed ({}), expected {:?}", x, e)),
                (Err(k), Err(x)) => { ck!((fclass(&x) | if w.base > 0 && fclass(&x) == F_IO { 255 } else { 0 }) & k != 0, "next_field() failed with {} ({:?}), expected {}", x, x, fl(k)); return Ok(()); }
                (Err(k), Ok(x)) => return Err(format!("next_field() gave {}, expected error {}", if x.is_some() { "a field" } else { "the end" }, fl(k))),
            }
        } else {
            let r = s.next_element();
            match (exp, r) {
                (Ok(e), Ok(x)) => match (e.v.clone(), x) {
                    (RV::End, Element::EndOfStruct) | (RV::Doc, Element::EndOfDoc) | (RV::Graceful, Element::EndOfDoc) | (RV::Pad, Element::Padding) => {}
                    (RV::Exc(o, n), Element::Exception(mut bl)) => blob(g, &mut m, o, n, &mut bl, w)?,
                    (_, Element::Field(f)) => field(g, &mut m, e, f, w)?,
                    (v, x) => return Err(format!("next_element() gave {}, expected {:?}", ename(&x), v)),
                },
                (Ok(e), Err(x)) => return Err(format!("next_element() failed ({}), expected {:?}", x, e)),
                (Err(k), Err(x)) => { ck!((fclass(&x) | if w.base > 0 && fclass(&x) == F_IO { 255 } else { 0 }) & k != 0, "next_element() failed with {} ({:?}), expected {}", x, x, fl(k)); return Ok(()); }
                (Err(k), Ok(x)) => return Err(format!("next_element() gave {}, expected error {}", ename(&x), fl(k))),
            }
        }
        if m.pend == Some(u64::max_value()) { return Ok(()); }
        eq!(s.pos(), m.pos(), "stream position");
        eq!(s.get_ref().p().wrapping_sub(p0), m.off as u64, "bytes taken from the reader");
        eq!(s.struct_depth(), m.depth, "struct depth");
        eq!(s.eof(), m.eof, "eof flag");
        if m.eof {
            // nothing more, and nothing read
            for _ in 0..2 {
                ck!(match s.next_element() { Ok(Element::EndOfDoc) => true, _ => false }, "an element is read after the end of the document");
                ck!(match s.next_field() { Ok(None) => true, _ => false }, "a field is read after the end of the document");
            }
            eq!(s.pos(), m.pos(), "stream position after the end of the document");
            eq!(s.get_ref().p().wrapping_sub(p0), m.off as u64, "bytes taken after the end of the document");
            eq!(s.struct_depth(), 0, "struct depth after the end of the document");
            if m.off >= b.len() && !g.r.chance(1, 2) { return Ok(()); }
            s.clear_eof(); m.eof = false;
            if m.off >= b.len() && w.graceful { return Ok(()); }
        }
    }
    Ok(())
}
pub fn ename<Q>(e: &Element<Q>) -> String {
    match *e { Element::Field(ref f) => fname(f), Element::EndOfStruct => "EndOfStruct".into(), Element::EndOfDoc => "EndOfDoc".into(), Element::Exception(ref b) => format!("Exception({})", b.len()), Element::Padding => "Padding".into() }
}
pub fn fname<Q>(f: &Field<Q>) -> String {
    format!("field {} at {} depth {} {}", f.tag, f.pos, f.depth, match f.value { Value::Integer(i) => format!("Integer({})", i), Value::Blob(ref b) => format!("Blob({})", b.len()), Value::Struct(_) => "Struct".into(), Value::Enum(d, _) => format!("Enum({})", d) })
}
fn blob<Q: TDev>(g: &mut G, m: &mut Ref, o: usize, n: u64, bl: &mut Blob<Q>, w: &Walk) -> R {
    let a = n.min((m.b.len() - o) as u64) as usize;
    eq!(bl.len(), n, "blob length");
    let ops = if w.use_blobs == 0 { 0 } else { g.r.below(w.use_blobs + 1) };
    let b = m.b;
    let (cur, dead) = use_blob(g, bl, &b[o..o + a], n, w.base.wrapping_add(o as u64), ops, w.seekable)?;
    m.off = o + cur as usize; m.pend = Some(n - cur);
    if dead { m.pend = Some(u64::max_value()); }
    Ok(())
}
fn field<Q: TDev>(g: &mut G, m: &mut Ref, e: REl, f: Field<Q>, w: &Walk) -> R {
    let d = fname(&f);
    eq!(f.tag, e.tag, "tag of {} (expected {:?})", d, e);
    eq!(f.pos, w.base.wrapping_add(e.at as u64), "offset of {} (expected {:?})", d, e);
    eq!(f.depth, e.fdepth, "depth of {} (expected {:?})", d, e);
    match (e.v.clone(), f.value) {
        (RV::Int(a), Value::Integer(b)) => { eq!(b, a, "integer value"); }
        (RV::Enum(a), Value::Enum(b, _)) => { eq!(b, a, "discriminant"); }
        (RV::Struct, Value::Struct(_)) => {}
        (RV::Blob(o, n), Value::Blob(mut b)) => blob(g, m, o, n, &mut b, w)?,
        _ => return Err(format!("got {}, expected {:?}", d, e)),
    }
    Ok(())
}
/// run `walk` on one of the device kinds
pub fn walk_any(g: &mut G, b: &[u8], w: &Walk) -> R {
    let mut w = w.clone();
    match g.r.below(7) {
        0 => { g.note(|| "device: slice".into()); walk(g, &mut Stream::from_slice(b), b, &w) }
        1 => { g.note(|| "device: slice (owned)".into()); walk(g, &mut Stream::from_slice(b.to_vec()), b, &w) }
        2 => { g.note(|| "device: plain cursor".into()); walk(g, &mut Stream::new(Cursor::new(b)), b, &w) }
        3 => { g.note(|| "device: seekable cursor".into()); walk(g, &mut Stream::new_seek(Cursor::new(b)), b, &w) }
        4 => { let mut d = Dev::adverse(b.to_vec(), &mut g.r); d.no_seek = true; w.seekable = false; g.note(|| "device: claims to seek but cannot".into()); walk(g, &mut Stream::new_seek(d), b, &w) }
        5 => { let d = Dev::adverse(b.to_vec(), &mut g.r); g.note(|| format!("device: plain reader, chunks {} interrupts {}", d.chunk, d.intr)); walk(g, &mut Stream::new(d), b, &w) }
        _ => { let d = Dev::adverse(b.to_vec(), &mut g.r); g.note(|| format!("device: seekable reader, chunks {} interrupts {}", d.chunk, d.intr)); walk(g, &mut Stream::new_seek(d), b, &w) }
    }
}
