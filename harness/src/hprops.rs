//! Properties of the high-level layer, C16..C22 (and the prefix part of C08).
use crate::dev::Dev;
use crate::peak;
use crate::refm::*;
use crate::ty::*;
use crate::util::*;
use crate::{ck, eq};
use fourleaf::adapt::Copied;
use fourleaf::de::{self, style, Config, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::ser::{self, Serialize};
use fourleaf::stream::{self, Stream};
use fourleaf::unknown::UnknownFields;
use std::borrow::Cow;
use std::collections::*;
use std::io::Cursor;
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

type Sl<'a> = TransparentCursor<&'a [u8]>;
pub fn class(e: &de::Error) -> E {
    match *e {
        de::Error::Stream(_, ref e) => match *e { stream::Error::UnexpectedType(..) => E::Kind, stream::Error::IntegerOutOfRange(_) => E::Range, stream::Error::Exception(_) => E::Exc, stream::Error::TruncatedBlob(_) => E::Trunc, _ => E::Stream },
        de::Error::RecursionLimitExceeded(_) => E::Rec, de::Error::UnknownField(_, t, p) => E::UnknownField(t, p), de::Error::UnknownVariant(_, v) => E::UnknownVariant(v),
        de::Error::FieldOccursTooFewTimes(..) => E::Few, de::Error::FieldOccursTooManyTimes(..) => E::Many, de::Error::RequiredFieldMissing(_) => E::Missing,
        de::Error::InvalidValue(..) | de::Error::InvalidValueMsg(..) => E::Invalid, de::Error::MaxCollectExceeded(_) => E::Collect, de::Error::MaxBlobExceeded(_) => E::Blob,
        _ => E::Other,
    }
}
fn cls<T>(r: Result<T, de::Error>) -> Result<T, E> { r.map_err(|e| class(&e)) }
pub struct Td {
    pub name: &'static str,
    pub sch: fn() -> Sch,
    /// a random value, written to the stream
    wr: fn(&mut Rng, u32, &mut Stream<Vec<u8>>) -> Result<V, String>,
    vecs: fn(&mut Rng, u32) -> Result<(V, Vec<u8>, Vec<u8>), String>,
    rd: fn(&mut Stream<Dev>, &Config) -> Result<V, E>,
    slice: fn(&[u8], &Config) -> Result<V, E>,
    reader: fn(Dev, &Config) -> Result<V, E>,
    zero: Option<fn(&[u8], &Config) -> Result<V, E>>,
    reser: fn(&[u8], &Config) -> Result<Vec<u8>, E>,
    weight: u32,
}
fn wr<X: Gen + Serialize>(r: &mut Rng, d: u32, s: &mut Stream<Vec<u8>>) -> Result<V, String> { let x = X::gen(r, d); ser::to_stream(s, &x).map_err(|e| e.to_string())?; Ok(x.val(0)) }
fn vecs<X: Gen + Serialize>(r: &mut Rng, d: u32) -> Result<(V, Vec<u8>, Vec<u8>), String> {
    let x = X::gen(r, d); let a = ser::to_vec(&x).map_err(|e| e.to_string())?;
    let mut b = Dev::adverse(vec![], r); ser::to_writer(&mut b, &x).map_err(|e| e.to_string())?;
    Ok((x.val(0), a, b.head))
}
fn rd<X: Ty + Deserialize<Dev>>(s: &mut Stream<Dev>, c: &Config) -> Result<V, E> { cls(de::from_stream_copy::<Dev, X>(s, c)).map(|x| x.val(0)) }
fn slice<X>(b: &[u8], c: &Config) -> Result<V, E> where X: Ty + for<'a> Deserialize<Sl<'a>> { cls(de::from_slice_copy::<X>(b, c)).map(|x| x.val(0)) }
fn zero<X>(b: &[u8], c: &Config) -> Result<V, E> where X: Ty + for<'a> Deserialize<Sl<'a>, style::ZeroCopy> { cls(de::from_slice_borrow::<X>(b, c)).map(|x| x.val(0)) }
fn reader<X: Ty + Deserialize<Dev>>(d: Dev, c: &Config) -> Result<V, E> { cls(de::from_reader::<Dev, X>(d, c)).map(|x| x.val(0)) }
fn reser<X>(b: &[u8], c: &Config) -> Result<Vec<u8>, E> where X: Serialize + for<'a> Deserialize<Sl<'a>> { let x = cls(de::from_slice_copy::<X>(b, c))?; ser::to_vec(&x).map_err(|_| E::Other) }
macro_rules! types {
    ($w:expr; $($t:ty),* $(,)*; copy $($u:ty),* $(,)*) => { vec![
        $(Td { name: stringify!($t), sch: <$t as Ty>::sch, wr: wr::<$t>, vecs: vecs::<$t>, rd: rd::<$t>, slice: slice::<$t>, reader: reader::<$t>, zero: Some(zero::<$t>), reser: reser::<$t>, weight: $w }),*
        , $(Td { name: stringify!($u), sch: <$u as Ty>::sch, wr: wr::<$u>, vecs: vecs::<$u>, rd: rd::<$u>, slice: slice::<$u>, reader: reader::<$u>, zero: None, reser: reser::<$u>, weight: $w }),*
    ] }
}
type B3 = Box<Rc<Arc<u64>>>;
pub fn all() -> &'static [Td] {
    static T: std::sync::OnceLock<Vec<Td>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<Td> = types![4; u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool, char, (), PhantomData<u8>, String, Vec<u8>, Vec<u16>, Vec<String>, Vec<Vec<u8>>, Vec<Vec<u16>>, Vec<()>, Vec<Option<u8>>, Vec<[u8; 2]>, Vec<Box<u8>>,
            VecDeque<u8>, LinkedList<i32>, BTreeSet<u8>, BTreeSet<String>, HashSet<u32>, HashSet<Vec<u8>>, BinaryHeap<i16>, BTreeMap<u8, String>, HashMap<String, Vec<u8>>, BTreeMap<(u8, u8), Vec<u32>>, HashMap<u8, Option<()>>, BTreeMap<u8, BTreeMap<u8, u8>>,
            Option<u8>, Option<Option<u8>>, Option<Option<Option<bool>>>, Option<Vec<u8>>, Option<Vec<u16>>, Option<String>, Option<()>, Option<[u8; 4]>, Box<u8>, Rc<String>, Arc<Vec<u8>>, Box<Vec<u16>>, B3, Box<Option<Box<u8>>>,
            (u8,), (u8, String), (Vec<u8>, Vec<u16>, Option<u8>), (u8, u16, u32, u64), ((), (u8,), Option<(u8, u8)>), ([u8; 3], [u16; 3], Vec<[u16; 2]>), (VecDeque<String>, BTreeSet<u8>, HashMap<u8, u8>), (Option<Vec<Option<u8>>>, char, bool),
            (u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8), (u16, (), i8, String, u8, (u8,), Option<u8>, u64, i64, bool, char, Vec<u8>, [u8; 1], u32, i16, Vec<()>),
            Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr, Duration, Result<u8, String>, Result<Ipv4Addr, ()>, Result<Vec<u8>, Result<(), Duration>>, Vec<IpAddr>, Vec<Duration>, Option<SocketAddr>, Vec<Result<u8, u8>>,
            Plain, Shape, DPlain, DInt, DStr, DVec, DOpt, DUnit, DDeleg, DEnum, DBytes, Tree, Wide, Vec<Plain>, Vec<Shape>, Option<Shape>, (Plain, Shape), (DPlain, DInt, DStr, DVec, DOpt, DUnit, DDeleg, DEnum, DBytes), Vec<DInt>, Vec<DVec>, [Plain; 2], [Shape; 3], HashMap<Shape, Plain>, BTreeMap<DStr, Tree>, Box<Wide>, Vec<Tree>,
            [Vec<u8>; 3], [Option<u8>; 2], [[u8; 2]; 2], [[u16; 2]; 3], [String; 1], Copied<u8>, Copied<String>, Vec<Copied<u8>>;
            copy Cow<'static, str>, Cow<'static, [u8]>, Vec<Cow<'static, str>>, Option<Cow<'static, [u8]>>, UnknownFields<'static>, Keep, KeepE, KeepT, Vec<Keep>, Option<KeepE>, (Keep, KeepE), Vec<KeepT>, Vec<UnknownFields<'static>>];
        v.extend(types![1; [u8; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10], [u8; 11], [u8; 12], [u8; 13], [u8; 14], [u8; 15], [u8; 16], [u8; 17], [u8; 18], [u8; 19], [u8; 20], [u8; 21], [u8; 22], [u8; 23], [u8; 24], [u8; 25], [u8; 26], [u8; 27], [u8; 28], [u8; 29], [u8; 30], [u8; 31], [u8; 32], [u8; 64], [u8; 128], [u8; 256], [u8; 512], [u8; 1024],
            [u32; 0], [u32; 1], [u32; 2], [u32; 3], [u32; 4], [u32; 5], [u32; 6], [u32; 7], [u32; 8], [u32; 9], [u32; 10], [u32; 11], [u32; 12], [u32; 13], [u32; 14], [u32; 15], [u32; 16], [u32; 17], [u32; 18], [u32; 19], [u32; 20], [u32; 21], [u32; 22], [u32; 23], [u32; 24], [u32; 25], [u32; 26], [u32; 27], [u32; 28], [u32; 29], [u32; 30], [u32; 31], [u32; 32], [u32; 64], [u16; 128],
            (u8, [u8; 64]), (u8, [u16; 64]), Vec<[u8; 64]>, (u8, u8), (u8, u8, u8), (u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
            copy ]);
        v
    })
}
/// arrays too big for most cases
fn big() -> &'static [Td] {
    static T: std::sync::OnceLock<Vec<Td>> = std::sync::OnceLock::new();
    T.get_or_init(|| types![1; [u8; 2048], [u8; 4096], [u8; 8192], [u8; 16384], [u8; 32768], [u8; 65536], [bool; 256], [u16; 512], [u32; 1024], [bool; 2048]; copy])
}
fn pick(g: &mut G) -> &'static Td {
    let a = all();
    let t = loop { let t = &a[g.r.us(a.len())]; if g.r.below(4) < t.weight as u64 { break t } };
    g.note(|| format!("type {}", t.name)); t
}
fn wide() -> Config { let mut c = Config::default(); c.recursion_limit = 200; c.max_blob = 1 << 24; c.max_collect = 1 << 20; c }
fn config(c: &Config) -> String { format!("recursion_limit {} ignore_unknown_fields {} max_blob {} max_collect {}", c.recursion_limit, c.ignore_unknown_fields, c.max_blob, c.max_collect) }
/// decode `b` as `t` through some reader
fn dec(g: &mut G, t: &Td, b: &[u8], c: &Config) -> Result<V, E> {
    let k = g.r.below(6);
    g.note(|| format!("reader {} config {}", ["slice", "slice", "slice (zero-copy)", "plain reader", "stream", "seekable stream"][k as usize], config(c)));
    match k {
        0 | 1 => (t.slice)(b, c),
        2 => match t.zero { Some(z) => z(b, c), None => (t.slice)(b, c) },
        3 => (t.reader)(Dev::adverse(b.to_vec(), &mut g.r), c),
        4 => (t.rd)(&mut Stream::new(Dev::adverse(b.to_vec(), &mut g.r)), c),
        _ => (t.rd)(&mut Stream::new_seek(Dev::adverse(b.to_vec(), &mut g.r)), c),
    }
}
fn reference(t: &Td, b: &[u8], c: &Config) -> (Result<V, E>, Use, usize) { let mut r = RD::new(b, !c.ignore_unknown_fields, false); let v = r.body(&(t.sch)(), 0); (v, r.u, r.m.off) }
fn sh(v: &V) -> String { let s = format!("{:?}", v); if s.len() > 300 { format!("{}...", s.chars().take(300).collect::<String>()) } else { s } }
fn same(got: &Result<V, E>, exp: &V, what: &str) -> R {
    match *got { Ok(ref v) if v == exp => Ok(()), Ok(ref v) => Err(format!("{}: expected {}, got {}", what, sh(exp), sh(v))), Err(ref e) => Err(format!("{}: expected {}, got error {:?}", what, sh(exp), e)) }
}
fn depth(g: &mut G) -> u32 { g.r.below(5) as u32 }

pub fn c16_round(g: &mut G) -> R { let t = pick(g); round(g, t) }
fn round(g: &mut G, t: &Td) -> R {
    let d = depth(g);
    let (v, b, b2) = (t.vecs)(&mut g.r, d).map_err(|e| format!("serialising {}: {}", t.name, e))?;
    g.case(t.name, &b);
    eq!(hex(&b2), hex(&b), "to_writer versus to_vec of {}", t.name);
    let mut c = wide(); c.ignore_unknown_fields = g.r.chance(1, 2);
    let x = dec(g, t, &b, &c);
    same(&x, &v, &format!("round trip of {}", t.name))?;
    // nothing but the value is read
    let mut tail = b.clone(); tail.extend(g.r.bytes(6));
    let mut s = Stream::new(Dev::adverse(tail, &mut g.r));
    let x = (t.rd)(&mut s, &c); same(&x, &v, &format!("round trip of {}, followed by other bytes", t.name))?;
    eq!(s.pos(), b.len() as u64, "position after reading {}", t.name);
    Ok(())
}
pub fn c16_big(g: &mut G) -> R { let a = big(); let t = &a[g.r.us(a.len())]; round(g, t) }
pub fn c16_every(g: &mut G) -> R { let a = all(); let t = &a[g.idx as usize % a.len()]; round(g, t) }
pub fn c16_cat(g: &mut G) -> R {
    let n = 1 + g.r.us(4);
    let mut s = Stream::new(vec![]); let mut ts = vec![];
    for _ in 0..n {
        let t = pick(g); let d = g.r.below(3) as u32;
        let v = (t.wr)(&mut g.r, d, &mut s).map_err(|e| format!("serialising {}: {}", t.name, e))?;
        s.commit().map_err(|e| e.to_string())?;
        ts.push((t, v, s.pos()));
    }
    let b = s.into_inner();
    g.case("values", &b);
    eq!(ts[n - 1].2, b.len() as u64, "bytes written");
    let mut c = wide(); c.ignore_unknown_fields = g.r.chance(1, 2);
    let d = Dev::adverse(b, &mut g.r);
    let mut s = if g.r.chance(1, 2) { Stream::new(d) } else { Stream::new_seek(d) };
    for (t, v, p) in ts {
        let x = (t.rd)(&mut s, &c);
        same(&x, &v, &format!("{} in a sequence", t.name))?;
        eq!(s.pos(), p, "position after reading {} in a sequence", t.name);
    }
    Ok(())
}
/// documents that some type `t` might accept
fn doc(g: &mut G, t: &Td) -> Result<Vec<u8>, String> {
    let d = g.r.below(4) as u32;
    Ok((t.vecs)(&mut g.r, d)?.1)
}
fn tmut(r: &mut Rng, ts: &mut Vec<T>) {
    let mut n = 0; bodies(ts, &mut |_| n += 1);
    let k = r.us(n); let mut i = 0;
    bodies(ts, &mut |b| {
        if i == k {
            match r.below(9) {
                0 if !b.is_empty() => { let j = r.us(b.len()); b.remove(j); }
                1 if !b.is_empty() => { let j = r.us(b.len()); let x = b[j].clone(); let m = r.us(b.len() + 1); b.insert(m, x); }
                2 if !b.is_empty() => { let j = r.us(b.len()); b[j].set_tag(1 + r.below(6) as u8); }
                3 => { let t = 1 + r.below(63) as u8; let x = gen_t(r, t, 2); let m = r.us(b.len() + 1); b.insert(m, x); }
                4 if !b.is_empty() => { let j = r.us(b.len()); let t = b[j].tag(); b[j] = gen_t(r, t, 1); }
                5 | 6 if !b.is_empty() => { let j = r.us(b.len()); match b[j] {
                    T::I(_, ref mut n) => *n = match r.below(4) { 0 => n.wrapping_add(1), 1 => *r.pick(&[0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0, 1, 2, 255, 256, 65535, 65536, 1 << 32, (1 << 32) - 1, 999_999_999, 1_000_000_000, 510, 511, u64::MAX]), 2 => r.int(), _ => n.wrapping_sub(1) },
                    T::B(_, ref mut d) => if d.is_empty() || r.chance(1, 3) { d.push(r.next() as u8) } else if r.chance(1, 2) { d.pop(); } else { let i = r.us(d.len()); d[i] = r.next() as u8 },
                    T::N(_, ref mut d, _) => *d = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 200, u64::MAX, u64::MAX - 1]), _ => {} } }
                7 if b.len() > 1 => { let x = r.us(b.len()); let y = r.us(b.len()); b.swap(x, y); }
                8 if !b.is_empty() => { let j = r.us(b.len()); let t = b[j].tag(); let x = b.remove(j); let y = match x { T::S(_, s) => T::N(t, r.below(7), s), T::N(_, _, s) => T::S(t, s), T::I(_, n) => T::B(t, vec![n as u8]), T::B(_, d) => T::I(t, d.len() as u64) }; b.insert(j, y); }
                _ => {}
            }
        }
        i += 1;
    });
}
fn mutant(g: &mut G, t: &Td) -> Result<Vec<u8>, String> {
    let b = doc(g, t)?;
    if g.r.chance(1, 4) { let mut b = b; mutate(&mut g.r, &mut b); return Ok(b) }
    let (mut ts, _) = tree(&b).ok_or("serialised form is not a document")?;
    for _ in 0..1 + g.r.us(3) { tmut(&mut g.r, &mut ts) }
    let mut o = vec![];
    if g.r.chance(1, 3) { emit(&ts, &mut o, &mut Some(&mut g.r)) } else { emit(&ts, &mut o, &mut None) }
    if g.r.chance(1, 12) { let i = g.r.us(o.len() + 1); o.insert(i, 0x40); }
    Ok(o)
}
/// accepted exactly when valid, with the value it denotes
fn judge(g: &mut G, t: &Td, b: &[u8], c: &Config) -> R {
    let (exp, _, _) = reference(t, b, c);
    let got = dec(g, t, b, c);
    match (exp, got) {
        (Ok(e), x) => same(&x, &e, t.name),
        (Err(e), Ok(v)) => Err(format!("{}: accepted as {}, expected an error ({:?})", t.name, sh(&v), e)),
        (Err(_), Err(_)) => Ok(()),
    }
}
fn strictness(g: &mut G) -> Config { let mut c = wide(); c.ignore_unknown_fields = g.r.chance(2, 3); c }
pub fn c22_mutants(g: &mut G) -> R {
    let t = pick(g); let b = mutant(g, t)?; g.case(t.name, &b);
    let c = strictness(g); judge(g, t, &b, &c)
}
/// one bad value, in every context
pub fn c22_invalid(g: &mut G) -> R {
    let bad_str = |r: &mut Rng| -> Vec<u8> { let mut s = String::gen(r, 0).into_bytes(); let bad: &[u8] = *r.pick(&[&[0xFFu8][..], &[0xC0, 0x80], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xF4, 0x90, 0x80, 0x80], &[0xE2, 0x82], &[0x80], &[0xC1, 0xBF], &[0xF0, 0x8F, 0xBF, 0xBF], &[0xE0, 0x9F, 0xBF], &[0xF8, 0x88, 0x80, 0x80, 0x80]]); if r.chance(1, 2) { s.extend_from_slice(bad) } else { let mut t = bad.to_vec(); t.extend(s); s = t } s };
    let (leaf, ok): (T, bool); let kind = g.r.below(8);
    let n = g.r.int();
    match kind {
        0 => { let s = bad_str(&mut g.r); ok = std::str::from_utf8(&s).is_ok(); leaf = T::B(1, s) }
        1 => { let n = match g.r.below(4) { 0 => *g.r.pick(&[0xD7FFu64, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0xFFFFFFFF, 1 << 32, (1 << 32) + 65]), 1 => 0xD700 + g.r.below(0x1000), _ => g.r.int() }; ok = n < 0xD800 || (n > 0xDFFF && n < 0x110000); leaf = T::I(1, n) }
        2 => { ok = n < 256; leaf = T::I(1, n) }
        3 => { ok = n < 65536; leaf = T::I(1, n) }
        4 => { let l = g.r.us(8); ok = l == 4; leaf = T::B(1, vec![7; l]) }
        5 => { let ns = match g.r.below(3) { 0 => 999_999_998 + g.r.below(4), 1 => g.r.below(1 << 31), _ => g.r.int() }; ok = ns < 1_000_000_000; leaf = T::S(1, vec![T::I(1, n), T::I(2, ns)]) }
        6 => { let d = *g.r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 255, 256 + 4, u64::MAX]); ok = d == 4 || d == 6; leaf = T::N(1, d, vec![T::B(1, vec![1; if d == 6 { 16 } else { 4 }])]) }
        _ => { ok = n < 2; leaf = T::I(1, n) }
    }
    // a struct's body is its fields, not a field holding it
    let body = |l: &T| match *l { T::S(_, ref ts) => ts.clone(), ref l => vec![l.clone()] };
    macro_rules! ctx { ($t:ty) => { {
        let w = g.r.below(8);
        let ts; let a: &'static str; let r: (fn(&[u8], &Config) -> Result<V, E>, fn(Dev, &Config) -> Result<V, E>);
        match w {
            0 => { ts = body(&leaf); a = "top level"; r = (slice::<$t>, reader::<$t>) }
            1 => { let mut l = leaf.clone(); l.set_tag(2); ts = vec![T::I(1, 3), l]; a = "tuple field"; r = (slice::<(u8, $t)>, reader::<(u8, $t)>) }
            2 => { ts = vec![leaf.clone()]; a = "option"; r = (slice::<Option<$t>>, reader::<Option<$t>>) }
            3 => { ts = vec![T::N(1, 1, body(&leaf))]; a = "result"; r = (slice::<Result<$t, ()>>, reader::<Result<$t, ()>>) }
            4 => { let mut l = leaf.clone(); l.set_tag(2); ts = vec![T::S(1, vec![T::I(1, 5), l])]; a = "map value"; r = (slice::<BTreeMap<u8, $t>>, reader::<BTreeMap<u8, $t>>) }
            5 => { ts = vec![T::S(1, vec![leaf.clone()])]; a = "option in a list"; r = (slice::<Vec<Option<$t>>>, reader::<Vec<Option<$t>>>) }
            6 => { ts = body(&leaf); a = "boxed"; r = (slice::<Box<Rc<$t>>>, reader::<Box<Rc<$t>>>) }
            _ => { ts = vec![leaf.clone()]; a = "linked list"; r = (slice::<LinkedList<$t>>, reader::<LinkedList<$t>>) }
        }
        let mut b = vec![]; emit(&ts, &mut b, &mut None);
        g.case(concat!(stringify!($t), " in some context"), &b); g.note(|| format!("context: {}", a));
        let x = if g.r.chance(1, 2) { (r.0)(&b, &wide()) } else { (r.1)(Dev::adverse(b.clone(), &mut g.r), &wide()) };
        match x { Ok(v) => { ck!(ok, "invalid {} accepted ({}) as {}", stringify!($t), a, sh(&v)); } Err(e) => { ck!(!ok, "valid {} ({}) refused: {:?}", stringify!($t), a, e); } }
    } } }
    match kind { 0 => ctx!(String), 1 => ctx!(char), 2 => ctx!(u8x), 3 => ctx!(u16), 4 => ctx!([u8; 4]), 5 => ctx!(Duration), 6 => ctx!(IpAddr), _ => ctx!(bool) }
    Ok(())
}
#[allow(non_camel_case_types)] type u8x = Box<u8>;

// ---- limits
fn with(u: &Use) -> Config { let mut c = Config::default(); c.recursion_limit = u.rec; c.max_blob = u.blob as usize; c.max_collect = u.collect; c }
pub fn c17_exact(g: &mut G) -> R {
    let t = pick(g);
    let b = if g.r.chance(1, 3) { mutant(g, t)? } else { doc(g, t)? };
    g.case(t.name, &b);
    let (v, u, _) = reference(t, &b, &wide());
    let v = match v { Ok(v) => v, Err(_) => return Ok(()) };
    g.note(|| format!("needs {:?}", u));
    let mut c = with(&u);
    let x = dec(g, t, &b, &c); same(&x, &v, &format!("{} at exactly the limits {:?}", t.name, u))?;
    // one less of one of them
    let mut k = vec![];
    if u.rec > 0 { k.push(0) } if u.blob > 0 { k.push(1) } if u.collect > 0 { k.push(2) }
    if k.is_empty() { return Ok(()) }
    let k = *g.r.pick(&k);
    c = wide();
    let cut = |r: &mut Rng, n: u64| if r.chance(2, 3) { n - 1 } else { r.below(n) } as usize;
    let e = match k { 0 => { c.recursion_limit = cut(&mut g.r, u.rec as u64); E::Rec } 1 => { c.max_blob = cut(&mut g.r, u.blob); E::Blob } _ => { c.max_collect = cut(&mut g.r, u.collect as u64); E::Collect } };
    match dec(g, t, &b, &c) {
        Err(ref x) if *x == e => Ok(()),
        Err(x) => Err(format!("{} needing {:?} with {}: expected {:?}, got {:?}", t.name, u, config(&c), e, x)),
        Ok(v) => Err(format!("{} needing {:?} accepted with {}: {}", t.name, u, config(&c), sh(&v))),
    }
}
pub fn c17_random(g: &mut G) -> R {
    let t = pick(g);
    let b = if g.r.chance(1, 2) { mutant(g, t)? } else { doc(g, t)? };
    g.case(t.name, &b);
    let mut c = Config::default(); c.ignore_unknown_fields = g.r.chance(3, 4);
    c.recursion_limit = *g.r.pick(&[0, 1, 2, 3, 4, 6, 32, usize::max_value()]); c.max_blob = *g.r.pick(&[0, 1, 3, 10, 100, 65536, usize::max_value()]); c.max_collect = *g.r.pick(&[0, 1, 2, 4, 10, 256, usize::max_value()]);
    let (v, u, _) = reference(t, &b, &c);
    let fits = u.rec <= c.recursion_limit && u.blob <= c.max_blob as u64 && u.collect <= c.max_collect;
    match (v, dec(g, t, &b, &c)) {
        (Ok(v), x) if fits => same(&x, &v, t.name),
        (Ok(_), Ok(v)) => Err(format!("{} needing {:?} accepted with {}: {}", t.name, u, config(&c), sh(&v))),
        (Err(e), Ok(v)) => Err(format!("{}: accepted as {}, expected an error ({:?})", t.name, sh(&v), e)),
        (Err(_), Err(e)) if fits => { ck!(e != E::Rec && e != E::Blob && e != E::Collect, "{} staying within the limits (at most {:?}) refused with {:?} under {}", t.name, u, e, config(&c)); Ok(()) }
        _ => Ok(()),
    }
}
/// the excess is refused before it is read or allocated
pub fn c17_before(g: &mut G) -> R {
    let len = match g.r.below(4) { 0 => 1 << 20, 1 => 1 << 30, 2 => u64::max_value() / 2, _ => 5000 + g.r.below(100000) };
    let max = g.r.below(3000);
    let mut b = vec![0x81]; enc_int(&mut b, len); let h = b.len() as u64;
    g.case("blob header", &b);
    let mut d = Dev::new(b); d.gap = len; d.intr = 0;
    let mut c = Config::default(); c.max_blob = max as usize;
    let mut s = if g.r.chance(1, 2) { Stream::new(d) } else { Stream::new_seek(d) };
    let w = g.r.below(4);
    g.note(|| format!("type {} max_blob {}", w, max));
    let (r, p) = peak(|| match w { 0 => rd::<String>(&mut s, &c), 1 => rd::<Vec<u8>>(&mut s, &c), 2 => rd::<UnknownFields<'static>>(&mut s, &c), _ => rd::<Option<Vec<u8>>>(&mut s, &c) });
    eq!(r, Err(E::Blob), "a blob of {} bytes with max_blob {}", len, max);
    ck!(s.get_ref().pos <= h, "{} bytes of the blob were read before it was refused", s.get_ref().pos - h);
    ck!(p < 20000, "{} bytes were allocated before the blob was refused", p);
    Ok(())
}
/// deep nesting
pub fn c17_deep(g: &mut G) -> R {
    let n = match g.r.below(3) { 0 => g.r.below(40), 1 => g.r.below(400), _ => 100000 } as usize;
    let lim = match g.r.below(3) { 0 => 32, 1 => n, _ => g.r.us(200) }.min(400);
    let w = g.r.below(3);
    let mut b = vec![];
    for _ in 0..n { if w == 1 { b.push(2); b.push(9) } else { b.push(0xC1) } }
    if w == 0 { b.extend_from_slice(&[0x42, 7]) }
    for _ in 0..n { b.push(0); if w == 0 { b.extend_from_slice(&[0x42, 7]) } }
    b.push(0);
    g.case("nesting", &b); g.note(|| format!("{} levels, limit {}", n, lim));
    let mut c = wide(); c.recursion_limit = lim;
    let r = match w { 0 => slice::<Tree>(&b, &c), _ => slice::<UnknownFields<'static>>(&b, &c) };
    // Tree needs a level for the innermost value, UnknownFields one per level
    let need = if w == 0 { n + 1 } else { n };
    match r { Ok(_) => { ck!(need <= lim, "{} levels accepted with limit {}", n, lim); } Err(E::Rec) => { ck!(need > lim, "{} levels refused with limit {}", n, lim); } Err(e) => return Err(format!("{} levels, limit {}: {:?}", n, lim, e)) }
    Ok(())
}

// ---- arbitrary input
pub fn c18_types(g: &mut G) -> R {
    let t = pick(g);
    let b = match g.r.below(4) { 0 => g.r.bytes(80), 1 => { let mut d = 0; let n = 1 + g.r.us(12); let e: Vec<El> = (0..n).map(|_| { let mut e = gen_el(&mut g.r, &mut d); if g.r.chance(2, 3) { let t = 1 + g.r.below(4) as u8; match e { El::Int(ref mut x, _) | El::Blob(ref mut x, _) | El::Struct(ref mut x) | El::Enum(ref mut x, _) => *x = t, _ => {} } } e }).collect(); enc(&e) } _ => { let mut b = mutant(g, t)?; if g.r.chance(1, 2) { mutate(&mut g.r, &mut b) } b } };
    let mut b = b;
    if g.r.chance(1, 4) { let i = g.r.us(b.len() + 1); let mut x = vec![0x81 + g.r.below(3) as u8]; let l = *g.r.pick(&[1 << 27, 1 << 31, 1 << 40, u64::max_value() / 2, u64::max_value() - 30, u64::max_value()]); enc_int(&mut x, l); for y in x.into_iter().rev() { b.insert(i, y) } }
    g.case(t.name, &b);
    let mut c = Config::default(); c.ignore_unknown_fields = g.r.chance(1, 2);
    c.recursion_limit = *g.r.pick(&[0, 1, 2, 5, 32, 64]); c.max_blob = *g.r.pick(&[0, 1, 10, 65536, usize::max_value()]); c.max_collect = *g.r.pick(&[0, 1, 10, 256, usize::max_value()]);
    let (_, p) = peak(|| dec(g, t, &b, &c));
    ck!(p < (1 << 20) + 2000 * b.len() as u64, "{} bytes allocated while reading {} bytes as {}", p, b.len(), t.name);
    Ok(())
}
pub fn c18_stream(g: &mut G) -> R {
    let mut b = if g.r.chance(1, 3) { g.r.bytes(60) } else { let n = 1 + g.r.us(8); let e = gen_els(&mut g.r, n); let mut b = enc(&e); mutate(&mut g.r, &mut b); b };
    if g.r.chance(1, 3) { let i = g.r.us(b.len() + 1); let mut x = vec![0x81]; let l = *g.r.pick(&[1 << 27, 1 << 40, u64::max_value() / 2, u64::max_value() - 30]); enc_int(&mut x, l); for y in x.into_iter().rev() { b.insert(i, y) } }
    g.case("bytes", &b);
    let k = g.r.below(5);
    g.note(|| format!("reader {}", k));
    let (r, p) = peak(|| match k { 0 => handles(g, &mut Stream::from_slice(&b[..])), 1 => handles(g, &mut Stream::new(Cursor::new(&b[..]))), 2 => handles(g, &mut Stream::new_seek(Cursor::new(b.clone()))), 3 => { let d = Dev::adverse(b.clone(), &mut g.r); handles(g, &mut Stream::new_seek(d)) } _ => { let d = Dev::adverse(b.clone(), &mut g.r); handles(g, &mut Stream::new(d)) } });
    ck!(p < (1 << 20) + 2000 * b.len() as u64, "{} bytes allocated while reading {} bytes", p, b.len());
    r
}
use std::io::{BufRead, Read, Seek, SeekFrom};
/// any operations in any order; only panics, hangs and allocation matter
fn handles<Q: Read + BufRead + Seek>(g: &mut G, s: &mut Stream<Q>) -> R {
    use fourleaf::stream::{Element, Value};
    fn blob<Q: Read + BufRead + Seek>(g: &mut G, b: &mut stream::Blob<Q>) {
        for _ in 0..g.r.below(5) {
            match g.r.below(8) {
                0 => { let mut v = vec![0; g.r.us(50)]; let _ = b.read(&mut v); }
                1 => { let n = g.r.us(9); let k = b.fill_buf().map(|x| x.len()).unwrap_or(0); b.consume(n.min(k)) }
                2 => { let m = *g.r.pick(&[0, 10, usize::max_value()]); let _ = b.read_fully(m); }
                3 => { let m = *g.r.pick(&[0, 10, usize::max_value()]); let _ = b.read_or_trunc(m); }
                4 => { let o = g.r.int(); let _ = b.seek(SeekFrom::Start(o)); } 5 => { let o = g.r.int() as i64; let _ = b.seek(SeekFrom::Current(o)); } 6 => { let o = g.r.int() as i64; let _ = b.seek(SeekFrom::End(o)); }
                _ => { let mut v = vec![0; g.r.us(9)]; let _ = b.read_exact(&mut v); }
            }
        }
    }
    for _ in 0..200 {
        match g.r.below(8) {
            0 => match s.next_field() { Ok(Some(f)) => if g.r.chance(1, 3) { let _ = f.skip(); } else { let mut v = f.value; match v { Value::Blob(ref mut b) => blob(g, b), _ => { let _ = v.to_u8(); let _ = v.to_bool(); let _ = v.to_null(); let _ = v.to_struct().is_ok(); } } }, Ok(None) => { if g.r.chance(1, 3) { s.clear_eof() } } Err(_) => if g.r.chance(1, 2) { return Ok(()) } },
            1 if g.r.chance(1, 5) => { let d = g.r.below(3); let _ = s.skip_up(d); if s.eof() { return Ok(()) } }
            2 if g.r.chance(1, 3) => { let _ = s.commit(); }
            3 if g.r.chance(1, 3) => { let x = g.r.chance(1, 2); s.set_graceful_eof(x) }
            _ => match s.next_element() { Ok(Element::Field(mut f)) => if let Value::Blob(ref mut b) = f.value { blob(g, b) }, Ok(Element::Exception(mut b)) => blob(g, &mut b), Ok(Element::EndOfDoc) => if g.r.chance(1, 3) { s.clear_eof() } else { return Ok(()) }, Ok(_) => {} Err(_) => if g.r.chance(1, 2) { return Ok(()) } },
        }
    }
    Ok(())
}
/// slices and cursors at any position
pub fn c18_cursor(g: &mut G) -> R {
    use fourleaf::io::AsExtBytes;
    let b = g.r.bytes(20); let p = match g.r.below(3) { 0 => g.r.int(), _ => g.r.below(30) };
    g.case("data", &b); g.note(|| format!("cursor at {}", p));
    let exp: &[u8] = if p <= b.len() as u64 { &b[p as usize..] } else { &[] };
    let mut c = Cursor::new(&b[..]); c.set_position(p);
    eq!(hex(c.as_ext_bytes()), hex(exp), "as_ext_bytes of a cursor at {}", p);
    let mut t = TransparentCursor(c);
    eq!(hex(t.as_ext_bytes()), hex(exp), "as_ext_bytes of a transparent cursor at {}", p);
    eq!(hex(t.as_ref()), hex(exp), "as_ref of a transparent cursor at {}", p);
    let mut t = TransparentCursor(Cursor::new(b.clone())); t.0.set_position(p);
    eq!(hex(t.as_mut()), hex(exp), "as_mut of a transparent cursor at {}", p);
    let mut v = vec![]; let n = t.read_to_end(&mut v).map_err(|e| e.to_string())?;
    eq!((n, hex(&v)), (exp.len(), hex(exp)), "reading the cursor");
    let _ = &mut t;
    Ok(())
}

// ---- multiplicity
pub fn c19_mult(g: &mut G) -> R {
    // change how often one field occurs, somewhere
    let t = pick(g);
    let b = doc(g, t)?;
    let (mut ts, _) = tree(&b).ok_or("serialised form is not a document")?;
    let mut n = 0; bodies(&mut ts, &mut |_| n += 1);
    let k = g.r.us(n); let mut i = 0; let mut what = String::new();
    let r = &mut g.r;
    bodies(&mut ts, &mut |b| {
        if i == k && !b.is_empty() {
            let j = r.us(b.len());
            match r.below(4) {
                0 => { what = format!("field {} removed", b[j].tag()); b.remove(j); }
                // a second value of another length: that it is a second one is what is wrong with it
                3 => { what = format!("field {} repeated with another value", b[j].tag()); let mut x = b[j].clone();
                    match x { T::B(_, ref mut v) => if v.is_empty() || r.chance(1, 2) { v.push(b'x') } else { v.pop(); }, T::I(_, ref mut v) => if r.chance(1, 2) { *v = r.int() }, _ => {} }
                    b.insert(j + 1, x); }
                1 => { what = format!("field {} repeated", b[j].tag()); let x = b[j].clone(); let at = j + r.us(b.len() - j + 1); b.insert(at, x); }
                _ => { let tag = b[j].tag(); what = format!("field {} removed entirely", tag); b.retain(|x| x.tag() != tag) }
            }
        }
        i += 1;
    });
    let mut o = vec![]; emit(&ts, &mut o, &mut None);
    g.case(t.name, &o); g.note(|| what.clone());
    let c = strictness(g);
    let (exp, _, _) = reference(t, &o, &c);
    let long = t.name.split("; ").skip(1).any(|x| x.split(']').next().unwrap().parse::<usize>().map_or(false, |n| n > 32));
    match (exp, dec(g, t, &o, &c)) {
        (Ok(e), x) => same(&x, &e, &format!("{} with {}", t.name, what)),
        (Err(e), Ok(v)) => Err(format!("{} with {} accepted as {}, expected {:?}", t.name, what, sh(&v), e)),
        // (the long byte arrays look at the value first)
        (Err(e), Err(x)) => { ck!(e == x || (long && x == E::Invalid) || (e != E::Many && e != E::Few && e != E::Missing), "{} with {}: expected {:?}, got {:?}", t.name, what, e, x); Ok(()) }
    }
}
pub fn c19_mutants(g: &mut G) -> R { c22_mutants(g) }

// ---- compatibility
/// the tags that mean something somewhere inside a type (1 always does)
fn known(s: &Sch, d: u32, k: &mut [bool; 64]) {
    if d == 0 { return }
    match *s {
        Sch::Arr(_, ref e) | Sch::Vec(ref e) | Sch::Set(ref e) | Sch::Heap(ref e) | Sch::Opt(ref e) | Sch::Deleg(ref e) => known(e, d - 1, k),
        Sch::Map(ref a, ref b) => { k[2] = true; known(a, d - 1, k); known(b, d - 1, k) }
        Sch::Rec(ref v) | Sch::RecU(ref v) => for x in v { k[x.0 as usize] = true; known(&x.1, d - 1, k) },
        Sch::Enum(ref v, _) => for x in v { match x.1 { Var::Rec(ref v) | Var::RecU(ref v) | Var::Catch(ref v) => for x in v { k[x.0 as usize] = true; known(&x.1, d - 1, k) }, Var::Deleg(ref e) => known(e, d - 1, k) } },
        Sch::Dur => k[2] = true,
        Sch::Lazy(f) => known(&f(), d.min(3) - 1, k),
        _ => {}
    }
}
/// a tag that means nothing anywhere inside the type
fn strange(r: &mut Rng, t: &Td) -> u8 {
    let mut k = [false; 64]; k[0] = true; k[1] = true; known(&(t.sch)(), 12, &mut k);
    if r.chance(1, 4) && !k[63] { return 63 }
    loop { let x = 1 + r.below(63) as u8; if !k[x as usize] { return x } }
}
fn is_map_like(_: &T) -> bool { false }
pub fn c20_rewrite(g: &mut G) -> R {
    let t = pick(g);
    let b = doc(g, t)?;
    let c = wide();
    let v = (t.slice)(&b, &c).map_err(|e| format!("{}: own serialisation refused: {:?}", t.name, e))?;
    let (mut ts, _) = tree(&b).ok_or("serialised form is not a document")?;
    let keeps = t.name.contains("Keep") || t.name.contains("Unknown");
    let r = &mut g.r; let mut added = 0;
    bodies(&mut ts, &mut |b| {
        let _ = is_map_like;
        if r.chance(1, 2) && !keeps && b.len() > 1 {
            // a random order that keeps the order within each tag
            let mut q: Vec<T> = std::mem::replace(b, vec![]);
            while !q.is_empty() { let j = r.us(q.len()); let t = q[j].tag(); let j = q.iter().position(|x| x.tag() == t).unwrap(); b.push(q.remove(j)); }
        }
        if r.chance(1, 2) && !keeps { for _ in 0..1 + r.us(2) { let tag = strange(r, t); let x = gen_t(r, tag, 3); let j = r.us(b.len() + 1); b.insert(j, x); added += 1; } }
    });
    let mut o = vec![]; emit(&ts, &mut o, &mut Some(&mut g.r));
    g.case(t.name, &o); g.note(|| format!("rewritten from {}, {} unknown fields added", hex(&b), added));
    let x = dec(g, t, &o, &c);
    same(&x, &v, &format!("{} rewritten", t.name))
}
pub fn c20_strict(g: &mut G) -> R {
    let t = loop { let t = pick(g); if !t.name.contains("Keep") && !t.name.contains("Unknown") { break t } };
    let b = doc(g, t)?;
    let (mut ts, _) = tree(&b).ok_or("serialised form is not a document")?;
    let mut n = 0; bodies(&mut ts, &mut |_| n += 1);
    let k = g.r.us(n); let mut i = 0;
    let tag = strange(&mut g.r, t);
    let r = &mut g.r;
    bodies(&mut ts, &mut |b| { if i == k { let x = gen_t(r, tag, 2); let j = r.us(b.len() + 1); b.insert(j, x) } i += 1; });
    let mut o = vec![]; emit(&ts, &mut o, &mut None);
    g.case(t.name, &o); g.note(|| format!("unknown field {} added", tag));
    let mut c = wide(); c.ignore_unknown_fields = false;
    match dec(g, t, &o, &c) { Err(E::UnknownField(x, _)) => { eq!(x, tag, "tag in the error"); Ok(()) } Err(e) => Err(format!("{} with unknown field {} in strict mode: wrong error {:?}", t.name, tag, e)), Ok(v) => Err(format!("{} with unknown field {} accepted in strict mode as {}", t.name, tag, sh(&v))) }
}
/// types with a catch-all keep what they do not know
pub fn c20_keep(g: &mut G) -> R {
    let k = g.r.below(6);
    let n = g.r.us(6);
    let mut unk = vec![]; for _ in 0..n { let t = 3 + g.r.below(61) as u8; unk.push(gen_t(&mut g.r, t, 3)) }
    let (ts, norm): (Vec<T>, Vec<T>);
    match k {
        0 | 1 => { let mut known = vec![T::I(1, g.r.below(1 << 32)), T::B(2, g.r.content())]; let mut all = unk.clone(); if g.r.chance(1, 2) { let x = known.remove(0); let i = g.r.us(all.len() + 1); all.insert(i, x); let i = g.r.us(all.len() + 1); all.insert(i, known.remove(0)) } else { let x = known.remove(1); let i = g.r.us(all.len() + 1); all.insert(i, x); let i = g.r.us(all.len() + 1); all.insert(i, known.remove(0)) }
            let mut nn: Vec<T> = vec![]; for t in 1..3 { nn.extend(all.iter().filter(|x| x.tag() == t).cloned()) } nn.extend(unk.clone());
            ts = if k == 0 { all } else { vec![T::S(1, all)] }; norm = if k == 0 { nn } else { vec![T::S(1, nn)] } }
        2 => { let d = loop { let d = g.r.int(); if d != 1 { break d } }; ts = vec![T::N(1, d, unk)]; norm = ts.clone() }
        4 => { let d = if g.r.chance(1, 3) { 2 } else { loop { let d = g.r.int(); if d < 1 || d > 3 { break d } } };
            let (t, u) = if d == 2 { (1, 4) } else { (5, 2) };
            let rest: Vec<T> = unk.iter().filter(|x| x.tag() != t && x.tag() != u).cloned().collect();
            let mut known = vec![T::I(t, g.r.below(200))];
            if g.r.chance(1, 2) { known.push(if d == 2 { T::I(4, g.r.below(1 << 32)) } else { T::B(2, b"x\xc3\xa9"[..].to_vec()) }) }
            let mut all = rest.clone(); for x in known.iter().cloned() { let i = g.r.us(all.len() + 1); all.insert(i, x) }
            ts = vec![T::N(1, d, all)]; norm = vec![T::N(1, d, known.into_iter().chain(rest).collect())] }
        3 => { ts = unk; norm = ts.clone() }
        _ => { let x = unk.clone(); let d = loop { let d = g.r.int(); if d != 1 { break d } }; ts = vec![T::S(1, vec![T::B(2, vec![]), T::I(1, 0)].into_iter().chain(x.clone()).collect()), T::N(2, d, unk.clone())]; norm = vec![T::S(1, vec![T::I(1, 0), T::B(2, vec![])].into_iter().chain(x).collect()), T::N(2, d, unk)] }
    }
    let mut b = vec![]; emit(&ts, &mut b, &mut Some(&mut g.r));
    let mut exp = vec![]; emit(&norm, &mut exp, &mut None);
    g.case("document", &b);
    let mut c = wide(); c.ignore_unknown_fields = g.r.chance(1, 2);
    let f: fn(&[u8], &Config) -> Result<Vec<u8>, E> = match k { 0 => reser::<Keep>, 1 => reser::<Vec<Keep>>, 2 => reser::<KeepE>, 3 => reser::<UnknownFields<'static>>, 4 => reser::<KeepT>, _ => reser::<(Keep, KeepE)> };
    let o = f(&b, &c).map_err(|e| format!("document with unknown fields refused: {:?}", e))?;
    eq!(hex(&o), hex(&exp), "document after preserving unknown fields");
    let y = de::from_slice_borrow::<UnknownFields>(&b, &c).map_err(|e| e.to_string())?;
    let mut all = vec![]; emit(&ts, &mut all, &mut None);
    eq!(hex(&ser::to_vec(&y).map_err(|e| e.to_string())?), hex(&all), "document through borrowed UnknownFields");
    Ok(())
}

// ---- zero-copy
pub fn c21_pair(g: &mut G) -> R { let k = g.r.below(14); let mut b = vec![]; pair_doc(g, k, &mut b)?; pair(g, k, &b) }
fn enc_of<X: Gen + Serialize>(g: &mut G, b: &mut Vec<u8>) -> R { let d = 1 + g.r.below(3) as u32; *b = ser::to_vec(&X::gen(&mut g.r, d)).map_err(|e| e.to_string())?; Ok(()) }
fn pair_doc(g: &mut G, k: u64, b: &mut Vec<u8>) -> R {
    match k {
        0 => enc_of::<Vec<u8>>(g, b)?, 1 => enc_of::<String>(g, b)?, 2 => enc_of::<(Vec<u8>, u8, String)>(g, b)?, 3 => enc_of::<Vec<Vec<u8>>>(g, b)?, 4 => enc_of::<Option<String>>(g, b)?, 5 => enc_of::<BTreeMap<String, Vec<u8>>>(g, b)?,
        6 => enc_of::<(String, Vec<u8>)>(g, b)?, 7 => enc_of::<[Vec<u8>; 3]>(g, b)?, 8 => enc_of::<UnknownFields<'static>>(g, b)?, 9 => enc_of::<Result<String, Vec<u8>>>(g, b)?, 10 => enc_of::<Vec<(u8, Option<String>)>>(g, b)?, 11 => enc_of::<(u32, String, Option<Vec<u8>>, String, Vec<Vec<u8>>)>(g, b)?,
        12 => enc_of::<Box<String>>(g, b)?, _ => enc_of::<(Vec<u8>, Vec<u8>, [u8; 4])>(g, b)?,
    }
    if g.r.chance(2, 3) {
        if g.r.chance(1, 4) { mutate(&mut g.r, b) }
        else { let (mut ts, _) = tree(b).ok_or("not a document")?; for _ in 0..g.r.us(3) { tmut(&mut g.r, &mut ts) } b.clear(); emit(&ts, b, &mut Some(&mut g.r)) }
    }
    Ok(())
}
impl<'a> Ty for Lend<'a> {
    fn sch() -> Sch { Sch::Rec(vec![(1, Sch::U(32)), (2, Sch::CowStr), (3, Sch::Opt(Box::new(Sch::CowBytes))), (4, Sch::CowStr), (5, Sch::Vec(Box::new(Sch::CowBytes)))]) }
    fn val(&self, b: usize) -> V { V::L(vec![self.n.val(b), self.s.val(b), self.b.val(b), self.c.val(b), self.l.val(b)]) }
}
fn pair<'a>(g: &mut G, k: u64, b: &'a [u8]) -> R {
    g.case("document", b);
    macro_rules! p { ($z:ty, $c:ty) => { {
        g.note(|| stringify!($z).to_string());
        let mut c = wide(); c.ignore_unknown_fields = g.r.chance(2, 3);
        let z = cls(de::from_slice_borrow::<$z>(b, &c)).map(|x| x.val(b.as_ptr() as usize));
        let y = cls(de::from_slice_copy::<$c>(b, &c)).map(|x| x.val(0));
        let mut rz = RD::new(b, !c.ignore_unknown_fields, true); let ez = rz.body(&<$z as Ty>::sch(), 0);
        let mut ry = RD::new(b, !c.ignore_unknown_fields, false); let ey = ry.body(&<$c as Ty>::sch(), 0);
        match (z, y) {
            (Ok(z), Ok(y)) => {
                let ez = ez.map_err(|e| format!("accepted as {}, expected {:?}", sh(&z), e))?; let ey = ey.map_err(|e| format!("accepted as {}, expected {:?}", sh(&y), e))?;
                ck!(y == ey, "copying {}: expected {}, got {}", stringify!($c), sh(&ey), sh(&y));
                ck!(z == ez, "zero-copy {}: expected (offset, length of borrowed parts) {}, got {}", stringify!($z), sh(&ez), sh(&z));
            }
            (Err(_), Err(_)) => { ck!(ez.is_err() && ey.is_err(), "valid document refused"); }
            (z, y) => return Err(format!("{}: zero-copy gives {:?}, copying gives {:?}", stringify!($z), z, y)),
        }
    } } }
    match k {
        0 => p!(&'a [u8], Vec<u8>), 1 => p!(&'a str, String), 2 => p!((&'a [u8], u8, &'a str), (Vec<u8>, u8, String)), 3 => p!(Vec<&'a [u8]>, Vec<Vec<u8>>), 4 => p!(Option<&'a str>, Option<String>), 5 => p!(BTreeMap<StrKey<'a>, &'a [u8]>, BTreeMap<String, Vec<u8>>),
        6 => p!((Cow<'a, str>, Cow<'a, [u8]>), (Cow<'static, str>, Cow<'static, [u8]>)), 7 => p!([&'a [u8]; 3], [Vec<u8>; 3]), 8 => p!(UnknownFields<'a>, UnknownFields<'static>), 9 => p!(Result<&'a str, &'a [u8]>, Result<String, Vec<u8>>), 10 => p!(Vec<(u8, Option<Cow<'a, str>>)>, Vec<(u8, Option<String>)>), 11 => p!(Lend<'a>, (u32, String, Option<Vec<u8>>, String, Vec<Vec<u8>>)),
        12 => p!(Box<&'a str>, Box<String>), _ => p!((&'a [u8], Vec<u8>, [u8; 4]), (Vec<u8>, Vec<u8>, [u8; 4])),
    }
    Ok(())
}
type StrKey<'a> = Vec2<'a>;
/// a string key whose schema view is its content, so that duplicates collapse as in the map
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Vec2<'a>(&'a str);
impl<'a, R: std::io::Read> Deserialize<R, style::ZeroCopy> for Vec2<'a> where &'a str: Deserialize<R, style::ZeroCopy, Accum = Option<&'a str>> {
    type Accum = Option<&'a str>;
    fn deserialize_field(a: &mut Option<&'a str>, c: &de::Context, f: &mut stream::Field<R>) -> de::Result<()> { <&'a str as Deserialize<R, style::ZeroCopy>>::deserialize_field(a, c, f) }
    fn finish(a: Option<&'a str>, c: &de::Context) -> de::Result<Self> { <&'a str as Deserialize<R, style::ZeroCopy>>::finish(a, c).map(Vec2) }
}
impl<'a> Ty for Vec2<'a> { fn sch() -> Sch { Sch::Str } fn val(&self, _: usize) -> V { V::S(self.0.as_bytes().to_vec()) } }
/// slices of a blob are exactly its content, also after reading part of it
pub fn c21_handle(g: &mut G) -> R {
    let c = g.r.content(); let mut b = g.r.us(3).to_le_bytes()[..0].to_vec();
    for _ in 0..g.r.us(3) { enc_el(&mut b, &El::Int(3, 700), &mut None) }
    let n = (b.len() / 3) as usize;
    enc_el(&mut b, &El::Blob(5, c.clone()), &mut None); let at = b.len() - c.len(); b.push(0x44); b.push(9);
    g.case("document", &b);
    let mut s = Stream::from_slice(&b[..]);
    for _ in 0..n { s.next_field().map_err(|e| e.to_string())?; }
    {
        let mut v = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?.value;
        let bl = v.to_blob().map_err(|e| e.to_string())?;
        let k = g.r.us(c.len() + 1);
        let mut buf = vec![0; k]; bl.read_exact(&mut buf).map_err(|e| e.to_string())?;
        let x = bl.ext_slice().map_err(|e| e.to_string())?;
        eq!((x.as_ptr() as usize - b.as_ptr() as usize, x.len()), (at + k, c.len() - k), "ext_slice after reading {} bytes", k);
        let y = bl.slice().map_err(|e| e.to_string())?;
        eq!((y.as_ptr() as usize - b.as_ptr() as usize, y.len()), (at + k, c.len() - k), "slice after reading {} bytes", k);
    }
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    eq!((f.tag, f.value.to_u8().ok()), (4, Some(9)), "field after the blob");
    Ok(())
}
/// truncated documents (C08)
pub fn c08_types(g: &mut G) -> R {
    let t = pick(g);
    let b = doc(g, t)?;
    let k = g.r.us(b.len()); let p = &b[..k];
    g.case(t.name, p); g.note(|| format!("prefix of {}", hex(&b)));
    let c = strictness(g);
    match dec(g, t, p, &c) { Err(_) => Ok(()), Ok(v) => Err(format!("a {}-byte prefix of a {}-byte {} is accepted as {}", k, b.len(), t.name, sh(&v))) }
}
