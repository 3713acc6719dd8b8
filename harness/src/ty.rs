//! Target types: schema, generator and value view; and an independent decoder over schemas.
use crate::refm::*;
use crate::util::*;
use fourleaf::adapt::Copied;
use fourleaf::unknown::{UnknownField, UnknownFields};
use std::borrow::Cow;
use std::collections::*;
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V { N(i128), Null, S(Vec<u8>), B(usize, usize), L(Vec<V>), E(u64, Vec<V>), U(Vec<(u8, V)>), UE(u64, Vec<(u8, V)>) }
#[derive(Clone)]
pub enum Var { Rec(Vec<(u8, Sch)>), RecU(Vec<(u8, Sch)>), Deleg(Box<Sch>), Catch(Vec<(u8, Sch)>) }
#[derive(Clone)]
pub enum Sch {
    U(u32), I(u32), Bool, Char, Null, Str, Bytes,
    /// borrowed in the zero-copy style, owned otherwise
    CowStr, CowBytes,
    ByteArr(usize), Arr(usize, Box<Sch>), Vec(Box<Sch>), Set(Box<Sch>), Heap(Box<Sch>), Map(Box<Sch>, Box<Sch>), Opt(Box<Sch>),
    Unit, Rec(Vec<(u8, Sch)>), RecU(Vec<(u8, Sch)>), Deleg(Box<Sch>), Enum(Vec<(u64, Var)>, bool), Dur, Unk, Lazy(fn() -> Sch),
}
/// what kind of failure
#[derive(Clone, Debug, PartialEq)]
pub enum E { Stream, Kind, Range, Exc, Trunc, Rec, UnknownField(u8, u64), UnknownVariant(u64), Few, Many, Missing, Invalid, Collect, Blob, Other }
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Use { pub rec: usize, pub collect: usize, pub blob: u64 }
pub enum Acc { None, One(V), List(Vec<V>) }
pub struct RD<'a> { pub m: Ref<'a>, pub u: Use, pub strict: bool, pub borrow: bool }
type D<T> = Result<T, E>;
impl<'a> RD<'a> {
    pub fn new(b: &'a [u8], strict: bool, borrow: bool) -> Self { RD { m: Ref::new(b), u: Use::default(), strict, borrow } }
    fn push(&mut self, d: usize) -> usize { if d + 1 > self.u.rec { self.u.rec = d + 1 } d + 1 }
    fn next(&mut self) -> D<Option<REl>> {
        loop {
            let e = self.m.next().map_err(|k| if k & F_TRUNC != 0 { E::Trunc } else { E::Stream })?;
            match e.v { RV::Pad => continue, RV::End | RV::Doc | RV::Graceful => return Ok(None), RV::Exc(..) => return Err(E::Exc), _ => return Ok(Some(e)) }
        }
    }
    fn skip(&mut self, e: &REl) -> D<()> {
        match e.v { RV::Struct | RV::Enum(_) => while self.m.depth > e.fdepth { self.m.next().map_err(|k| if k & F_TRUNC != 0 { E::Trunc } else { E::Stream })?; }, _ => {} }
        Ok(())
    }
    fn unknown(&mut self, e: &REl) -> D<()> { if self.strict { Err(E::UnknownField(e.tag, e.at as u64)) } else { self.skip(e) } }
    fn fields(&mut self, fs: &[(u8, Sch)], d: usize, unk: bool) -> D<Vec<V>> {
        let mut acc: Vec<Acc> = fs.iter().map(|_| Acc::None).collect();
        let mut us = vec![];
        while let Some(e) = self.next()? {
            match fs.iter().position(|f| f.0 == e.tag) {
                Some(i) => { let d2 = self.push(d); self.field(&fs[i].1, &mut acc[i], &e, d2)?; }
                None if unk => { let d2 = self.push(d); us.push(self.unkf(&e, d2)?); }
                None => self.unknown(&e)?,
            }
        }
        let mut out = vec![];
        for (f, a) in fs.iter().zip(acc) { let d2 = self.push(d); out.push(self.finish(&f.1, a, d2)?); }
        if unk { self.push(d); out.push(V::U(us)); }
        Ok(out)
    }
    fn unkf(&mut self, e: &REl, d: usize) -> D<(u8, V)> {
        self.u.collect += 1;
        let v = match e.v {
            RV::Int(n) => V::N(n as i128),
            RV::Blob(..) => { if !self.borrow { self.held(e) } let (o, n) = self.blob(e)?; if !self.borrow { V::S(self.m.b[o..o + n].to_vec()) } else { V::B(o, n) } }
            RV::Struct => V::U(self.unk(d)?),
            RV::Enum(x) => V::UE(x, self.unk(d)?),
            _ => return Err(E::Other),
        };
        Ok((e.tag, v))
    }
    fn unk(&mut self, d: usize) -> D<Vec<(u8, V)>> {
        let mut o = vec![];
        while let Some(e) = self.next()? { let d2 = self.push(d); o.push(self.unkf(&e, d2)?); }
        Ok(o)
    }
    pub fn body(&mut self, s: &Sch, d: usize) -> D<V> {
        match *s {
            Sch::Lazy(f) => self.body(&f(), d),
            Sch::Rec(ref fs) => Ok(V::L(self.fields(fs, d, false)?)),
            Sch::RecU(ref fs) => Ok(V::L(self.fields(fs, d, true)?)),
            Sch::Dur => self.dur(d),
            Sch::Unit => { self.fields(&[(1, Sch::Opt(Box::new(Sch::Unit)))], d, false)?; Ok(V::Null) }
            Sch::Deleg(ref i) => { let d2 = self.push(d); self.body(i, d2) }
            Sch::Unk => Ok(V::U(self.unk(d)?)),
            _ => Ok(self.fields(&[(1, s.clone())], d, false)?.pop().unwrap()),
        }
    }
    fn dur(&mut self, d: usize) -> D<V> {
        let v = self.fields(&[(1, Sch::U(64)), (2, Sch::U(32))], d, false)?;
        if let V::N(n) = v[1] { if n >= 1_000_000_000 { return Err(E::Invalid) } }
        Ok(V::L(v))
    }
    /// count the declared size against the budget: that happens before anything is read
    fn held(&mut self, e: &REl) { if let RV::Blob(_, n) = e.v { self.u.blob = self.u.blob.saturating_add(n) } }
    fn blob(&mut self, e: &REl) -> D<(usize, usize)> {
        match e.v {
            RV::Blob(o, n) => if n as u128 <= (self.m.b.len() - o) as u128 { Ok((o, n as usize)) } else { Err(E::Trunc) },
            _ => Err(E::Kind),
        }
    }
    fn is_struct(&self, e: &REl) -> D<()> { if e.v == RV::Struct { Ok(()) } else { Err(E::Kind) } }
    pub fn elem(&mut self, s: &Sch, e: &REl, d: usize) -> D<V> {
        match *s {
            Sch::Lazy(f) => self.elem(&f(), e, d),
            Sch::Rec(_) | Sch::RecU(_) | Sch::Dur | Sch::Vec(_) | Sch::Set(_) | Sch::Heap(_) | Sch::Map(..) | Sch::Opt(_) | Sch::Arr(..) => { self.is_struct(e)?; self.body(s, d) }
            Sch::Unk => { self.is_struct(e)?; Ok(V::U(self.unk(d)?)) }
            Sch::Unit => { self.is_struct(e)?; self.fields(&[], d, false)?; Ok(V::Null) }
            Sch::Deleg(ref i) => { let d2 = self.push(d); self.elem(i, e, d2) }
            Sch::Enum(ref vs, catch) => {
                let x = match e.v { RV::Enum(x) => x, _ => return Err(E::Kind) };
                match vs.iter().find(|v| v.0 == x || if let Var::Catch(_) = v.1 { true } else { false }) {
                    Some(&(_, Var::Rec(ref fs))) => Ok(V::E(x, self.fields(fs, d, false)?)),
                    Some(&(_, Var::RecU(ref fs))) | Some(&(_, Var::Catch(ref fs))) => Ok(V::E(x, self.fields(fs, d, true)?)),
                    Some(&(_, Var::Deleg(ref i))) => { let d2 = self.push(d); let v = self.body(i, d2)?; Ok(V::E(x, vec![v])) }
                    None if catch => { Ok(V::E(x, self.fields(&[], d, true)?)) }
                    None => Err(E::UnknownVariant(x)),
                }
            }
            _ => { let mut a = Acc::None; self.field(s, &mut a, e, d)?; self.finish(s, a, d) }
        }
    }
    fn one(&mut self, a: &mut Acc, f: impl FnOnce(&mut Self) -> D<V>) -> D<()> {
        if let Acc::One(_) = *a { return Err(E::Many) }
        let v = f(self)?; *a = Acc::One(v); Ok(())
    }
    fn int(&self, e: &REl) -> D<u64> { match e.v { RV::Int(n) => Ok(n), _ => Err(E::Kind) } }
    fn rng(n: i128, lo: i128, hi: i128) -> D<V> { if n < lo || n > hi { Err(E::Range) } else { Ok(V::N(n)) } }
    pub fn field(&mut self, s: &Sch, a: &mut Acc, e: &REl, d: usize) -> D<()> {
        match *s {
            Sch::Lazy(f) => self.field(&f(), a, e, d),
            Sch::U(b) => self.one(a, |x| Self::rng(x.int(e)? as i128, 0, (1i128 << b) - 1)),
            Sch::I(b) => self.one(a, |x| { let n = x.int(e)? as i128; Self::rng(if n % 2 == 1 { -(n + 1) / 2 } else { n / 2 }, -(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) }),
            Sch::Bool => self.one(a, |x| Self::rng(x.int(e)? as i128, 0, 1)),
            Sch::Null => self.one(a, |x| if x.int(e)? == 0 { Ok(V::Null) } else { Err(E::Range) }),
            Sch::Char => self.one(a, |x| { let n = x.int(e)?; if n > u32::max_value() as u64 { Err(E::Range) } else if n > 0x10FFFF || (n >= 0xD800 && n < 0xE000) { Err(E::Invalid) } else { Ok(V::N(n as i128)) } }),
            Sch::Str | Sch::CowStr | Sch::Bytes | Sch::CowBytes => {
                let cow = match *s { Sch::CowStr | Sch::CowBytes => self.borrow, _ => false };
                let utf = match *s { Sch::Str | Sch::CowStr => true, _ => false };
                self.one(a, |x| {
                    if !cow { x.held(e) }
                    let (o, n) = x.blob(e)?;
                    if utf && !utf8(&x.m.b[o..o + n]) { return Err(E::Invalid) }
                    Ok(if cow { V::B(o, n) } else { V::S(x.m.b[o..o + n].to_vec()) })
                })
            }
            Sch::ByteArr(k) => self.one(a, |x| {
                let n = match e.v { RV::Blob(_, n) => n, _ => return Err(E::Kind) };
                if n != k as u64 { return Err(E::Invalid) }
                let (o, n) = x.blob(e)?; Ok(V::S(x.m.b[o..o + n].to_vec()))
            }),
            Sch::Opt(ref i) => self.one(a, |x| x.elem(i, e, d)),
            Sch::Unit | Sch::Rec(_) | Sch::RecU(_) | Sch::Dur | Sch::Deleg(_) | Sch::Enum(..) => self.one(a, |x| x.elem(s, e, d)),
            Sch::Unk => Err(E::Other),
            Sch::Arr(k, ref i) => {
                let c = if let Acc::List(ref l) = *a { l.len() } else { 0 };
                if c >= k { return Err(E::Many) }
                let v = self.elem(i, e, d)?; Self::add(a, v); Ok(())
            }
            Sch::Vec(ref i) | Sch::Set(ref i) | Sch::Heap(ref i) => { self.u.collect += 1; let v = self.elem(i, e, d)?; Self::add(a, v); Ok(()) }
            Sch::Map(ref k, ref v) => { self.u.collect += 1; let v = self.elem(&Sch::Rec(vec![(1, (**k).clone()), (2, (**v).clone())]), e, d)?; Self::add(a, v); Ok(()) }
        }
    }
    fn add(a: &mut Acc, v: V) { if let Acc::List(ref mut l) = *a { l.push(v); return; } *a = Acc::List(vec![v]) }
    pub fn finish(&mut self, s: &Sch, a: Acc, d: usize) -> D<V> {
        let l = match a { Acc::List(l) => l, Acc::One(v) => return Ok(match *s { Sch::Lazy(f) => return self.finish(&f(), Acc::One(v), d), Sch::Opt(_) => V::L(vec![v]), _ => v }), Acc::None => vec![] };
        match *s {
            Sch::Lazy(f) => self.finish(&f(), if l.is_empty() { Acc::None } else { Acc::List(l) }, d),
            Sch::Opt(_) => Ok(V::L(vec![])),
            Sch::Vec(_) => Ok(V::L(l)),
            Sch::Heap(_) => { let mut l = l; l.sort(); Ok(V::L(l)) }
            Sch::Set(_) => { let mut l = l; l.sort(); l.dedup(); Ok(V::L(l)) }
            Sch::Map(..) => {
                let mut m = BTreeMap::new();
                for x in l { if let V::L(mut kv) = x { let v = kv.pop().unwrap(); m.insert(kv.pop().unwrap(), v); } }
                Ok(V::L(m.into_iter().map(|(k, v)| V::L(vec![k, v])).collect()))
            }
            Sch::Arr(k, _) => if l.len() == k { Ok(V::L(l)) } else if l.is_empty() { Err(E::Missing) } else { Err(E::Few) },
            Sch::ByteArr(0) => Ok(V::S(vec![])),
            _ => Err(E::Missing),
        }
    }
}
/// well-formed UTF-8, by the definition
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as u32;
        let (n, mut v, min) = if c < 0x80 { (0, c, 0) } else if c >> 5 == 6 { (1, c & 31, 0x80) } else if c >> 4 == 14 { (2, c & 15, 0x800) } else if c >> 3 == 30 { (3, c & 7, 0x10000) } else { return false };
        if i + n >= b.len() { return false }
        for k in 1..n + 1 { let x = b[i + k] as u32; if x >> 6 != 2 { return false } v = v << 6 | (x & 63) }
        if v < min || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000) { return false }
        i += n + 1;
    }
    true
}
/// element trees
#[derive(Clone, Debug, PartialEq)]
pub enum T { I(u8, u64), B(u8, Vec<u8>), S(u8, Vec<T>), N(u8, u64, Vec<T>) }
impl T {
    pub fn tag(&self) -> u8 { match *self { T::I(t, _) | T::B(t, _) | T::S(t, _) | T::N(t, _, _) => t } }
    pub fn set_tag(&mut self, x: u8) { match *self { T::I(ref mut t, _) | T::B(ref mut t, _) | T::S(ref mut t, _) | T::N(ref mut t, _, _) => *t = x } }
}
/// one complete body; returns its end
pub fn tree(b: &[u8]) -> Option<(Vec<T>, usize)> {
    let mut m = Ref::new(b);
    let t = tree_in(&mut m)?;
    Some((t, m.off))
}
fn tree_in(m: &mut Ref) -> Option<Vec<T>> {
    let mut out = vec![];
    loop {
        let e = m.next().ok()?;
        match e.v {
            RV::Pad => {} RV::End | RV::Doc | RV::Graceful => return Some(out), RV::Exc(..) => return None,
            RV::Int(n) => out.push(T::I(e.tag, n)),
            RV::Blob(o, n) => out.push(T::B(e.tag, m.b.get(o..o + n as usize)?.to_vec())),
            RV::Struct => { let s = tree_in(m)?; out.push(T::S(e.tag, s)) }
            RV::Enum(d) => { let s = tree_in(m)?; out.push(T::N(e.tag, d, s)) }
        }
    }
}
/// emit a body; `noise` adds padding and non-minimal integers
pub fn emit(ts: &[T], out: &mut Vec<u8>, noise: &mut Option<&mut Rng>) {
    fn pad(out: &mut Vec<u8>, n: &mut Option<&mut Rng>) { if let Some(ref mut r) = *n { while r.chance(1, 6) { out.push(0xC0) } } }
    fn el(out: &mut Vec<u8>, e: &El, n: &mut Option<&mut Rng>) { if let Some(ref mut r) = *n { if r.chance(1, 3) { let mut q: Option<&mut Rng> = Some(&mut **r); enc_el(out, e, &mut q); return } } enc_el(out, e, &mut None) }
    for t in ts {
        pad(out, noise);
        match *t {
            T::I(t, n) => el(out, &El::Int(t, n), noise),
            T::B(t, ref b) => el(out, &El::Blob(t, b.clone()), noise),
            T::S(t, ref s) => { out.push(0xC0 | t); emit(s, out, noise) }
            T::N(t, d, ref s) => { el(out, &El::Enum(t, d), noise); emit(s, out, noise) }
        }
    }
    pad(out, noise);
    out.push(0);
}
/// all bodies of a tree, outermost first
pub fn bodies<'a>(t: &'a mut Vec<T>, f: &mut dyn FnMut(&mut Vec<T>)) {
    f(t);
    for x in t.iter_mut() { match *x { T::S(_, ref mut s) | T::N(_, _, ref mut s) => bodies(s, f), _ => {} } }
}
pub fn gen_t(r: &mut Rng, tag: u8, depth: u32) -> T {
    match r.below(if depth == 0 { 3 } else { 6 }) {
        0 | 1 => T::I(tag, r.int()), 2 => T::B(tag, r.content()),
        3 | 4 => { let k = r.us(4); T::S(tag, (0..k).map(|_| { let t = 1 + r.below(63) as u8; gen_t(r, t, depth - 1) }).collect()) }
        _ => { let k = r.us(4); T::N(tag, r.int(), (0..k).map(|_| { let t = 1 + r.below(63) as u8; gen_t(r, t, depth - 1) }).collect()) }
    }
}

pub trait Ty: Sized {
    fn sch() -> Sch;
    /// `base`: address of the input a zero-copy value borrows from, or 0
    fn val(&self, base: usize) -> V;
}
pub trait Gen: Ty { fn gen(r: &mut Rng, d: u32) -> Self; }
macro_rules! ints { ($($t:ty, $s:expr;)*) => { $(
    impl Ty for $t { fn sch() -> Sch { $s } fn val(&self, _: usize) -> V { V::N(*self as i128) } }
    impl Gen for $t { fn gen(r: &mut Rng, _: u32) -> Self { match r.below(6) { 0 => <$t>::min_value(), 1 => <$t>::max_value(), 2 => (r.int() as $t).wrapping_neg(), _ => r.int() as $t } } }
)* } }
ints! { u8, Sch::U(8); u16, Sch::U(16); u32, Sch::U(32); u64, Sch::U(64); usize, Sch::U(64); i8, Sch::I(8); i16, Sch::I(16); i32, Sch::I(32); i64, Sch::I(64); isize, Sch::I(64); }
impl Ty for bool { fn sch() -> Sch { Sch::Bool } fn val(&self, _: usize) -> V { V::N(*self as i128) } }
impl Gen for bool { fn gen(r: &mut Rng, _: u32) -> Self { r.chance(1, 2) } }
impl Ty for char { fn sch() -> Sch { Sch::Char } fn val(&self, _: usize) -> V { V::N(*self as i128) } }
impl Gen for char { fn gen(r: &mut Rng, _: u32) -> Self { loop { let n = match r.below(5) { 0 => *r.pick(&[0xD7FFu32, 0xE000, 0x10FFFF, 0, 0xFFFF, 0x10000, 0x7F, 0x80]), 1 => r.below(0x110000) as u32, _ => r.below(300) as u32 }; if let Some(c) = std::char::from_u32(n) { return c } } } }
impl<X> Ty for PhantomData<X> { fn sch() -> Sch { Sch::Null } fn val(&self, _: usize) -> V { V::Null } }
impl<X> Gen for PhantomData<X> { fn gen(_: &mut Rng, _: u32) -> Self { PhantomData } }
impl Ty for () { fn sch() -> Sch { Sch::Unit } fn val(&self, _: usize) -> V { V::Null } }
impl Gen for () { fn gen(_: &mut Rng, _: u32) -> Self { () } }
impl Ty for String { fn sch() -> Sch { Sch::Str } fn val(&self, _: usize) -> V { V::S(self.as_bytes().to_vec()) } }
impl Gen for String { fn gen(r: &mut Rng, d: u32) -> Self { let n = match r.below(8) { 0 => 0, 1 => 60 + r.us(100), _ => r.us(8) }; (0..n).map(|_| char::gen(r, d)).collect() } }
impl<'a> Ty for &'a [u8] { fn sch() -> Sch { Sch::CowBytes } fn val(&self, b: usize) -> V { V::B((self.as_ptr() as usize).wrapping_sub(b), self.len()) } }
impl<'a> Ty for &'a str { fn sch() -> Sch { Sch::CowStr } fn val(&self, b: usize) -> V { V::B((self.as_ptr() as usize).wrapping_sub(b), self.len()) } }
impl<'a> Ty for Cow<'a, [u8]> { fn sch() -> Sch { Sch::CowBytes } fn val(&self, b: usize) -> V { match *self { Cow::Borrowed(s) if b != 0 => s.val(b), ref x => V::S(x.to_vec()) } } }
impl<'a> Gen for Cow<'a, [u8]> { fn gen(r: &mut Rng, _: u32) -> Self { Cow::Owned(r.content()) } }
impl<'a> Ty for Cow<'a, str> { fn sch() -> Sch { Sch::CowStr } fn val(&self, b: usize) -> V { match *self { Cow::Borrowed(s) if b != 0 => s.val(b), ref x => V::S(x.as_bytes().to_vec()) } } }
impl<'a> Gen for Cow<'a, str> { fn gen(r: &mut Rng, d: u32) -> Self { Cow::Owned(String::gen(r, d)) } }
/// byte strings and arrays are told apart from other sequences by the element's schema
fn seq(s: Sch) -> Sch { if let Sch::U(8) = s { Sch::Bytes } else { Sch::Vec(Box::new(s)) } }
fn arr(n: usize, s: Sch) -> Sch { if let Sch::U(8) = s { Sch::ByteArr(n) } else { Sch::Arr(n, Box::new(s)) } }
fn lst<X: Ty>(bytes: bool, it: Vec<&X>, b: usize) -> V {
    let l: Vec<V> = it.into_iter().map(|x| x.val(b)).collect();
    if bytes { V::S(l.iter().map(|x| if let V::N(n) = *x { n as u8 } else { 0 }).collect()) } else { V::L(l) }
}
fn isb<X: Ty>() -> bool { if let Sch::U(8) = X::sch() { true } else { false } }
fn some<X: Gen>(r: &mut Rng, d: u32) -> Vec<X> {
    let n = if d == 0 { r.us(2) } else { match r.below(20) { 0 => 20, 1 => 0, _ => r.us(4) } };
    (0..n).map(|_| X::gen(r, d.saturating_sub(1))).collect()
}
impl<X: Ty> Ty for Vec<X> { fn sch() -> Sch { seq(X::sch()) } fn val(&self, b: usize) -> V { lst(isb::<X>(), self.iter().collect(), b) } }
impl<X: Gen> Gen for Vec<X> { fn gen(r: &mut Rng, d: u32) -> Self { some(r, d) } }
macro_rules! colls { ($($c:ident $s:ident ($($b:tt)*) $sort:expr;)*) => { $(
    impl<X: Ty + $($b)*> Ty for $c<X> { fn sch() -> Sch { Sch::$s(Box::new(X::sch())) } fn val(&self, b: usize) -> V { let mut l: Vec<V> = self.iter().map(|x| x.val(b)).collect(); if $sort { l.sort() } V::L(l) } }
    impl<X: Gen + $($b)*> Gen for $c<X> { fn gen(r: &mut Rng, d: u32) -> Self { some::<X>(r, d).into_iter().collect() } }
)* } }
colls! { VecDeque Vec (Sized) false; LinkedList Vec (Sized) false; BTreeSet Set (Ord) true; HashSet Set (std::hash::Hash + Eq) true; BinaryHeap Heap (Ord) true; }
macro_rules! maps { ($($c:ident ($($b:tt)*);)*) => { $(
    impl<K: Ty + $($b)*, X: Ty> Ty for $c<K, X> { fn sch() -> Sch { Sch::Map(Box::new(K::sch()), Box::new(X::sch())) } fn val(&self, b: usize) -> V { let mut l: Vec<V> = self.iter().map(|(k, x)| V::L(vec![k.val(b), x.val(b)])).collect(); l.sort(); V::L(l) } }
    impl<K: Gen + $($b)*, X: Gen> Gen for $c<K, X> { fn gen(r: &mut Rng, d: u32) -> Self { some::<(K, X)>(r, d).into_iter().collect() } }
)* } }
maps! { BTreeMap (Ord); HashMap (std::hash::Hash + Eq); }
impl<X: Ty> Ty for Option<X> { fn sch() -> Sch { Sch::Opt(Box::new(X::sch())) } fn val(&self, b: usize) -> V { V::L(self.iter().map(|x| x.val(b)).collect()) } }
impl<X: Gen> Gen for Option<X> { fn gen(r: &mut Rng, d: u32) -> Self { if r.chance(1, 3) { None } else { Some(X::gen(r, d.saturating_sub(1))) } } }
macro_rules! boxes { ($($c:ident)*) => { $(
    impl<X: Ty> Ty for $c<X> { fn sch() -> Sch { match X::sch() { Sch::U(8) => Sch::Lazy(|| Sch::U(8)), s => s } } fn val(&self, b: usize) -> V { (**self).val(b) } }
    impl<X: Gen> Gen for $c<X> { fn gen(r: &mut Rng, d: u32) -> Self { $c::new(X::gen(r, d)) } }
)* } }
boxes!(Box Rc Arc);
impl<X: Ty> Ty for Copied<X> { fn sch() -> Sch { match X::sch() { Sch::U(8) => Sch::Lazy(|| Sch::U(8)), s => s } } fn val(&self, b: usize) -> V { self.0.val(b) } }
impl<X: Gen> Gen for Copied<X> { fn gen(r: &mut Rng, d: u32) -> Self { Copied(X::gen(r, d)) } }
macro_rules! arrays { ($($n:tt)*) => { $(
    impl<X: Ty> Ty for [X; $n] { fn sch() -> Sch { arr($n, X::sch()) } fn val(&self, b: usize) -> V { lst(isb::<X>(), self.iter().collect(), b) } }
    impl<X: Gen> Gen for [X; $n] { fn gen(r: &mut Rng, d: u32) -> Self { let mut v: Vec<X> = (0..$n).map(|_| X::gen(r, d.saturating_sub(1))).collect(); v.reverse(); [(); $n].map(|_| v.pop().unwrap()) } }
)* } }
arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 64 128 256 512 1024 2048 4096 8192 16384 32768 65536);
macro_rules! tuples { ($(($($i:tt $t:ident),*))*) => { $(
    impl<$($t: Ty),*> Ty for ($($t,)*) { fn sch() -> Sch { Sch::Rec(vec![$(($i + 1, $t::sch())),*]) } fn val(&self, b: usize) -> V { V::L(vec![$(self.$i.val(b)),*]) } }
    impl<$($t: Gen),*> Gen for ($($t,)*) { fn gen(r: &mut Rng, d: u32) -> Self { let d = d.saturating_sub(1); ($($t::gen(r, d),)*) } }
)* } }
tuples! {
    (0 A) (0 A, 1 B) (0 A, 1 B, 2 C) (0 A, 1 B, 2 C, 3 D) (0 A, 1 B, 2 C, 3 D, 4 E1) (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F)
    (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1) (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H) (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H, 8 I)
    (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H, 8 I, 9 J) (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H, 8 I, 9 J, 10 K)
    (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H, 8 I, 9 J, 10 K, 11 L) (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M)
    (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N) (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O)
    (0 A, 1 B, 2 C, 3 D, 4 E1, 5 F, 6 G1, 7 H, 8 I, 9 J, 10 K, 11 L, 12 M, 13 N, 14 O, 15 P)
}
impl Ty for Ipv4Addr { fn sch() -> Sch { Sch::Deleg(Box::new(Sch::ByteArr(4))) } fn val(&self, _: usize) -> V { V::S(self.octets().to_vec()) } }
impl Gen for Ipv4Addr { fn gen(r: &mut Rng, _: u32) -> Self { (r.next() as u32).into() } }
impl Ty for Ipv6Addr { fn sch() -> Sch { Sch::Deleg(Box::new(Sch::ByteArr(16))) } fn val(&self, _: usize) -> V { V::S(self.octets().to_vec()) } }
impl Gen for Ipv6Addr { fn gen(r: &mut Rng, _: u32) -> Self { (((r.next() as u128) << 64) | r.next() as u128).into() } }
impl Ty for IpAddr { fn sch() -> Sch { Sch::Enum(vec![(4, Var::Deleg(Box::new(Ipv4Addr::sch()))), (6, Var::Deleg(Box::new(Ipv6Addr::sch())))], false) } fn val(&self, b: usize) -> V { match *self { IpAddr::V4(ref x) => V::E(4, vec![x.val(b)]), IpAddr::V6(ref x) => V::E(6, vec![x.val(b)]) } } }
impl Gen for IpAddr { fn gen(r: &mut Rng, d: u32) -> Self { if r.chance(1, 2) { IpAddr::V4(Gen::gen(r, d)) } else { IpAddr::V6(Gen::gen(r, d)) } } }
impl Ty for SocketAddrV4 { fn sch() -> Sch { Sch::Rec(vec![(1, Ipv4Addr::sch()), (2, Sch::U(16))]) } fn val(&self, b: usize) -> V { V::L(vec![self.ip().val(b), V::N(self.port() as i128)]) } }
impl Gen for SocketAddrV4 { fn gen(r: &mut Rng, d: u32) -> Self { SocketAddrV4::new(Gen::gen(r, d), Gen::gen(r, d)) } }
impl Ty for SocketAddrV6 { fn sch() -> Sch { Sch::Rec(vec![(1, Ipv6Addr::sch()), (2, Sch::U(16)), (3, Sch::U(32)), (4, Sch::U(32))]) } fn val(&self, b: usize) -> V { V::L(vec![self.ip().val(b), V::N(self.port() as i128), V::N(self.flowinfo() as i128), V::N(self.scope_id() as i128)]) } }
impl Gen for SocketAddrV6 { fn gen(r: &mut Rng, d: u32) -> Self { SocketAddrV6::new(Gen::gen(r, d), Gen::gen(r, d), Gen::gen(r, d), Gen::gen(r, d)) } }
impl Ty for SocketAddr { fn sch() -> Sch { Sch::Enum(vec![(4, Var::Deleg(Box::new(SocketAddrV4::sch()))), (6, Var::Deleg(Box::new(SocketAddrV6::sch())))], false) } fn val(&self, b: usize) -> V { match *self { SocketAddr::V4(ref x) => V::E(4, vec![x.val(b)]), SocketAddr::V6(ref x) => V::E(6, vec![x.val(b)]) } } }
impl Gen for SocketAddr { fn gen(r: &mut Rng, d: u32) -> Self { if r.chance(1, 2) { SocketAddr::V4(Gen::gen(r, d)) } else { SocketAddr::V6(Gen::gen(r, d)) } } }
impl Ty for Duration { fn sch() -> Sch { Sch::Dur } fn val(&self, _: usize) -> V { V::L(vec![V::N(self.as_secs() as i128), V::N(self.subsec_nanos() as i128)]) } }
impl Gen for Duration { fn gen(r: &mut Rng, _: u32) -> Self { let n = match r.below(4) { 0 => 999_999_999, 1 => 0, _ => r.below(1_000_000_000) as u32 }; Duration::new(r.int(), n) } }
impl<X: Ty, Y: Ty> Ty for Result<X, Y> { fn sch() -> Sch { Sch::Enum(vec![(1, Var::Deleg(Box::new(X::sch()))), (2, Var::Deleg(Box::new(Y::sch())))], false) } fn val(&self, b: usize) -> V { match *self { Ok(ref x) => V::E(1, vec![x.val(b)]), Err(ref x) => V::E(2, vec![x.val(b)]) } } }
impl<X: Gen, Y: Gen> Gen for Result<X, Y> { fn gen(r: &mut Rng, d: u32) -> Self { let d = d.saturating_sub(1); if r.chance(1, 2) { Ok(X::gen(r, d)) } else { Err(Y::gen(r, d)) } } }
fn uv(f: &UnknownFields, b: usize) -> Vec<(u8, V)> {
    f.0.iter().map(|&(t, ref x)| (t, match *x {
        UnknownField::Integer(n) => V::N(n as i128), UnknownField::Blob(ref c) => c.val(b),
        UnknownField::Struct(ref s) => V::U(uv(s, b)), UnknownField::Enum(d, ref s) => V::UE(d, uv(s, b)),
    })).collect()
}
fn ug(r: &mut Rng, d: u32, lo: u8) -> UnknownFields<'static> {
    let n = r.us(4); let mut v = vec![];
    for _ in 0..n {
        let t = lo + r.below((64 - lo) as u64) as u8;
        v.push((t, match r.below(if d == 0 { 4 } else { 7 }) { 0 | 1 => UnknownField::Integer(r.int()), 2 | 3 => UnknownField::Blob(Cow::Owned(r.content())), 4 | 5 => UnknownField::Struct(ug(r, d - 1, 1)), _ => UnknownField::Enum(r.int(), ug(r, d - 1, 1)) }));
    }
    UnknownFields(v)
}
impl<'a> Ty for UnknownFields<'a> { fn sch() -> Sch { Sch::Unk } fn val(&self, b: usize) -> V { V::U(uv(self, b)) } }
impl<'a> Gen for UnknownFields<'a> { fn gen(r: &mut Rng, d: u32) -> Self { ug(r, d, 1) } }

// types declared through the macro
pub use mac::*;
pub mod mac {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Plain { pub a: u32, pub b: Option<String>, pub c: Vec<i16> }
    fourleaf_retrofit!(struct Plain : {} {} { |_context, this|
        [1] a: u32 = this.a, [2] b: Option<String> = this.b, [5] c: Vec<i16> = this.c,
        { Ok(Plain { a: a, b: b, c: c }) } });
    impl Ty for Plain { fn sch() -> Sch { Sch::Rec(vec![(1, u32::sch()), (2, Option::<String>::sch()), (5, Vec::<i16>::sch())]) } fn val(&self, b: usize) -> V { V::L(vec![self.a.val(b), self.b.val(b), self.c.val(b)]) } }
    impl Gen for Plain { fn gen(r: &mut Rng, d: u32) -> Self { Plain { a: Gen::gen(r, d), b: Gen::gen(r, d), c: Gen::gen(r, d) } } }

    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Shape { Unit, Tup(u8, i64), Rec { s: String, o: Option<bool>, l: Vec<u8> }, Del(Plain), DelBytes([u8; 3]), DelSeq(Vec<u16>), Nest(Box<Option<Shape>>) }
    fourleaf_retrofit!(enum Shape : {} {} { |_context|
        [0] Shape::Unit => { { Ok(Shape::Unit) } },
        [1] Shape::Tup(a, b) => { [1] a: u8 = a, [2] b: i64 = b, { Ok(Shape::Tup(a, b)) } },
        [200] Shape::Rec { ref s, ref o, ref l } => { [3] s: String = s, [4] o: Option<bool> = o, [63] l: Vec<u8> = l, { Ok(Shape::Rec { s: s, o: o, l: l }) } },
        [3] Shape::Del(ref p) => { (*) p: Plain = p, { Ok(Shape::Del(p)) } },
        [4] Shape::DelBytes(ref p) => { (*) p: [u8; 3] = p, { Ok(Shape::DelBytes(p)) } },
        [5] Shape::DelSeq(ref p) => { (*) p: Vec<u16> = p, { Ok(Shape::DelSeq(p)) } },
        [18446744073709551615] Shape::Nest(ref p) => { [1] p: Box<Option<Shape>> = p, { Ok(Shape::Nest(p)) } },
    });
    impl Ty for Shape {
        fn sch() -> Sch { Sch::Enum(vec![(0, Var::Rec(vec![])), (1, Var::Rec(vec![(1, Sch::U(8)), (2, Sch::I(64))])), (200, Var::Rec(vec![(3, Sch::Str), (4, Sch::Opt(Box::new(Sch::Bool))), (63, Sch::Bytes)])),
            (3, Var::Deleg(Box::new(Plain::sch()))), (4, Var::Deleg(Box::new(Sch::ByteArr(3)))), (5, Var::Deleg(Box::new(Vec::<u16>::sch()))), (u64::MAX, Var::Rec(vec![(1, Sch::Opt(Box::new(Sch::Lazy(Shape::sch))))]))], false) }
        fn val(&self, b: usize) -> V { match *self { Shape::Unit => V::E(0, vec![]), Shape::Tup(x, y) => V::E(1, vec![x.val(b), y.val(b)]), Shape::Rec { ref s, ref o, ref l } => V::E(200, vec![s.val(b), o.val(b), l.val(b)]),
            Shape::Del(ref p) => V::E(3, vec![p.val(b)]), Shape::DelBytes(ref p) => V::E(4, vec![p.val(b)]), Shape::DelSeq(ref p) => V::E(5, vec![p.val(b)]), Shape::Nest(ref p) => V::E(u64::MAX, vec![p.val(b)]) } }
    }
    impl Gen for Shape { fn gen(r: &mut Rng, d: u32) -> Self { let e = d.saturating_sub(1); match r.below(if d == 0 { 3 } else { 7 }) { 0 => Shape::Unit, 1 => Shape::Tup(Gen::gen(r, e), Gen::gen(r, e)), 2 => Shape::Rec { s: Gen::gen(r, e), o: Gen::gen(r, e), l: Gen::gen(r, e) }, 3 => Shape::Del(Gen::gen(r, e)), 4 => Shape::DelBytes(Gen::gen(r, e)), 5 => Shape::DelSeq(Gen::gen(r, e)), _ => Shape::Nest(Gen::gen(r, e)) } } }

    macro_rules! deleg { ($n:ident, $t:ty) => {
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct $n(pub $t);
        fourleaf_retrofit!(struct $n : {} {} { |_context, this| (*) it: $t = this.0, { Ok($n(it)) } });
        impl Ty for $n { fn sch() -> Sch { Sch::Deleg(Box::new(<$t>::sch())) } fn val(&self, b: usize) -> V { self.0.val(b) } }
        impl Gen for $n { fn gen(r: &mut Rng, d: u32) -> Self { $n(Gen::gen(r, d)) } }
    } }
    deleg!(DPlain, Plain); deleg!(DInt, i32); deleg!(DStr, String); deleg!(DVec, Vec<u64>); deleg!(DOpt, Option<u8>); deleg!(DUnit, ()); deleg!(DDeleg, DInt); deleg!(DEnum, Shape); deleg!(DBytes, Vec<u8>);

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Keep { pub a: u32, pub v: Vec<u8>, pub unknown: UnknownFields<'static> }
    fourleaf_retrofit!(struct Keep : {} {
        impl<R: ::std::io::Read, STYLE> fourleaf::de::Deserialize<R, STYLE> for Keep where UnknownFields<'static>: fourleaf::de::Deserialize<R, STYLE> } { |_context, this|
        [1] a: u32 = this.a, [2] v: Vec<u8> = this.v, (?) unknown: UnknownFields<'static> = this.unknown, { Ok(Keep { a: a, v: v, unknown: unknown }) } });
    impl Ty for Keep { fn sch() -> Sch { Sch::RecU(vec![(1, Sch::U(32)), (2, Sch::Bytes)]) } fn val(&self, b: usize) -> V { V::L(vec![self.a.val(b), self.v.val(b), self.unknown.val(b)]) } }
    impl Gen for Keep { fn gen(r: &mut Rng, d: u32) -> Self { Keep { a: Gen::gen(r, d), v: Gen::gen(r, d), unknown: ug(r, d, 3) } } }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum KeepE { One(u16), Unknown(u64, Copied<UnknownFields<'static>>) }
    fourleaf_retrofit!(enum KeepE : {} {} { |_context|
        [1] KeepE::One(x) => { [1] x: u16 = x, { Ok(KeepE::One(x)) } },
        (?) KeepE::Unknown(d, ref fields) => { (=) d: u64 = d, (?) fields: Copied<UnknownFields<'static>> = fields, { Ok(KeepE::Unknown(d, fields)) } },
    });
    impl Ty for KeepE { fn sch() -> Sch { Sch::Enum(vec![(1, Var::Rec(vec![(1, Sch::U(16))]))], true) } fn val(&self, b: usize) -> V { match *self { KeepE::One(x) => V::E(1, vec![x.val(b)]), KeepE::Unknown(d, ref f) => V::E(d, vec![f.0.val(b)]) } } }
    impl Gen for KeepE { fn gen(r: &mut Rng, d: u32) -> Self { if r.chance(1, 3) { KeepE::One(Gen::gen(r, d)) } else { let k = loop { let k = r.int(); if k != 1 { break k } }; KeepE::Unknown(k, Gen::gen(r, d)) } } }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum KeepT { A, Mix(u8, Option<i32>, Copied<UnknownFields<'static>>), Plain { x: Vec<u16> }, Other(u64, u16, Option<String>, Copied<UnknownFields<'static>>) }
    fourleaf_retrofit!(enum KeepT : {} {} { |_context|
        [1] KeepT::A => { { Ok(KeepT::A) } },
        [2] KeepT::Mix(ref a, ref b, ref u) => { [1] a: u8 = a, [4] b: Option<i32> = b, (?) u: Copied<UnknownFields<'static>> = u, { Ok(KeepT::Mix(a, b, u)) } },
        [3] KeepT::Plain { ref x } => { [2] x: Vec<u16> = x, { Ok(KeepT::Plain { x: x }) } },
        (?) KeepT::Other(d, ref n, ref s, ref u) => { (=) d: u64 = d, [5] n: u16 = n, [2] s: Option<String> = s, (?) u: Copied<UnknownFields<'static>> = u, { Ok(KeepT::Other(d, n, s, u)) } },
    });
    fn without(u: Copied<UnknownFields<'static>>, tags: &[u8]) -> Copied<UnknownFields<'static>> { let mut u = u; u.0 .0.retain(|f| !tags.contains(&f.0)); u }
    impl Ty for KeepT { fn sch() -> Sch { Sch::Enum(vec![(1, Var::Rec(vec![])), (2, Var::RecU(vec![(1, Sch::U(8)), (4, Sch::Opt(Box::new(Sch::I(32))))])), (3, Var::Rec(vec![(2, Sch::Vec(Box::new(Sch::U(16))))])), (0, Var::Catch(vec![(5, Sch::U(16)), (2, Sch::Opt(Box::new(Sch::Str)))]))], true) }
        fn val(&self, b: usize) -> V { match *self { KeepT::A => V::E(1, vec![]), KeepT::Mix(a, ref o, ref u) => V::E(2, vec![a.val(b), o.val(b), u.0.val(b)]), KeepT::Plain { ref x } => V::E(3, vec![x.val(b)]), KeepT::Other(d, n, ref s, ref u) => V::E(d, vec![n.val(b), s.val(b), u.0.val(b)]) } } }
    impl Gen for KeepT { fn gen(r: &mut Rng, d: u32) -> Self { match r.below(4) { 0 => KeepT::A, 1 => KeepT::Mix(Gen::gen(r, d), Gen::gen(r, d), without(Gen::gen(r, d), &[1, 4])), 2 => KeepT::Plain { x: Gen::gen(r, d) },
        _ => { let k = loop { let k = r.int(); if k < 1 || k > 3 { break k } }; KeepT::Other(k, Gen::gen(r, d), Gen::gen(r, d), without(Gen::gen(r, d), &[5, 2])) } } } }

    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Tree { pub kids: Vec<Tree>, pub v: u8 }
    fourleaf_retrofit!(struct Tree : {} {} { |_context, this| [1] kids: Vec<Tree> = this.kids, [2] v: u8 = this.v, { Ok(Tree { kids: kids, v: v }) } });
    impl Ty for Tree { fn sch() -> Sch { Sch::Rec(vec![(1, Sch::Vec(Box::new(Sch::Lazy(Tree::sch)))), (2, Sch::U(8))]) } fn val(&self, b: usize) -> V { V::L(vec![V::L(self.kids.iter().map(|k| k.val(b)).collect()), self.v.val(b)]) } }
    impl Gen for Tree { fn gen(r: &mut Rng, d: u32) -> Self { let n = if d == 0 { 0 } else { r.us(3) }; Tree { kids: (0..n).map(|_| Tree::gen(r, d - 1)).collect(), v: Gen::gen(r, d) } } }

    /// all kinds of fields in one struct
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Wide { pub b: bool, pub c: char, pub arr: [u16; 3], pub by: [u8; 5], pub m: BTreeMap<u8, String>, pub oo: Option<Option<u8>>, pub t: (u8, String), pub e: Shape, pub d: DVec, pub u: (), pub du: Duration, pub ip: IpAddr }
    fourleaf_retrofit!(struct Wide : {} {} { |_context, this|
        [1] b: bool = this.b, [2] c: char = this.c, [3] arr: [u16; 3] = this.arr, [4] by: [u8; 5] = this.by, [5] m: BTreeMap<u8, String> = this.m, [6] oo: Option<Option<u8>> = this.oo,
        [7] t: (u8, String) = this.t, [8] e: Shape = this.e, [9] d: DVec = this.d, [10] u: () = this.u, [11] du: Duration = this.du, [63] ip: IpAddr = this.ip,
        { Ok(Wide { b: b, c: c, arr: arr, by: by, m: m, oo: oo, t: t, e: e, d: d, u: u, du: du, ip: ip }) } });
    impl Ty for Wide {
        fn sch() -> Sch { Sch::Rec(vec![(1, Sch::Bool), (2, Sch::Char), (3, <[u16; 3]>::sch()), (4, Sch::ByteArr(5)), (5, BTreeMap::<u8, String>::sch()), (6, Option::<Option<u8>>::sch()), (7, <(u8, String)>::sch()), (8, Shape::sch()), (9, DVec::sch()), (10, Sch::Unit), (11, Sch::Dur), (63, IpAddr::sch())]) }
        fn val(&self, b: usize) -> V { V::L(vec![self.b.val(b), self.c.val(b), self.arr.val(b), self.by.val(b), self.m.val(b), self.oo.val(b), self.t.val(b), self.e.val(b), self.d.val(b), self.u.val(b), self.du.val(b), self.ip.val(b)]) }
    }
    impl Gen for Wide { fn gen(r: &mut Rng, d: u32) -> Self { Wide { b: Gen::gen(r, d), c: Gen::gen(r, d), arr: Gen::gen(r, d), by: Gen::gen(r, d), m: Gen::gen(r, d), oo: Gen::gen(r, d), t: Gen::gen(r, d), e: Gen::gen(r, d), d: Gen::gen(r, d), u: (), du: Gen::gen(r, d), ip: Gen::gen(r, d) } } }

    #[derive(Debug, PartialEq)]
    pub struct Lend<'a> { pub n: u32, pub s: &'a str, pub b: Option<&'a [u8]>, pub c: Cow<'a, str>, pub l: Vec<&'a [u8]> }
    fourleaf_retrofit!(struct Lend<'a> : { impl<'a> fourleaf::ser::Serialize for Lend<'a> } {
        impl<'a, R: ::std::io::Read, STYLE> fourleaf::de::Deserialize<R, STYLE> for Lend<'a> where &'a str: fourleaf::de::Deserialize<R, STYLE>, &'a [u8]: fourleaf::de::Deserialize<R, STYLE>, Cow<'a, str>: fourleaf::de::Deserialize<R, STYLE> } { |_context, this|
        [1] n: u32 = this.n, [2] s: &'a str = this.s, [3] b: Option<&'a [u8]> = this.b, [4] c: Cow<'a, str> = this.c, [5] l: Vec<&'a [u8]> = this.l,
        { Ok(Lend { n: n, s: s, b: b, c: c, l: l }) } });
}
