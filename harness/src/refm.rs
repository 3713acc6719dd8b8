//! Independent model of the fourleaf element grammar.
use crate::util::Rng;

pub const F_IO: u8 = 1; pub const F_OVERFLOW: u8 = 2; pub const F_OVERWIDE: u8 = 4; pub const F_TRUNC: u8 = 8; pub const F_LONG: u8 = 16;

#[derive(Clone, Debug, PartialEq)]
pub enum El { Int(u8, u64), Blob(u8, Vec<u8>), Struct(u8), Enum(u8, u64), End, Doc, Exc(Vec<u8>), Pad }

/// minimal encoding
pub fn enc_int(out: &mut Vec<u8>, v: u64) {
    let mut v = v as u128;
    loop { let b = (v % 128) as u8; v /= 128; if v == 0 { out.push(b); return; } out.push(b + 128); }
}
pub fn enc_int_x(out: &mut Vec<u8>, v: u64, extra: usize) {
    enc_int(out, v);
    if extra > 0 { let n = out.len(); out[n - 1] |= 0x80; for _ in 1..extra { out.push(0x80); } out.push(0); }
}
fn ii(out: &mut Vec<u8>, v: u64, dn: &mut Option<&mut Rng>) {
    let mut x = 0;
    if let Some(ref mut r) = *dn {
        if r.chance(1, 3) {
            let mut t = vec![]; enc_int(&mut t, v);
            x = match r.below(8) { 0 => 257 - t.len(), 1 => 256 - t.len(), 2 => 20, _ => 1 + r.us(10) };
        }
    }
    enc_int_x(out, v, x)
}
pub fn enc_el(out: &mut Vec<u8>, e: &El, dn: &mut Option<&mut Rng>) {
    match *e {
        El::Int(t, v) => { out.push(0x40 | t); ii(out, v, dn) }
        El::Blob(t, ref d) => { out.push(0x80 | t); ii(out, d.len() as u64, dn); out.extend_from_slice(d) }
        El::Struct(t) => out.push(0xC0 | t),
        El::Enum(t, v) => { out.push(t); ii(out, v, dn) }
        El::End => out.push(0), El::Doc => out.push(0x40),
        El::Exc(ref d) => { out.push(0x80); ii(out, d.len() as u64, dn); out.extend_from_slice(d) }
        El::Pad => out.push(0xC0),
    }
}
pub fn enc(els: &[El]) -> Vec<u8> { let mut o = vec![]; for e in els { enc_el(&mut o, e, &mut None); } o }
pub fn enc_dn(els: &[El], r: &mut Rng) -> Vec<u8> { let mut o = vec![]; for e in els { enc_el(&mut o, e, &mut Some(r)); } o }

/// what an integer at `off` denotes: (value, next offset) or the set of admissible errors
pub fn dec_int(b: &[u8], off: usize) -> Result<(u64, usize), u8> {
    let mut v: u128 = 0; let mut over = false;
    for k in 0..257 {
        if off + k >= b.len() { return Err(F_IO | if over { F_OVERFLOW } else { 0 }); }
        let g = (b[off + k] & 0x7F) as u128;
        if g != 0 { if 7 * k >= 64 { over = true } else { v += g << (7 * k); if v > u64::MAX as u128 { over = true } } }
        if b[off + k] < 0x80 { return if over { Err(F_OVERFLOW) } else { Ok((v as u64, off + k + 1)) }; }
    }
    Err(F_OVERWIDE | if over { F_OVERFLOW } else { 0 })
}
#[derive(Clone, Debug, PartialEq)]
pub enum RV { Int(u64), Blob(usize, u64), Struct, Enum(u64), End, Doc, Graceful, Exc(usize, u64), Pad }
#[derive(Clone, Debug)]
pub struct REl { pub tag: u8, pub at: usize, pub end: usize, pub fdepth: u64, pub v: RV }
/// reference state of a pull parser; `base` is the stream position of offset 0
#[derive(Clone)]
pub struct Ref<'a> { pub b: &'a [u8], pub off: usize, pub depth: u64, pub eof: bool, pub graceful: bool, pub base: u64, pub pend: Option<u64> }
impl<'a> Ref<'a> {
    pub fn new(b: &'a [u8]) -> Self { Ref { b, off: 0, depth: 0, eof: false, graceful: false, base: 0, pend: None } }
    pub fn pos(&self) -> u64 { self.base.wrapping_add(self.off as u64) }
    fn blob(&mut self, off: usize) -> Result<(usize, u64), u8> {
        let (len, o) = dec_int(self.b, off)?;
        let p = self.base as u128 + o as u128;
        if p + len as u128 > u64::MAX as u128 { return Err(F_LONG | F_IO) }
        self.off = o; self.pend = Some(len);
        Ok((o, len))
    }
    /// bytes consumed of the pending blob so far are accounted by `off` moving
    pub fn next(&mut self) -> Result<REl, u8> {
        if self.eof { return Ok(REl { tag: 0, at: self.off, end: self.off, fdepth: 0, v: RV::Doc }); }
        if let Some(n) = self.pend {
            if (self.b.len() - self.off) as u64 >= n { self.off += n as usize; self.pend = None; } else { return Err(F_TRUNC); }
        }
        let at = self.off;
        if self.base as u128 + self.off as u128 >= u64::MAX as u128 { return Err(F_IO | F_LONG); }
        if at >= self.b.len() {
            if self.graceful { self.eof = true; self.depth = 0; return Ok(REl { tag: 0, at, end: at, fdepth: 0, v: RV::Graceful }); }
            return Err(F_IO);
        }
        let d = self.b[at]; let tag = d & 63; let fdepth = if self.depth == 0 { 1 } else { self.depth };
        let mut s = at + 1;
        if tag == 0 {
            let v = match d >> 6 {
                0 => { self.depth = self.depth.saturating_sub(1); RV::End }
                1 => { self.depth = 0; self.eof = true; RV::Doc }
                2 => { let (o, n) = self.blob(s)?; s = o; RV::Exc(o, n) }
                _ => RV::Pad,
            };
            self.off = s;
            return self.lim(REl { tag: 0, at, end: s, fdepth: 0, v });
        }
        self.depth = fdepth;
        let v = match d >> 6 {
            0 => { let (v, o) = dec_int(self.b, s)?; s = o; self.depth += 1; RV::Enum(v) }
            1 => { let (v, o) = dec_int(self.b, s)?; s = o; RV::Int(v) }
            2 => { let (o, n) = self.blob(s)?; s = o; RV::Blob(o, n) }
            _ => { self.depth += 1; RV::Struct }
        };
        self.off = s;
        self.lim(REl { tag, at, end: s, fdepth, v })
    }
    fn lim(&self, e: REl) -> Result<REl, u8> {
        if self.base as u128 + e.end as u128 > u64::MAX as u128 { Err(F_IO | F_LONG) } else { Ok(e) }
    }
}
pub fn gen_el(r: &mut Rng, deep: &mut u32) -> El {
    let tag = if r.chance(1, 4) { *r.pick(&[1u8, 63, 62, 32]) } else { 1 + r.below(63) as u8 };
    match r.below(20) {
        0..=4 => El::Int(tag, r.int()),
        5..=8 => El::Blob(tag, r.content()),
        9..=11 => { *deep += 1; El::Struct(tag) }
        12..=13 => { *deep += 1; El::Enum(tag, r.int()) }
        14..=16 => if *deep > 0 { *deep -= 1; El::End } else { El::Int(tag, r.below(5)) },
        17 => El::Pad,
        18 => El::Exc(r.content()),
        _ => if r.chance(1, 3) { El::End } else { El::Pad },
    }
}
/// any sequence of elements
pub fn gen_els(r: &mut Rng, n: usize) -> Vec<El> {
    let mut d = 0; let mut v: Vec<El> = (0..n).map(|_| gen_el(r, &mut d)).collect();
    if r.chance(1, 5) && n > 0 { let i = r.us(n); v[i] = El::Doc; }
    v
}
/// a balanced body: fields only, closed containers; optionally padding and exceptions
pub fn gen_body(r: &mut Rng, out: &mut Vec<El>, n: usize, depth: usize, noise: bool) {
    for _ in 0..n {
        if noise && r.chance(1, 6) { out.push(El::Pad) }
        if noise && r.chance(1, 12) { out.push(El::Exc(r.content())) }
        let tag = 1 + r.below(63) as u8;
        match r.below(if depth == 0 { 5 } else { 9 }) {
            0..=2 => out.push(El::Int(tag, r.int())),
            3..=4 => out.push(El::Blob(tag, r.content())),
            5..=6 => { out.push(El::Struct(tag)); let k = r.us(4); gen_body(r, out, k, depth - 1, noise); out.push(El::End) }
            _ => { out.push(El::Enum(tag, r.int())); let k = r.us(4); gen_body(r, out, k, depth - 1, noise); out.push(El::End) }
        }
    }
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.us(3) {
        if b.is_empty() { b.push(r.next() as u8); continue; }
        let i = r.us(b.len());
        match r.below(7) {
            0 => b[i] = r.next() as u8,
            1 => b[i] ^= 1 << r.below(8),
            2 => { b.remove(i); }
            3 => b.insert(i, *r.pick(&[0u8, 0x40, 0x80, 0xC0, 0xFF, 0x7F, 0x41, 0x81])),
            4 => { b.truncate(i); }
            5 => { let j = i + r.us((b.len() - i).min(8)); let s: Vec<u8> = b[i..j].to_vec(); let k = r.us(b.len()); for (x, y) in s.into_iter().enumerate() { b.insert(k + x, y); } }
            _ => { let c = r.bytes(4); for y in c { b.insert(i, y); } }
        }
    }
}
