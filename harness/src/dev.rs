//! Byte devices with adverse (but legal) behaviour.
use crate::util::Rng;
use std::io::{self, BufRead, ErrorKind, Read, Seek, SeekFrom, Write};

#[derive(Clone, Debug)]
pub struct Dev {
    pub head: Vec<u8>,
    /// a virtual stretch of zero bytes between head and tail
    pub gap: u64,
    pub tail: Vec<u8>,
    pub pos: u64,
    /// most bytes moved per call; 0: unlimited
    pub chunk: usize,
    /// probability (in 1/16) that a call is interrupted
    pub intr: u64,
    pub rng: u64,
    /// number of input calls
    pub calls: u64,
    pub wcalls: u64,
    pub no_seek: bool,
    /// calls (read or seek) until one fails; 0: never
    pub fail_in: u64,
    buf: Vec<u8>,
}
impl Dev {
    pub fn new(data: Vec<u8>) -> Dev {
        Dev { head: data, gap: 0, tail: vec![], pos: 0, chunk: 0, intr: 0, rng: 1, calls: 0, wcalls: 0, no_seek: false, fail_in: 0, buf: vec![] }
    }
    pub fn adverse(data: Vec<u8>, r: &mut Rng) -> Dev {
        let mut d = Dev::new(data);
        d.chunk = *r.pick(&[0, 1, 2, 3, 7, 100]);
        d.intr = *r.pick(&[0, 0, 2, 6]);
        d.rng = r.next();
        d
    }
    fn fault(&mut self) -> io::Result<()> {
        if self.fail_in > 0 { self.fail_in -= 1; if self.fail_in == 0 { return Err(io::Error::new(ErrorKind::Other, "transient fault")); } }
        Ok(())
    }
    fn size(&self) -> u64 { self.head.len() as u64 + self.gap + self.tail.len() as u64 }
    fn rnd(&mut self) -> u64 { let mut r = Rng(self.rng); let v = r.next(); self.rng = r.0; v }
    fn at(&self, p: u64) -> u8 {
        let h = self.head.len() as u64;
        if p < h { self.head[p as usize] } else if p - h < self.gap { 0 } else { self.tail[(p - h - self.gap) as usize] }
    }
    fn lim(&mut self, n: usize) -> usize { if self.chunk == 0 || n == 0 { n } else { let c = 1 + (self.rnd() as usize) % self.chunk; n.min(c) } }
}
impl Read for Dev {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        self.fault()?;
        if self.intr > 0 && self.rnd() % 16 < self.intr { return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")); }
        let avail = self.size().saturating_sub(self.pos);
        let n = self.lim(if (b.len() as u64) < avail { b.len() } else { avail as usize });
        let h = self.head.len() as u64;
        if self.pos + n as u64 <= h { b[..n].copy_from_slice(&self.head[self.pos as usize..self.pos as usize + n]); }
        else { for i in 0..n { b[i] = self.at(self.pos + i as u64); } }
        self.pos += n as u64;
        Ok(n)
    }
}
impl BufRead for Dev {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.calls += 1;
        let avail = self.size().saturating_sub(self.pos).min(4096) as usize;
        let n = self.lim(avail);
        self.buf = (0..n).map(|i| self.at(self.pos + i as u64)).collect();
        Ok(&self.buf)
    }
    fn consume(&mut self, n: usize) { self.pos += n as u64; }
}
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.wcalls += 1;
        if self.intr > 0 && self.rnd() % 16 < self.intr { return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")); }
        let n = self.lim(b.len());
        let p = self.pos as usize;
        if self.gap > 0 {
            // counted only
            self.pos += n as u64; return Ok(n);
        }
        while self.head.len() < p + n { self.head.push(0); }
        self.head[p..p + n].copy_from_slice(&b[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Seek for Dev {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        self.fault()?;
        if self.no_seek { return Err(io::Error::new(ErrorKind::Other, "not seekable")); }
        let t: i128 = match w { SeekFrom::Start(p) => p as i128, SeekFrom::End(o) => self.size() as i128 + o as i128, SeekFrom::Current(o) => self.pos as i128 + o as i128 };
        if t < 0 || t > u64::MAX as i128 { return Err(io::Error::new(ErrorKind::InvalidInput, "seek out of range")); }
        self.pos = t as u64;
        Ok(self.pos)
    }
}
