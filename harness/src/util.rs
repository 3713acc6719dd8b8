use std::collections::HashSet;
pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// an integer with the interesting boundaries over-represented
    pub fn int(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => { let k = self.range(1, 9) * 7; (1u64 << k).wrapping_add(self.below(3)).wrapping_sub(1) }
            2 => *self.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 62]),
            3 => *self.pick(&[127, 128, 255, 256, 257, 65535, 65536, u32::MAX as u64, 1 << 32, i32::MAX as u64, 1 << 31, 0x7FFF, 0x8000, 254, 510, 511, 512, 0x1FFFF, 0x1FFFE, 0x1FFFFFFFF, 0x1FFFFFFFE]),
            4 => self.below(300),
            _ => { let b = self.range(1, 64); self.next() >> (64 - b) }
        }
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = match self.below(12) { 0 => 0, 1 => 1, 2 => max, 3 => max / 2, _ => self.us(max + 1) };
        let mode = self.below(4);
        (0..n).map(|_| match mode { 0 => self.next() as u8, 1 => b'a' + self.below(26) as u8,
            2 => *self.pick(&[0u8, 0x40, 0x80, 0xC0, 0x41, 0x81, 0xC1, 0x01, 0xFF, 0x05]), _ => (self.next() as u8) | 0x40 }).collect()
    }
    /// mostly short, sometimes around 255..300, rarely bigger
    pub fn content(&mut self) -> Vec<u8> {
        let max = match self.below(16) { 0 => 300, 1 => 130, 2 => 257, 3 => if self.chance(1, 6) { 20000 } else { 40 }, _ => 12 };
        self.bytes(max)
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) { s.push_str(&format!("{:02X}", x)); }
    if b.len() > 400 { s.push_str(&format!("...({} bytes)", b.len())); }
    s
}
/// state of one case
pub struct G {
    pub r: Rng,
    pub idx: u64,
    pub verbose: bool,
    pub desc: Vec<String>,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub allow_sample: bool,
}
impl G {
    /// registers the input of this case
    pub fn case(&mut self, tag: &str, b: &[u8]) {
        if b.len() > 0 { self.seen.insert(hash(b) ^ hash(tag.as_bytes())); }
        if self.verbose { let d = format!("{}: {}", tag, hex(b)); println!("  {}", d); self.desc.push(d); }
        if self.allow_sample && self.samples.len() < 3 && b.len() > 0 { self.samples.push(format!("{}: {}", tag, hex(b))); self.allow_sample = false; }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) { if self.verbose { let s = f(); println!("  {}", s); self.desc.push(s); } }
}
#[macro_export]
macro_rules! ck { ($c:expr, $($m:tt)*) => { if !($c) { return Err(format!($($m)*)); } } }
#[macro_export]
macro_rules! eq { ($a:expr, $b:expr, $($m:tt)*) => { { let a = &$a; let b = &$b; if *a != *b { return Err(format!("{}: expected {:?}, got {:?}", format!($($m)*), b, a)); } } } }
