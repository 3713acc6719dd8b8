//! Bounded search for inputs on which the real fourleaf code breaks a property.
//!   engine run PROP --seed N --mult M --budget SECONDS --out FILE [--threads N]
//!   engine case PROP SUB IDX --seed N        replays one case
#[macro_use]
extern crate fourleaf;
#[macro_use]
mod util;
mod dev;
mod hprops;
mod refm;
mod sprops;
mod ty;
mod walk;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

/// counts what the running case holds, and refuses absurd requests
pub struct Count;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CUR: Cell<(u64, u64)> = const { Cell::new((u64::MAX, 0)) };
    static PMSG: RefCell<String> = RefCell::new(String::new());
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 32 { return std::ptr::null_mut(); }
        let _ = LIVE.try_with(|x| { let n = x.get() + l.size() as i64; x.set(n); let _ = PEAK.try_with(|p| if n > p.get() { p.set(n) }); });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as i64)); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 32 { return std::ptr::null_mut(); }
        let _ = LIVE.try_with(|x| { let n = x.get() + l.size() as i64; x.set(n); let _ = PEAK.try_with(|p| if n > p.get() { p.set(n) }); });
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 1 << 32 { return std::ptr::null_mut(); }
        let _ = LIVE.try_with(|x| { let n = x.get() + n as i64 - l.size() as i64; x.set(n); let _ = PEAK.try_with(|p| if n > p.get() { p.set(n) }); });
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Count = Count;
/// most bytes allocated at once while `f` runs
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let l = LIVE.with(|x| x.get());
    PEAK.with(|x| x.set(l));
    let r = f();
    (r, (PEAK.with(|x| x.get()) - l).max(0) as u64)
}

pub struct Sub { pub name: &'static str, pub n: u64, pub exhaustive: bool, pub f: fn(&mut G) -> R }
macro_rules! subs { ($($name:ident $n:expr, $e:expr, $f:path;)*) => { vec![$(Sub { name: stringify!($name), n: $n, exhaustive: $e, f: $f }),*] } }
fn table(p: &str) -> Vec<Sub> {
    use hprops::*;
    use sprops::*;
    match p {
        "C01" => subs! { strings 104208, true, c01_exh; values 60000, false, c01_enc; random 60000, false, c01_rnd; },
        "C02" => subs! { accessors 60000, false, c02; },
        "C03" => subs! { descriptors 256, true, c03; },
        "C04" => subs! { strings 86528, true, c04_exh; documents 40000, false, c04_doc; mutated 60000, false, c04_mut; elements 15000, false, c04_els; },
        "C05" => subs! { blobs 60000, false, c05; sparse 20000, false, c05_sparse; seek_vs_read 30000, false, c05_pair; retry 20000, false, c05_retry; },
        "C06" => subs! { depth 60000, false, c06_walk; skip 40000, false, c06_skip; noise 30000, false, c06_noise; },
        "C07" => subs! { end 60000, false, c07; input_calls 40000, false, c07_io; },
        "C08" => subs! { prefixes 60000, false, c08_walk; blobs 40000, false, c08_blob; types 40000, false, c08_types; },
        "C09" => subs! { view 60000, false, c09; },
        "C10" => subs! { read 40000, false, c10_read; write 40000, false, c10_write; sparse 20000, false, c10_sparse; far 20000, false, c10_far; },
        "C11" => subs! { bytes 60000, false, c11; align 20000, false, c11_align; },
        "C12" => subs! { alloc 40000, false, c12_alloc; dynamic 40000, false, c12_dyn; },
        "C13" => subs! { copy 50000, false, c13_copy; partial 30000, false, c13_partial; },
        "C14" => subs! { read 50000, false, c14_read; write 40000, false, c14_write; lengths 30000, false, c14_len; },
        "C15" => subs! { exceptions 50000, false, c15; },
        "C16" => subs! { every 8000, false, c16_every; round 40000, false, c16_round; sequence 20000, false, c16_cat; big 300, false, c16_big; },
        "C17" => subs! { exact 40000, false, c17_exact; random 40000, false, c17_random; before 3000, false, c17_before; deep 3000, false, c17_deep; },
        "C18" => subs! { types 40000, false, c18_types; handles 40000, false, c18_stream; cursor 10000, false, c18_cursor; },
        "C19" => subs! { occurrences 50000, false, c19_mult; mutants 40000, false, c19_mutants; },
        "C20" => subs! { rewritten 40000, false, c20_rewrite; strict 30000, false, c20_strict; keep 30000, false, c20_keep; },
        "C21" => subs! { pairs 50000, false, c21_pair; handles 20000, false, c21_handle; },
        "C22" => subs! { mutants 40000, false, c22_mutants; invalid 40000, false, c22_invalid; },
        _ => vec![],
    }
}
#[derive(Clone)]
struct Fail { sub: usize, idx: u64, msg: String }
fn case(p: &str, s: &Sub, idx: u64, seed: u64, g: &mut G) -> R {
    g.r = Rng(hash(format!("{}/{}/{}/{}", p, s.name, seed, idx).as_bytes()));
    g.idx = idx;
    PMSG.with(|m| m.borrow_mut().clear());
    match panic::catch_unwind(panic::AssertUnwindSafe(|| (s.f)(g))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PMSG.with(|m| m.borrow().clone()))),
    }
}
fn g(verbose: bool) -> G { G { r: Rng(0), idx: 0, verbose, desc: vec![], seen: HashSet::new(), samples: vec![], allow_sample: true } }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
extern "C" { fn signal(sig: i32, h: usize) -> usize; fn write(fd: i32, b: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
extern "C" fn on_abort(_: i32) {
    // async-signal-safe: where was this thread?
    let (s, i) = CUR.try_with(|c| c.get()).unwrap_or((u64::MAX, 0));
    let mut b = [b' '; 64]; let mut n = 0;
    for x in b"ABORT " { b[n] = *x; n += 1; }
    for v in [s, i].iter() { let mut d = [0u8; 20]; let mut k = 0; let mut v = *v; loop { d[k] = b'0' + (v % 10) as u8; k += 1; v /= 10; if v == 0 { break } } while k > 0 { k -= 1; b[n] = d[k]; n += 1; } b[n] = b' '; n += 1; }
    b[n] = b'\n'; n += 1;
    unsafe { write(1, b.as_ptr(), n); _exit(3) }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PMSG.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
    let p = a.get(2).cloned().unwrap_or_default();
    let t = table(&p);
    if t.is_empty() { eprintln!("unknown property {}", p); std::process::exit(2); }
    match a.get(1).map(|x| &x[..]) {
        Some("subs") => println!("{}", t.iter().map(|s| s.name).collect::<Vec<_>>().join(" ")),
        Some("case") => {
            let s = t.into_iter().find(|s| s.name == a[3]).expect("sub");
            let i: u64 = a[4].parse().expect("index");
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || { let mut g = g(true); case(&p, &s, i, seed, &mut g) }).unwrap();
            match h.join() { Ok(Ok(())) => { println!("HOLDS") } Ok(Err(e)) => { println!("FAILS {}", e); std::process::exit(1) } Err(_) => { println!("FAILS"); std::process::exit(1) } }
        }
        _ => run(p, t, seed, &opt),
    }
}
static SLOT: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static SUBI: [AtomicU64; 64] = [const { AtomicU64::new(u64::MAX) }; 64];
fn run(p: String, t: Vec<Sub>, seed: u64, opt: &dyn Fn(&str) -> Option<String>) {
    let mult: f64 = opt("--mult").and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let budget: f64 = opt("--budget").and_then(|x| x.parse().ok()).unwrap_or(20.0);
    let threads: u64 = opt("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let t = Arc::new(t);
    unsafe { signal(6, on_abort as *const () as usize); }
    let total: f64 = t.iter().map(|s| if s.exhaustive { s.n as f64 } else { s.n as f64 * mult }).sum();
    let stop = Arc::new(AtomicBool::new(false));
    std::thread::spawn(move || {
        // a case that does not end is a finding of its own
        let mut last = vec![(0, u64::MAX, Instant::now()); 64];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..64 {
                let (s, c) = (SUBI[i].load(SeqCst), SLOT[i].load(SeqCst));
                if s == u64::MAX { continue }
                if (c, s) != (last[i].0, last[i].1) { last[i] = (c, s, Instant::now()) }
                else if last[i].2.elapsed() > Duration::from_secs(20) { println!("HANG {} {}", s, c); std::process::exit(3); }
            }
        }
    });
    let start = Instant::now();
    let mut fails: Vec<Fail> = vec![];
    let mut rows = vec![]; let mut evals = 0; let mut distinct = 0; let mut samples = vec![];
    for si in 0..t.len() {
        let n = if t[si].exhaustive { t[si].n } else { (t[si].n as f64 * mult).max(1.0) as u64 };
        let limit = Duration::from_secs_f64((budget * n as f64 / total).max(1.0));
        let sstart = Instant::now();
        let done = Arc::new(AtomicU64::new(0));
        let fl: Arc<Mutex<Vec<Fail>>> = Arc::new(Mutex::new(vec![]));
        let hs: Vec<_> = (0..threads).map(|th| {
            let (p, t, done, fl, stop) = (p.clone(), t.clone(), done.clone(), fl.clone(), stop.clone());
            std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let mut g = g(false);
                g.allow_sample = th == 0;
                let mut i = th; let mut k = 0;
                while i < n && !stop.load(SeqCst) {
                    if i & 63 == th & 63 && sstart.elapsed() > limit { break }
                    CUR.with(|c| c.set((si as u64, i)));
                    SLOT[th as usize].store(i, SeqCst); SUBI[th as usize].store(si as u64, SeqCst);
                    if th == 0 && k % 997 == 0 { g.allow_sample = true }
                    if g.seen.len() > 2_000_000 { g.seen.shrink_to_fit() }
                    let r = case(&p, &t[si], i, seed, &mut g);
                    k += 1; done.fetch_add(1, SeqCst);
                    if let Err(msg) = r { fl.lock().unwrap().push(Fail { sub: si, idx: i, msg }); stop.store(true, SeqCst); break }
                    i += threads;
                }
                SUBI[th as usize].store(u64::MAX, SeqCst);
                (g.seen, g.samples)
            }).unwrap()
        }).collect();
        let mut seen: HashSet<u64> = HashSet::new();
        for h in hs { let (s, sm) = h.join().unwrap(); if seen.is_empty() { seen = s } else { seen.extend(s) } samples.extend(sm.into_iter().map(|x| format!("{}: {}", t[si].name, x))); }
        let d = done.load(SeqCst); evals += d; distinct += seen.len();
        rows.push(format!("{{\"sub\":{},\"evaluations\":{},\"planned\":{},\"distinct\":{},\"exhaustive\":{},\"seconds\":{:.2}}}", js(t[si].name), d, n, seen.len(), t[si].exhaustive && d == n, sstart.elapsed().as_secs_f64()));
        fails.extend(fl.lock().unwrap().iter().cloned());
        if !fails.is_empty() { break }
    }
    fails.sort_by_key(|f| f.idx);
    let f = match fails.get(0) {
        None => "null".to_string(),
        Some(f) => format!("{{\"sub\":{},\"idx\":{},\"msg\":{}}}", js(t[f.sub].name), f.idx, js(&f.msg)),
    };
    let o = format!("{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"seconds\":{:.2},\"subs\":[{}],\"samples\":[{}],\"failure\":{}}}\n", js(&p), seed, evals, distinct, start.elapsed().as_secs_f64(), rows.join(","), samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), f);
    match opt("--out") { Some(x) => std::fs::write(x, &o).unwrap(), None => print!("{}", o) }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
