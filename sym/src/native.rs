//! Replay of one recorded counterexample against the natively compiled code.
use std::alloc::{GlobalAlloc, Layout};
use std::collections::HashMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

struct Log { lines: Vec<String>, at: usize, draws: HashMap<(u64, u64), u64> }
static LOG: Mutex<Option<Log>> = Mutex::new(None);
/// nonzero: inputs that were not recorded are sampled
static RANDOM: AtomicU64 = AtomicU64::new(0);
/// the recorded inputs are those of an unfinished path: what comes after them is sampled
static PROBE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static MODE: AtomicU32 = AtomicU32::new(0);

fn fin(code: i32) -> ! { unsafe { _exit(code) } }
fn say(s: &str) { let s = format!("{}\n", s); unsafe { write(2, s.as_ptr(), s.len()); } }
pub fn violated(id: &str) -> ! { say(&format!("VIOLATED {}", id)); fin(10) }
fn next(kind: char) -> String {
    let mut g = LOG.lock().unwrap();
    let l = g.as_mut().expect("no replay loaded");
    if l.at >= l.lines.len() {
        let x = RANDOM.load(SeqCst);
        if x != 0 && (kind != 'c' || PROBE.load(SeqCst)) {
            let mut y = x; y ^= y << 13; y ^= y >> 7; y ^= y << 17; RANDOM.store(y, SeqCst);
            let v = y.wrapping_mul(0x9E37_79B9_7F4A_7C15);
            let v = if kind == 'r' { ((v >> 11) as f64 / (1u64 << 53) as f64).to_bits() } else { v };
            return if kind == 'c' { format!("c {}", v >> 32) } else if kind == 'r' { format!("r {:x}", v) } else { format!("b 64 {:x}", v) };
        }
        say("replay: the program asks for more inputs than were recorded"); fin(3)
    }
    let s = l.lines[l.at].clone();
    l.at += 1;
    if !s.starts_with(kind) { say(&format!("replay: expected an input of kind {}, recorded {:?}", kind, s)); fin(3) }
    s
}
fn rbits() -> u64 { u64::from_str_radix(next('r').split(' ').nth(1).unwrap(), 16).unwrap() }
fn bbits() -> u64 { u64::from_str_radix(next('b').split(' ').nth(2).unwrap(), 16).unwrap() }
/// sampled, not recorded
fn beyond() -> bool { PROBE.load(SeqCst) && LOG.lock().unwrap().as_ref().is_some_and(|l| l.at >= l.lines.len()) }
pub fn bits(w: u32) -> u64 { let b = beyond(); let x = bbits(); if b && w < 64 { x >> (64 - w) } else { x } }
pub fn choice(n: usize) -> usize { let b = beyond(); let k: usize = next('c').split(' ').nth(1).unwrap().trim().parse().unwrap(); if b { k % n.max(1) } else { k } }
pub fn assume(b: bool) { if !b { say("replay: an assumption does not hold"); fin(4) } }
pub fn angle() -> f64 { let b = beyond(); let x = f64::from_bits(rbits()); if b { x * 12.0 - 6.0 } else { x } }
pub fn real(l: f64, h: f64) -> f64 { let b = beyond(); let x = f64::from_bits(rbits()); if b { l + (h - l) * x } else { x } }
pub fn amps(p: &mut [f64]) {
    let b = beyond();
    for x in p.iter_mut() { *x = f64::from_bits(rbits()); if b { *x -= 0.5; } }
    if b { let n = p.iter().map(|x| x * x).sum::<f64>().sqrt(); for x in p.iter_mut() { *x /= n; } }
}
fn draw(seed: u64, idx: u64, f: impl Fn() -> u64) -> u64 {
    if let Some(x) = LOG.lock().unwrap().as_ref().unwrap().draws.get(&(seed, idx)) { return *x; }
    let x = f();
    LOG.lock().unwrap().as_mut().unwrap().draws.insert((seed, idx), x);
    x
}
pub fn sample(seed: u64, idx: u64) -> f64 { f64::from_bits(draw(seed, idx, rbits)) }
pub fn sample_bits(seed: u64, idx: u64) -> u64 { draw(seed, idx | 1 << 63, bbits) }
pub fn check(b: bool, id: &str) { if !b { violated(id) } }
pub fn near(a: f64, b: f64, tol: f64, id: &str) { if !((a - b).abs() <= tol) { say(&format!("  got {} expected {}", a, b)); violated(id) } }
pub fn states(a: &[f64], b: &[f64], id: &str) {
    let t = 5e-7;
    let bad = || { say(&format!("  state    {:?}\n  expected {:?}", a, b)); violated(id) };
    if a.iter().chain(b).any(|x| !x.is_finite()) { bad() }
    let n = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>();
    if (n(a) - n(b)).abs() > t { bad() }
    let k = a.len() / 2;
    for i in 0..k { for j in 0..i {
        let m = |x: &[f64], p: usize, y: &[f64], q: usize| (x[2 * p] * y[2 * q] - x[2 * p + 1] * y[2 * q + 1], x[2 * p] * y[2 * q + 1] + x[2 * p + 1] * y[2 * q]);
        let (l, r) = (m(a, i, b, j), m(a, j, b, i));
        if (l.0 - r.0).abs() > t || (l.1 - r.1).abs() > t { bad() }
    } }
}
pub fn panic_mode(m: u32) { MODE.store(m, SeqCst) }
pub fn must_not_return(id: &str) { violated(id) }
pub fn goal(_: &str) {}
pub fn reached(id: &str) { say(&format!("REACHED {}", id)) }
pub fn fit(v: u64, lo: i128, hi: i128) -> u64 { if RANDOM.load(SeqCst) == 0 || hi < lo || PROBE.load(SeqCst) && (v as i128 >= lo && v as i128 <= hi || v as i64 as i128 >= lo && v as i64 as i128 <= hi) { v } else { let w = hi.wrapping_sub(lo) as u128; (lo.wrapping_add(if w == u128::MAX { v as i128 } else { (v as u128 % (w + 1)) as i128 })) as u64 } }
pub fn fit_f(v: f64, a: f64, b: f64) -> f64 { if RANDOM.load(SeqCst) == 0 || PROBE.load(SeqCst) && v >= a && v <= b { v } else { a + (b - a) * ((v.to_bits() >> 11) as f64 / (1u64 << 53) as f64) } }
fn scratch() -> i32 { let f = unsafe { memfd_create(c"sym".as_ptr().cast(), 0) }; if f < 0 { say("replay: no memory file"); fin(3) } f }
pub fn stdin(d: &[u8]) { unsafe { let f = scratch(); if write(f, d.as_ptr(), d.len()) != d.len() as isize { say("replay: no memory file"); fin(3) } lseek(f, 0, 0); dup2(f, 0); close(f); } }
pub fn capture() { unsafe { let f = scratch(); dup2(f, 1); close(f); } }
pub fn captured() -> Vec<u8> { unsafe { let n = lseek(1, 0, 2).max(0) as usize; let mut v = vec![0u8; n]; pread(1, v.as_mut_ptr(), n, 0); v } }
pub fn thin(_: u64) {}
pub fn thorough() -> bool { std::env::var("SYM_TIER").map_or(false, |t| t == "thorough") }

pub fn main(entry: fn(&str) -> Option<extern "C" fn()>) {
    let a: Vec<String> = std::env::args().collect();
    let f = entry(&a[1]).unwrap_or_else(|| { say("no such entry"); fin(3) });
    let t = std::fs::read_to_string(&a[2]).expect("replay file");
    RANDOM.store(std::env::var("SYM_RANDOM").ok().and_then(|s| s.parse().ok()).map_or(0, |x: u64| x.wrapping_mul(0xD134_2543_DE82_EF95) | 1), SeqCst);
    PROBE.store(std::env::var("SYM_PROBE").is_ok(), SeqCst);
    let lines: Vec<String> = t.lines().filter(|l| !l.starts_with('#') && !l.is_empty()).map(|l| l.to_string()).collect();
    *LOG.lock().unwrap() = Some(Log { lines, at: 0, draws: HashMap::new() });
    std::panic::set_hook(Box::new(|i| {
        if MODE.load(SeqCst) == 0 { say(&format!("  {}", i)); violated("panic") } else { say("ended by a panic, as allowed"); fin(0) }
    }));
    // running out of memory ends the process without a panic; it is one of the allowed failures
    extern "C" fn ended(_: i32) { if MODE.load(SeqCst) != 0 { say("ended by an abort, as allowed"); unsafe { _exit(0) } } }
    unsafe { signal(6, ended); }
    f();
    say("held");
    fin(0)
}

// ---------------------------------------------------------------- guarded allocator
unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn signal(n: i32, h: extern "C" fn(i32)) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn memfd_create(n: *const u8, f: u32) -> i32;
    fn lseek(fd: i32, o: i64, w: i32) -> i64;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
    fn pread(fd: i32, p: *mut u8, n: usize, o: i64) -> isize;
}
/// Every allocation ends at a protected page; freed pages are never reused and become inaccessible.
pub struct Guard;
static COUNT: AtomicUsize = AtomicUsize::new(0);
static MARK: AtomicU64 = AtomicU64::new(1);
static LIVE: AtomicU64 = AtomicU64::new(0);
#[repr(C)]
struct Head { magic: u64, size: usize, mark: u64 }
const PG: usize = 4096;
fn geom(l: &Layout) -> (usize, usize) { let n = (l.size() + PG - 1) / PG * PG; let n = n.max(PG); let off = (n - l.size()) / l.align() * l.align(); (n, off) }
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if l.size() > 1 << 28 || l.align() > PG { return std::ptr::null_mut(); }
            let (n, off) = geom(&l);
            let c = COUNT.fetch_add(1, SeqCst);
            let b = mmap(std::ptr::null_mut(), n + 2 * PG, 3, 0x22, -1, 0);
            if b as isize == -1 { return std::ptr::null_mut(); }
            let m = MARK.load(SeqCst);
            *(b as *mut Head) = Head { magic: 0xA11C, size: l.size(), mark: m };
            LIVE.fetch_add(1, SeqCst);
            if c < 20000 { mprotect(b.add(PG + n), PG, 0); }
            b.add(PG + off).write_bytes(0xAA, l.size());
            b.add(PG + off)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { unsafe { let p = self.alloc(l); if !p.is_null() { p.write_bytes(0, l.size()); } p } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            let b = (p as usize / PG * PG - PG) as *mut u8;
            let h = b as *mut Head;
            if (*h).magic != 0xA11C { let s = b"VIOLATED memory: freed twice or never allocated\n"; write(2, s.as_ptr(), s.len()); _exit(10) }
            if (*h).size != l.size() { let s = b"VIOLATED memory: freed with another layout\n"; write(2, s.as_ptr(), s.len()); _exit(10) }
            (*h).magic = 0xF4EE;
            if (*h).mark == MARK.load(SeqCst) { LIVE.fetch_sub(1, SeqCst); }
            let (n, _) = geom(&l);
            if COUNT.load(SeqCst) < 20000 { mprotect(b.add(PG), n, 0); }
        }
    }
}
pub fn heap_mark() { MARK.fetch_add(1, SeqCst); LIVE.store(0, SeqCst); }
pub fn live() -> u64 { LIVE.load(SeqCst) }
pub fn heap_check(id: &str) { if live() != 0 { violated(id) } }
