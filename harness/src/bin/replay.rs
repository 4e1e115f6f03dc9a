//! Native replay of recorded inputs: `replay HARNESS INPUTS PARAMS...`
//! exit 0: ran through; 10: an assertion failed / allocation limit; 11: path not taken
//! (assumption false or inputs exhausted); abort signal: panic.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

struct A;
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        lim(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        lim(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        lim(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
fn lim(n: usize) {
    if n as u64 > LIMIT.load(Relaxed) {
        LIMIT.store(u64::MAX, Relaxed);
        println!("REPLAY allocation of {} bytes over the limit", n);
        std::process::exit(10);
    }
}
#[global_allocator]
static G: A = A;

static mut INPUTS: Vec<i64> = Vec::new();
static mut PARAMS: Vec<u64> = Vec::new();
static POS: AtomicUsize = AtomicUsize::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static PANIC_OK: AtomicU64 = AtomicU64::new(0);

#[allow(static_mut_refs)]
fn next(n: u64) -> Option<i64> {
    let i = POS.fetch_add(1, Relaxed);
    unsafe {
        if i < INPUTS.len() {
            return Some(INPUTS[i]);
        }
    }
    // beyond the recorded prefix: pseudo-random completion
    let mut x = SEED.load(Relaxed).wrapping_add(0x9e3779b97f4a7c15u64.wrapping_mul(i as u64 + 1));
    x ^= x >> 31;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    Some((x % n.max(1)) as i64)
}
#[no_mangle]
extern "C" fn sx_trits(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next(3).unwrap() as u8 }
    }
}
#[no_mangle]
extern "C" fn sx_range(p: *mut u8, n: usize, lo: u64, c: u64) {
    for i in 0..n {
        let v = next(c).unwrap() as u64;
        unsafe { *p.add(i) = if v >= lo && v < lo + c { v as u8 } else { (lo + v % c) as u8 } }
    }
}
#[no_mangle]
extern "C" fn sx_int(lo: i64, hi: i64) -> i64 {
    let v = next(u64::MAX).unwrap();
    if v < lo || v > hi {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        return (lo as i128 + (v as u64 as u128 % span) as i128) as i64;
    }
    v
}
#[no_mangle]
extern "C" fn sx_choose(n: u64) -> u64 {
    next(n).unwrap() as u64 % n
}
#[no_mangle]
extern "C" fn sx_assume(b: bool) {
    if !b {
        println!("REPLAY assumption not met");
        std::process::exit(11)
    }
}
#[no_mangle]
extern "C" fn sx_assert(b: bool, id: u64) {
    if !b {
        println!("REPLAY assertion {} fails", id);
        std::process::exit(10)
    }
}
#[no_mangle]
extern "C" fn sx_assert_eq(p: *const u8, q: *const u8, n: usize, id: u64) {
    for i in 0..n {
        unsafe {
            if *p.add(i) != *q.add(i) {
                println!("REPLAY assertion {} fails: byte {} is {} and {}", id, i, *p.add(i), *q.add(i));
                std::process::exit(10)
            }
        }
    }
}
#[no_mangle]
extern "C" fn sx_cover(_: u64) {}
#[no_mangle]
extern "C" fn sx_uf(fid: u64, p: *const u8, n: usize, q: *mut u8, m: usize) {
    let mut h = 0xcbf29ce484222325u64 ^ fid;
    for i in 0..n {
        h = (h ^ unsafe { *p.add(i) } as u64).wrapping_mul(0x100000001b3);
    }
    for i in 0..m {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        unsafe { *q.add(i) = ((h >> 33) % 3) as u8 }
    }
}
#[no_mangle]
extern "C" fn sx_mode(k: u64, v: u64) {
    if k == 3 {
        LIMIT.store(v, Relaxed);
    }
    if k == 4 {
        PANIC_OK.store(v, Relaxed);
    }
}
#[no_mangle]
extern "C" fn sx_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sx_eq(p: *const u8, q: *const u8, n: usize) -> bool {
    (0..n).all(|i| unsafe { *p.add(i) == *q.add(i) })
}
static DIGEST: AtomicU64 = AtomicU64::new(0xcbf29ce484222325);
#[no_mangle]
extern "C" fn sx_dump(p: *const u8, n: usize) {
    let mut d = DIGEST.load(Relaxed);
    for i in 0..n {
        d = (d ^ unsafe { *p.add(i) } as u64).wrapping_mul(0x100000001b3);
    }
    DIGEST.store(d, Relaxed);
}
#[no_mangle]
extern "C" fn sx_probe(_: u64, _: u64, _: *const u8, _: usize) {}
#[no_mangle]
extern "C" fn sx_feasible(b: bool) -> bool {
    b
}
#[no_mangle]
#[allow(static_mut_refs)]
extern "C" fn sx_param(i: u64) -> u64 {
    unsafe { PARAMS.get(i as usize).cloned().unwrap_or(0) }
}

#[allow(static_mut_refs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = &a[1];
    let txt = std::fs::read_to_string(&a[2]).unwrap_or_default();
    unsafe {
        INPUTS = txt.split(|c: char| c == ',' || c.is_whitespace() || c == '[' || c == ']').filter_map(|x| x.parse().ok()).collect();
        PARAMS = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    }
    if let Ok(s) = std::env::var("REPLAY_SEED") {
        SEED.store(s.parse().unwrap(), Relaxed);
    }
    std::panic::set_hook(Box::new(|i| {
        if PANIC_OK.load(Relaxed) != 0 {
            std::process::exit(0);
        }
        println!("REPLAY panic: {}", i);
        std::process::exit(10);
    }));
    let f = mamh::tables().into_iter().find(|t| t.0 == name).expect("harness").1;
    f();
    println!("REPLAY done digest={:016x}", DIGEST.load(Relaxed));
}
