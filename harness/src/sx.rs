//! Interface to the symbolic executor. In the symbolic run these are external
//! functions known to the engine; in a native replay they are provided by
//! `src/bin/replay.rs`, which reads the recorded inputs.
#![allow(dead_code)]

mod raw {
    extern "C" {
        pub fn sx_trits(p: *mut u8, n: usize);
        pub fn sx_range(p: *mut u8, n: usize, lo: u64, count: u64);
        pub fn sx_int(lo: i64, hi: i64) -> i64;
        pub fn sx_choose(n: u64) -> u64;
        pub fn sx_assume(b: bool);
        pub fn sx_assert(b: bool, id: u64);
        pub fn sx_assert_eq(p: *const u8, q: *const u8, n: usize, id: u64);
        pub fn sx_cover(id: u64);
        pub fn sx_uf(fid: u64, p: *const u8, n: usize, q: *mut u8, m: usize);
        pub fn sx_mode(k: u64, v: u64);
        pub fn sx_concrete(v: u64) -> u64;
        pub fn sx_eq(p: *const u8, q: *const u8, n: usize) -> bool;
        pub fn sx_dump(p: *const u8, n: usize);
        pub fn sx_probe(idx: u64, val: u64, p: *const u8, n: usize);
        pub fn sx_feasible(b: bool) -> bool;
        pub fn sx_param(i: u64) -> u64;
    }
}

pub const M_UF: u64 = 0;
pub const M_MERGE: u64 = 1;
pub const M_CF: u64 = 2;
pub const M_MAXALLOC: u64 = 3;
pub const M_PANIC_OK: u64 = 4;
pub const M_CASE: u64 = 6;

/// n symbolic trits (0..=2, one per byte).
pub fn trits(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { raw::sx_trits(v.as_mut_ptr(), n) }
    v
}
pub fn fill_trits(p: &mut [u8]) {
    unsafe { raw::sx_trits(p.as_mut_ptr(), p.len()) }
}
pub fn bytes(n: usize, lo: u8, count: u32) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { raw::sx_range(v.as_mut_ptr(), n, lo as u64, count as u64) }
    v
}
/// Symbolic integer in lo..=hi.
pub fn int(lo: i64, hi: i64) -> i64 {
    unsafe { raw::sx_int(lo, hi) }
}
/// One of 0..n, explored value by value.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { raw::sx_choose(n as u64) as usize }
}
pub fn assume(b: bool) {
    unsafe { raw::sx_assume(b) }
}
pub fn assert(b: bool, id: u64) {
    unsafe { raw::sx_assert(b, id) }
}
/// Lengths equal and contents equal (contents decided by the solver, not by a loop).
pub fn assert_eq(p: &[u8], q: &[u8], id: u64) {
    assert(p.len() == q.len(), id);
    unsafe { raw::sx_assert_eq(p.as_ptr(), q.as_ptr(), p.len(), id) }
}
pub fn cover(id: u64) {
    unsafe { raw::sx_cover(id) }
}
pub fn uf(fid: u64, p: &[u8], q: &mut [u8]) {
    unsafe { raw::sx_uf(fid, p.as_ptr(), p.len(), q.as_mut_ptr(), q.len()) }
}
pub fn mode(k: u64, v: u64) {
    unsafe { raw::sx_mode(k, v) }
}
pub fn concrete(v: usize) -> usize {
    unsafe { raw::sx_concrete(v as u64) as usize }
}
pub fn eq(p: &[u8], q: &[u8]) -> bool {
    p.len() == q.len() && unsafe { raw::sx_eq(p.as_ptr(), q.as_ptr(), p.len()) }
}
pub fn dump(p: &[u8]) {
    unsafe { raw::sx_dump(p.as_ptr(), p.len()) }
}
pub fn probe(idx: u64, val: u64, p: &[u8]) {
    unsafe { raw::sx_probe(idx, val, p.as_ptr(), p.len()) }
}
pub fn feasible(b: bool) -> bool {
    unsafe { raw::sx_feasible(b) }
}
/// Parameter of the run (bounds).
pub fn param(i: u64) -> usize {
    unsafe { raw::sx_param(i) as usize }
}

/// Assertion labelled by file number and line.
#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::sx::assert($c, FILE * 10000 + line!() as u64)
    };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr) => {
        $crate::sx::assert_eq($a, $b, FILE * 10000 + line!() as u64)
    };
}
#[macro_export]
macro_rules! cover {
    ($n:expr) => {
        $crate::sx::cover($n)
    };
}

/// Declares harness functions and the table used by the native replay.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident)*) => {
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name as extern "C" fn())),*];
    };
}
