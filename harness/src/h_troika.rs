//! C06 (Troika permutation against its specification) and the state-layout probe.
use crate::sx;
use crate::troika_rc::RC;
use crate::*;
use iota_mam::troika::{Troika, TroikaSponge};

const FILE: u64 = 2;

fn bytes_of(t: &Troika) -> &[u8] {
    unsafe { std::slice::from_raw_parts(t as *const Troika as *const u8, std::mem::size_of::<Troika>()) }
}
#[no_mangle]
pub extern "C" fn probe_layout() {
    let t = Troika::default();
    sx::probe(0, 0, bytes_of(&t));
    for i in 0..729usize {
        for v in 1..3u8 {
            let mut t = Troika::default();
            t.set1(i, v);
            sx::probe(i as u64, v as u64, bytes_of(&t));
        }
    }
}

// ---- specification: state[27*slice + 9*row + col], trits 0..2
const SBOX: [u8; 27] = [6, 25, 17, 5, 15, 10, 4, 20, 24, 0, 1, 2, 9, 22, 26, 18, 16, 14, 3, 13, 23, 7, 11, 12, 8, 21, 19];
const LANES: [usize; 27] = [19, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4];

fn add3(a: u8, b: u8) -> u8 {
    (a + b) % 3
}
fn spec_sub(s: &[u8]) -> Vec<u8> {
    let mut o = vec![0u8; 729];
    for k in (0..729).step_by(3) {
        let t = SBOX[(9 * s[k] + 3 * s[k + 1] + s[k + 2]) as usize];
        o[k] = t / 9;
        o[k + 1] = (t / 3) % 3;
        o[k + 2] = t % 3;
    }
    o
}
fn spec_shift(s: &[u8]) -> Vec<u8> {
    let mut o = vec![0u8; 729];
    for z in 0..27 {
        for y in 0..3 {
            for x in 0..9 {
                // rows by 3*row columns, then lanes along the slices
                let x2 = (x + 3 * y) % 9;
                let z2 = (z + LANES[9 * y + x2]) % 27;
                o[27 * z2 + 9 * y + x2] = s[27 * z + 9 * y + x];
            }
        }
    }
    o
}
fn spec_parity(s: &[u8]) -> Vec<u8> {
    let mut p = vec![0u8; 243];
    for z in 0..27 {
        for x in 0..9 {
            p[9 * z + x] = add3(add3(s[27 * z + x], s[27 * z + 9 + x]), s[27 * z + 18 + x]);
        }
    }
    let mut o = vec![0u8; 729];
    for z in 0..27 {
        for y in 0..3 {
            for x in 0..9 {
                let e = add3(p[9 * z + (x + 8) % 9], p[9 * ((z + 1) % 27) + (x + 1) % 9]);
                o[27 * z + 9 * y + x] = add3(s[27 * z + 9 * y + x], e);
            }
        }
    }
    o
}
fn spec_const(s: &[u8], round: usize) -> Vec<u8> {
    let mut o = s.to_vec();
    for z in 0..27 {
        for x in 0..9 {
            let (p, n) = RC[round][x];
            let c = ((p >> z) & 1) + 2 * ((n >> z) & 1);
            o[27 * z + x] = add3(s[27 * z + x], c as u8);
        }
    }
    o
}
pub fn spec_permutation(s: &[u8]) -> Vec<u8> {
    let mut s = s.to_vec();
    for r in 0..24 {
        s = spec_const(&spec_parity(&spec_shift(&spec_sub(&s))), r);
    }
    s
}
fn load(t: &mut Troika, s: &[u8]) {
    for i in 0..729 {
        t.set1(i, s[i]);
    }
}
fn store(t: &Troika) -> Vec<u8> {
    let mut s = vec![0u8; 729];
    for i in 0..729 {
        s[i] = t.get1(i);
    }
    s
}

/// At every step boundary of the real permutation: the step that just ran must have produced
/// what the specification says, and the state is then replaced by an arbitrary one.
struct Step {
    s: Vec<u8>,
    half: Vec<u8>,
    parity: Vec<u8>,
    calls: usize,
}
static mut STEP: *mut Step = std::ptr::null_mut();
fn step(t: &mut Troika, round: usize, stage: usize) {
    let st = unsafe { &mut *STEP };
    ck!(st.calls == 2 * round + stage);
    if st.calls > 0 {
        let now = store(t);
        if stage == 1 {
            ckeq!(&now, &st.half);
        } else {
            ckeq!(&now, &spec_const(&st.parity, round - 1));
        }
    }
    st.calls += 1;
    load(t, &st.s);
}
#[no_mangle]
pub extern "C" fn c06_round() {
    let s = sx::trits(729);
    let half = spec_shift(&spec_sub(&s));
    let parity = spec_parity(&s);
    let mut st = Step { s, half, parity, calls: 0 };
    unsafe {
        STEP = &mut st;
        iota_mam::troika::VERIF_STEP = Some(step);
    }
    let mut t = Troika::default();
    load(&mut t, &st.s);
    t.permutation();
    unsafe { iota_mam::troika::VERIF_STEP = None }
    ck!(st.calls == 48);
    let now = store(&t);
    ckeq!(&now, &spec_const(&st.parity, 23));
    cover!(1);
}
/// The whole permutation without cut points, from states with a few symbolic trits.
#[no_mangle]
pub extern "C" fn c06_whole() {
    let mut s = vec![0u8; 729];
    for i in 0..729 {
        s[i] = ((i * 7 + i / 13 + sx::param(0)) % 3) as u8;
    }
    let mut t = Troika::default();
    load(&mut t, &s);
    t.permutation();
    ckeq!(&store(&t), &spec_permutation(&s));
    cover!(1);
}
/// Cells: reading returns what was set, and no other cell changes.
#[no_mangle]
pub extern "C" fn c06_cells() {
    let lo = sx::param(0);
    let hi = sx::param(1);
    let s = sx::trits(729);
    let v = sx::trits(1)[0];
    let mut t = Troika::new();
    load(&mut t, &s);
    ckeq!(&store(&t), &s);
    for i in lo..hi {
        let mut u = t;
        u.set1(i, v);
        let mut e = s.clone();
        e[i] = v;
        ckeq!(&store(&u), &e);
    }
    cover!(1);
}
/// Overwriting a cell forgets the old value.
#[no_mangle]
pub extern "C" fn c06_overwrite() {
    sx::mode(sx::M_UF, 1);
    let s = sx::trits(729);
    let s2 = sx::trits(729);
    let mut t = Troika::default();
    load(&mut t, &s);
    load(&mut t, &s2);
    ckeq!(&store(&t), &s2);
    let mut u = Troika::default();
    load(&mut u, &s2);
    t.permutation();
    u.permutation();
    ckeq!(&store(&t), &store(&u));
    cover!(1);
}
/// TroikaSponge: any division of the input and of the output gives the same digest.
#[no_mangle]
pub extern "C" fn c07_troika_sponge() {
    sx::mode(sx::M_UF, 1);
    let n = sx::param(0);
    let m = sx::param(1);
    let x = sx::trits(n);
    let mut a = TroikaSponge::default();
    a.absorb(&x);
    a.finalize();
    let mut d = vec![0u8; m];
    a.squeeze(&mut d);
    let mut b = TroikaSponge::default();
    let i = if n <= 260 { sx::choose(n + 1) } else { [0, 1, 242, 243, 244, n - 1, n, n / 2][sx::choose(8)] };
    b.absorb(&x[..i]);
    b.absorb(&[]);
    b.absorb(&x[i..]);
    b.finalize();
    let mut e = vec![0u8; m];
    let j = if m == 0 { 0 } else { (i * 7) % (m + 1) };
    b.squeeze(&mut e[..j]);
    b.squeeze(&mut []);
    b.squeeze(&mut e[j..]);
    ckeq!(&d, &e);
    // a used sponge is fresh after reset
    b.reset();
    b.absorb(&x);
    b.finalize();
    let mut f = vec![0u8; m];
    b.squeeze(&mut f);
    ckeq!(&d, &f);
    cover!(1);
}
crate::harnesses! { probe_layout c06_round c06_whole c06_cells c06_overwrite c07_troika_sponge }
