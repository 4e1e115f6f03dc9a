//! C01-C05: integer codecs, strings, slices, containers.
use crate::sx;
use crate::util::*;
use crate::*;
use iota_mam::trits::*;
use std::hash::{Hash, Hasher};

const FILE: u64 = 1;

fn ws(k: usize) -> usize {
    [1, 3, 6, 9, 18][k]
}
fn get(k: usize, s: TritSlice) -> i64 {
    match k {
        0 => s.get1() as i64,
        1 => s.get3() as i64,
        2 => s.get6() as i64,
        3 => s.get9() as i64,
        _ => s.get18() as i64,
    }
}
fn put(k: usize, s: TritSliceMut, v: i64) {
    match k {
        0 => s.put1(v as Trint1),
        1 => s.put3(v as Trint3),
        2 => s.put6(v as Trint6),
        3 => s.put9(v as Trint9),
        _ => s.put18(v as Trint18),
    }
}

/// trits -> integer -> trits, with a frame of 2 trits around the window.
#[no_mangle]
pub extern "C" fn c01_trits() {
    let k = sx::param(0);
    let n = ws(k);
    let buf = sx::trits(n + 4);
    let v = get(k, sl(&buf).drop(2));
    ck!(v == value(&buf[2..2 + n]));
    let old = sx::trits(n + 4);
    let mut out = old.clone();
    put(k, slm(&mut out).drop(2), v);
    ckeq!(&out[..2], &old[..2]);
    ckeq!(&out[2..2 + n], &buf[2..2 + n]);
    ckeq!(&out[2 + n..], &old[2 + n..]);
    cover!(1);
}
/// integer -> trits -> integer.
#[no_mangle]
pub extern "C" fn c01_int() {
    let k = sx::param(0);
    let n = ws(k);
    let m = (3i64.pow(n as u32) - 1) / 2;
    let v = sx::int(-m, m);
    let mut out = vec![0u8; n];
    put(k, slm(&mut out), v);
    for t in &out {
        ck!(*t < 3);
    }
    ck!(value(&out) == v);
    ck!(get(k, sl(&out)) == v);
    cover!(1);
}
/// The same around the points where a digit of a partial representation carries.
#[no_mangle]
pub extern "C" fn c01_near() {
    let k = sx::param(0);
    let n = ws(k);
    let m = (3i64.pow(n as u32) - 1) / 2;
    let d = value(&sx::trits(5));
    let mut at = vec![];
    for j in 1..n as u32 {
        let h = (3i64.pow(j) - 1) / 2;
        at.extend_from_slice(&[h, 2 * h + 1, 3 * h + 1, 127, 128, 32767, 65536]);
    }
    for c in at.iter_mut() {
        *c = (*c).min(m - 121);
    }
    at.sort();
    at.dedup();
    for &c in &at {
        for v in [c + d, d - c] {
            let mut out = vec![0u8; n];
            put(k, slm(&mut out), v);
            ck!(value(&out) == v);
            ck!(get(k, sl(&out)) == v);
        }
    }
    cover!(1);
}
/// Unsigned trytes and single trits.
#[no_mangle]
pub extern "C" fn c01_tryte() {
    let old = sx::trits(7);
    let w = sl(&old).drop(2);
    let t = w.get_tryte();
    ck!(t < 27);
    // a tryte is the unsigned reading of the three trits
    ck!(t as i64 == old[2] as i64 + 3 * old[3] as i64 + 9 * old[4] as i64);
    let fr = sx::trits(7);
    let mut out = fr.clone();
    slm(&mut out).drop(2).put_tryte(t);
    ckeq!(&out[..2], &fr[..2]);
    ckeq!(&out[2..5], &old[2..5]);
    ckeq!(&out[5..], &fr[5..]);
    let mut a = fr.clone();
    slm(&mut a).drop(3).put_trit(w.get_trit());
    ck!(a[3] == old[2]);
    ckeq!(&a[..3], &fr[..3]);
    ckeq!(&a[4..], &fr[4..]);
    // arrays of trits and of signed trits
    let mut x = [9u8; 4];
    w.get_trits(&mut x);
    ckeq!(&x, &old[2..6]);
    let mut y = [9i8; 4];
    w.get1s(&mut y);
    for i in 0..4 {
        ck!(y[i] as i64 == sv(old[2 + i]));
    }
    let mut b = fr.clone();
    slm(&mut b).drop(1).put_trits(&x);
    ckeq!(&b[1..5], &x);
    ckeq!(&b[5..], &fr[5..]);
    let mut b = fr.clone();
    slm(&mut b).drop(1).put1s(&y);
    ckeq!(&b[1..5], &x);
    ckeq!(&b[5..], &fr[5..]);
    ckeq!(&b[..1], &fr[..1]);
    cover!(1);
}

fn in_alphabet(c: u8) -> bool {
    (c == b'9') | ((c >= b'A') & (c <= b'Z'))
}
/// Value of an alphabet character.
fn char_value(c: u8) -> i64 {
    let i = c as i64 - 'A' as i64 + 1; // 1..26 for letters
    let r = if i > 13 { i - 27 } else { i };
    if c == b'9' {
        0
    } else {
        r
    }
}
/// Any ASCII string of n characters.
#[no_mangle]
pub extern "C" fn c02_str() {
    let n = sx::param(0);
    let b = sx::bytes(n, 0, 128);
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let mut ok = true;
    for c in &b {
        ok &= in_alphabet(*c);
    }
    match Trits::from_str(s) {
        None => {
            cover!(2);
            ck!(!ok);
        }
        Some(t) => {
            ck!(ok);
            ck!(t.size() == 3 * n);
            let r = raw(&t);
            for i in 0..n {
                ck!(value(&r[3 * i..3 * i + 3]) == char_value(b[i]));
            }
            ckeq!(t.to_str().as_bytes(), &b);
            cover!(1);
        }
    }
}
/// Strings with one multi-byte character are rejected.
#[no_mangle]
pub extern "C" fn c02_utf8() {
    let len = sx::param(0);
    let pos = sx::param(1);
    let mut b = vec![b'A', b'9', b'Z'];
    let x = sx::bytes(3, 0x80, 64);
    let mut c = match len {
        2 => sx::bytes(1, 0xc2, 30),
        3 => sx::bytes(1, 0xe1, 12),
        _ => sx::bytes(1, 0xf1, 3),
    };
    c.extend_from_slice(&x[..len - 1]);
    for (i, y) in c.iter().enumerate() {
        b.insert(pos + i, *y);
    }
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    ck!(Trits::from_str(s).is_none());
    cover!(1);
}
/// Trits -> string -> trits; other lengths print as if padded with zero trits.
#[no_mangle]
pub extern "C" fn c02_trits() {
    let n = sx::param(0);
    let b = sx::trits(n);
    let s = tr(&b).to_str();
    ck!(s.len() == (n + 2) / 3);
    let mut p = b.clone();
    while p.len() % 3 != 0 {
        p.push(0);
    }
    let q = tr(&p).to_str();
    ckeq!(s.as_bytes(), q.as_bytes());
    for (i, c) in s.as_bytes().iter().enumerate() {
        ck!(in_alphabet(*c));
        ck!(char_value(*c) == value(&p[3 * i..3 * i + 3]));
    }
    match Trits::from_str(&s) {
        Some(t) => ckeq!(&raw(&t), &p),
        None => ck!(false),
    }
    cover!(1);
}
/// Parsing into a window that may be shorter than the string: accepted exactly when the trits
/// that do not fit are zero; nothing outside the window changes.
#[no_mangle]
pub extern "C" fn c02_window() {
    let m = sx::param(0);
    let n = sx::param(1);
    let b = sx::bytes(n, 0, 128);
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let old = sx::trits(m + 4);
    let mut buf = old.clone();
    let ok = slm(&mut buf).drop(2).take(m).from_str(s);
    let mut valid = true;
    for c in &b {
        valid &= in_alphabet(*c);
    }
    ckeq!(&buf[..2], &old[..2]);
    ckeq!(&buf[2 + m..], &old[2 + m..]);
    if ok {
        ck!(valid);
        let t = Trits::from_str(s).unwrap();
        let r = raw(&t);
        let k = if 3 * n < m { 3 * n } else { m };
        ckeq!(&buf[2..2 + k], &r[..k]);
        ckeq!(&buf[2 + k..2 + m], &old[2 + k..2 + m]);
        for x in &r[k..] {
            ck!(*x == 0);
        }
        cover!(1);
    } else if valid {
        let t = Trits::from_str(s).unwrap();
        let r = raw(&t);
        let mut z = true;
        for x in &r[m.min(3 * n)..] {
            z &= *x == 0;
        }
        ck!(!z);
        cover!(2);
    }
}
/// Character helpers over every char.
#[no_mangle]
pub extern "C" fn c02_char() {
    let u = sx::int(0, 0x10ffff) as u32;
    sx::assume((u < 0xd800) | (u > 0xdfff));
    let c = unsafe { std::char::from_u32_unchecked(u) };
    let valid = (u == 57) | ((u >= 65) & (u <= 90));
    match tryte_from_char(c) {
        None => ck!(!valid),
        Some(t) => {
            ck!(valid);
            ck!(t < 27);
            ck!(tryte_to_char(t) as u32 == u);
            cover!(1);
        }
    }
    match trint3_from_char(c) {
        None => ck!(!valid),
        Some(t) => {
            ck!(valid);
            ck!((t >= -13) & (t <= 13));
            ck!(trint3_to_char(t) as u32 == u);
            ck!(t as i64 == char_value(u as u8));
        }
    }
    let t = sx::bytes(1, 0, 27)[0];
    ck!(tryte_from_char(tryte_to_char(t)) == Some(t));
    let v = tryte_to_trint3(t);
    ck!(tryte_from_trint3(v) == t);
    ck!(trint3_to_char(v) == tryte_to_char(t));
    ck!(trint3_from_char(trint3_to_char(v)) == Some(v));
    cover!(2);
}

/// Balanced remainder/quotient for every i32.
#[no_mangle]
pub extern "C" fn c03_i32() {
    sx::mode(sx::M_MERGE, 0);
    let k = sx::param(0);
    let t = sx::int(i32::MIN as i64, i32::MAX as i64) as i32;
    let m = [3i64, 27, 19683][k];
    let (r, q) = match k {
        0 => {
            let (r, q) = mods1(t);
            (r as i64, q as i64)
        }
        1 => {
            let (r, q) = mods3(t);
            (r as i64, q as i64)
        }
        _ => {
            let (r, q) = mods9(t);
            (r as i64, q as i64)
        }
    };
    let h = (m - 1) / 2;
    ck!((r >= -h) & (r <= h));
    ck!(q * m + r == t as i64);
    cover!(1);
}
/// Unsigned variants for every usize up to the stated bound.
#[no_mangle]
pub extern "C" fn c03_usize() {
    let k = sx::param(0);
    let t = sx::int(0, i64::MAX) as usize;
    let m = [3u128, 27][k];
    let (r, q) = match k {
        0 => {
            let (r, q) = mods1_usize(t);
            (r as i64, q)
        }
        _ => {
            let (r, q) = mods3_usize(t);
            (r as i64, q)
        }
    };
    let h = (m as i64 - 1) / 2;
    ck!((r >= -h) & (r <= h));
    // q*m + r == t without wrapping: q <= (t + h) / m
    ck!(q <= usize::MAX / (m as usize));
    ck!(q.wrapping_mul(m as usize).wrapping_add(r as usize) == t);
    cover!(1);
}
/// Signed and unsigned variants agree.
#[no_mangle]
pub extern "C" fn c03_agree() {
    let k = sx::param(0);
    let t = sx::int(0, (1i64 << sx::param(1)) - 1);
    if k == 0 {
        let (a, b) = mods1(t as i32);
        let (c, d) = mods1_usize(t as usize);
        ck!(a == c);
        ck!(b as i64 == d as i64);
    } else {
        let (a, b) = mods3(t as i32);
        let (c, d) = mods3_usize(t as usize);
        ck!(a == c);
        ck!(b as i64 == d as i64);
    }
    cover!(1);
}

/// Range arithmetic of windows for arbitrary sizes (no memory access).
#[no_mangle]
pub extern "C" fn c04_ranges() {
    let mutable = sx::param(0) == 1;
    let lim = 1i64 << 40;
    let n = sx::int(0, lim) as usize;
    let d = sx::int(0, lim) as usize;
    let k = sx::int(0, lim) as usize;
    sx::assume(d <= n);
    let v = [0u8; 1];
    macro_rules! body {
        ($w:expr) => {
            let w = $w;
            ck!(w.size() == n - d);
            ck!(w.avail_size() == n - d);
            ck!(w.dropped_size() == d);
            ck!(w.total_size() == n);
            ck!(w.is_empty() == (n == d));
            ck!(w.size_min(k) == if k < n - d { k } else { n - d });
            ck!(w.pickup_all().size() == n);
            ck!(w.pickup_all().dropped_size() == 0);
            ck!(w.drop_all().size() == 0);
            ck!(w.drop_all().dropped_size() == n);
            ck!(w.dropped().size() == d);
            ck!(w.dropped().dropped_size() == 0);
            let c = if k < n - d { k } else { n - d };
            let t = w.take_min(k);
            ck!(t.size() == c);
            ck!(t.dropped_size() == d);
            let t = w.drop_min(k);
            ck!(t.size() == n - d - c);
            ck!(t.dropped_size() == d + c);
            ck!(t.total_size() == n);
            let (a, b) = w.split_at_min(k);
            ck!(a.size() == c);
            ck!(a.dropped_size() == d);
            ck!(b.size() == n - d - c);
            ck!(b.dropped_size() == d + c);
            if k <= d {
                let p = w.pickup(k);
                ck!(p.size() == n - d + k);
                ck!(p.dropped_size() == d - k);
                cover!(2);
            }
            if k <= n - d {
                let t = w.take(k);
                ck!(t.size() == k);
                ck!(t.dropped_size() == d);
                let t = w.drop(k);
                ck!(t.size() == n - d - k);
                ck!(t.dropped_size() == d + k);
                ck!(t.total_size() == n);
                let (a, b) = w.split_at(k);
                ck!(a.size() == k);
                ck!(a.dropped_size() == d);
                ck!(b.size() == n - d - k);
                ck!(b.dropped_size() == d + k);
                let mut x = w;
                let y = x.advance(k);
                ck!(y.size() == k);
                ck!(y.dropped_size() == d);
                ck!(x.size() == n - d - k);
                ck!(x.dropped_size() == d + k);
                let z = x.diff(w);
                ck!(z.size() == k);
                ck!(z.dropped_size() == d);
                cover!(3);
            }
        };
    }
    if mutable {
        body!(TritSliceMut::from_raw_ptr(n, v.as_ptr() as *mut u8).drop(d));
    } else {
        body!(TritSlice::from_raw_ptr(n, v.as_ptr()).drop(d));
    }
    cover!(1);
}
/// Window identity and overlap as position arithmetic.
#[no_mangle]
pub extern "C" fn c04_overlap() {
    let v = [0u8; 16];
    let mut q = [0usize; 4];
    for x in q.iter_mut() {
        *x = sx::int(0, 16) as usize;
    }
    sx::assume((q[0] <= q[1]) & (q[2] <= q[3]));
    let a = TritSlice::from_raw_ptr(q[1], v.as_ptr()).drop(q[0]);
    let b = TritSlice::from_raw_ptr(q[3], v.as_ptr()).drop(q[2]);
    ck!(a.is_same(b) == (q[0] == q[2]));
    ck!(a.is_overlapped(b) == ((q[0] < q[3]) & (q[2] < q[1])));
    cover!(1);
}

const FR: usize = 2;
/// A window of n trits with FR trits on each side.
fn framed(n: usize) -> Vec<u8> {
    sx::trits(n + 2 * FR)
}
fn w(v: &[u8]) -> TritSlice<'_> {
    sl(v).drop(FR).take(v.len() - 2 * FR)
}
fn wm(v: &mut [u8]) -> TritSliceMut<'_> {
    let n = v.len();
    slm(v).drop(FR).take(n - 2 * FR)
}
fn frame_kept(new: &[u8], old: &[u8]) {
    let n = old.len();
    ckeq!(&new[..FR], &old[..FR]);
    ckeq!(&new[n - FR..], &old[n - FR..]);
}
fn add(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| (x + y) % 3).collect()
}
fn sub(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| (3 + x - y) % 3).collect()
}
fn inner(v: &[u8]) -> Vec<u8> {
    v[FR..v.len() - FR].to_vec()
}

/// Copy, bulk addition and subtraction, fill: list semantics inside, frame untouched.
#[no_mangle]
pub extern "C" fn c04_bulk() {
    let n = sx::param(0);
    let a = framed(n);
    let b = framed(n);
    let c = framed(n);
    // copy
    let mut y = b.clone();
    w(&a).copy(wm(&mut y));
    ckeq!(&inner(&y), &inner(&a));
    frame_kept(&y, &b);
    // y := x + s, s := x
    let (mut s, mut y) = (b.clone(), c.clone());
    w(&a).copy_add(wm(&mut s), wm(&mut y));
    ckeq!(&inner(&y), &add(&inner(&a), &inner(&b)));
    ckeq!(&inner(&s), &inner(&a));
    frame_kept(&y, &c);
    frame_kept(&s, &b);
    // x := y - s, s := x
    let (mut s2, mut x) = (b.clone(), c.clone());
    w(&y).copy_sub(wm(&mut s2), wm(&mut x));
    ckeq!(&inner(&x), &inner(&a));
    ckeq!(&inner(&s2), &inner(&a));
    frame_kept(&x, &c);
    frame_kept(&s2, &b);
    let (mut s, mut x) = (b.clone(), c.clone());
    w(&a).copy_sub(wm(&mut s), wm(&mut x));
    ckeq!(&inner(&x), &sub(&inner(&a), &inner(&b)));
    ckeq!(&inner(&s), &inner(&x));
    // in place
    let (mut x, mut s) = (a.clone(), b.clone());
    wm(&mut x).swap_add(wm(&mut s));
    ckeq!(&inner(&x), &add(&inner(&a), &inner(&b)));
    ckeq!(&inner(&s), &inner(&a));
    frame_kept(&x, &a);
    frame_kept(&s, &b);
    let (mut x, mut s) = (a.clone(), b.clone());
    wm(&mut x).swap_sub(wm(&mut s));
    ckeq!(&inner(&x), &sub(&inner(&a), &inner(&b)));
    ckeq!(&inner(&s), &inner(&x));
    frame_kept(&x, &a);
    frame_kept(&s, &b);
    // fill
    let mut x = a.clone();
    wm(&mut x).set_zero();
    ckeq!(&inner(&x), &vec![0u8; n]);
    frame_kept(&x, &a);
    let mut x = a.clone();
    let t = sx::trits(1)[0];
    wm(&mut x).set_trit(t);
    ckeq!(&inner(&x), &vec![t; n]);
    frame_kept(&x, &a);
    // compare
    let e = sx::eq(&inner(&a), &inner(&b));
    ck!(TritSlice::eq(w(&a), w(&b)) == e);
    let (mut a2, mut b2) = (a.clone(), b.clone());
    ck!(TritSliceMut::eq(wm(&mut a2), wm(&mut b2)) == e);
    cover!(1);
}
/// Operations that clip to the shorter window.
#[no_mangle]
pub extern "C" fn c04_min() {
    let n = sx::param(0);
    let m = sx::param(1);
    let k = if n < m { n } else { m };
    let a = framed(n);
    let b = framed(m);
    let mut y = b.clone();
    ck!(w(&a).copy_min(wm(&mut y)) == k);
    ckeq!(&y[FR..FR + k], &a[FR..FR + k]);
    ckeq!(&y[FR + k..], &b[FR + k..]);
    ckeq!(&y[..FR], &b[..FR]);
    // arithmetic clipped to the state
    let c = framed(n);
    let (mut s, mut y) = (b.clone(), c.clone());
    ck!(w(&a).copy_add_min(wm(&mut s), wm(&mut y)) == k);
    ckeq!(&y[FR..FR + k], &add(&a[FR..FR + k], &b[FR..FR + k]));
    ckeq!(&s[FR..FR + k], &a[FR..FR + k]);
    ckeq!(&y[FR + k..], &c[FR + k..]);
    ckeq!(&s[FR + k..], &b[FR + k..]);
    frame_kept(&y, &c);
    frame_kept(&s, &b);
    let (mut s, mut x) = (b.clone(), c.clone());
    ck!(w(&a).copy_sub_min(wm(&mut s), wm(&mut x)) == k);
    ckeq!(&x[FR..FR + k], &sub(&a[FR..FR + k], &b[FR..FR + k]));
    ckeq!(&s[FR..FR + k], &x[FR..FR + k]);
    ckeq!(&x[FR + k..], &c[FR + k..]);
    ckeq!(&s[FR + k..], &b[FR + k..]);
    frame_kept(&x, &c);
    let (mut x, mut s) = (a.clone(), b.clone());
    ck!(wm(&mut x).swap_add_min(wm(&mut s)) == k);
    ckeq!(&x[FR..FR + k], &add(&a[FR..FR + k], &b[FR..FR + k]));
    ckeq!(&s[FR..FR + k], &a[FR..FR + k]);
    ckeq!(&x[FR + k..], &a[FR + k..]);
    ckeq!(&s[FR + k..], &b[FR + k..]);
    let (mut x, mut s) = (a.clone(), b.clone());
    ck!(wm(&mut x).swap_sub_min(wm(&mut s)) == k);
    ckeq!(&x[FR..FR + k], &sub(&a[FR..FR + k], &b[FR..FR + k]));
    ckeq!(&s[FR..FR + k], &x[FR..FR + k]);
    ckeq!(&x[FR + k..], &a[FR + k..]);
    ckeq!(&s[FR + k..], &b[FR + k..]);
    let (e, l) = w(&a).eq_min(w(&b));
    ck!(l == k);
    ck!(e == sx::eq(&a[FR..FR + k], &b[FR..FR + k]));
    let (mut a2, mut b2) = (a.clone(), b.clone());
    let (e2, l2) = wm(&mut a2).eq_min(wm(&mut b2));
    ck!((l2 == k) & (e2 == e));
    cover!(1);
}
/// Cycling, chunking, windows of windows, increment.
#[no_mangle]
pub extern "C" fn c04_cycle() {
    let n = sx::param(0);
    let m = sx::param(1);
    let a = framed(n);
    let b = framed(m);
    let mut y = b.clone();
    wm(&mut y).cycle(w(&a));
    frame_kept(&y, &b);
    for i in 0..m {
        ck!(y[FR + i] == if n == 0 { b[FR + i] } else { a[FR + i % n.max(1)] });
    }
    let t = Trits::cycle_trits(m, &tr(&inner(&a)));
    ck!(t.size() == m);
    let r = raw(&t);
    for i in 0..m {
        ck!(r[i] == if n == 0 { 0 } else { a[FR + i % n.max(1)] });
    }
    if n > 0 {
        let cs = w(&b).chunks(n);
        ck!(cs.len() == (m + n - 1) / n);
        let mut all = vec![];
        for (i, c) in cs.iter().enumerate() {
            ck!(c.size() == if (i + 1) * n <= m { n } else { m - i * n });
            all.extend(raw(c));
        }
        ckeq!(&all, &inner(&b));
        cover!(2);
    }
    cover!(1);
}
/// Windows obtained in different ways denote the trits their range says.
#[no_mangle]
pub extern "C" fn c04_views() {
    let n = sx::param(0);
    let v = sx::trits(n);
    let a = sx::choose(n + 1);
    let b = sx::choose(n + 1 - a);
    let s = sl(&v);
    let g = |x: TritSlice| raw(&x.clone_trits());
    ckeq!(&g(s.drop(a).take(b)), &v[a..a + b]);
    ckeq!(&g(s.take(a + b).drop(a)), &v[a..a + b]);
    let (l, r) = s.split_at(a);
    ckeq!(&g(l), &v[..a]);
    ckeq!(&g(r), &v[a..]);
    let mut x = s;
    let y = x.advance(a);
    let z = x.advance(b);
    ckeq!(&g(y), &v[..a]);
    ckeq!(&g(z), &v[a..a + b]);
    ckeq!(&g(x), &v[a + b..]);
    ckeq!(&g(x.diff(s)), &v[..a + b]);
    ckeq!(&g(x.dropped()), &v[..a + b]);
    ckeq!(&g(x.pickup(b)), &v[a..]);
    ckeq!(&g(x.pickup_all()), &v);
    ckeq!(&g(x.drop_all()), &[]);
    ckeq!(&g(z.pickup(a).take(a)), &v[..a]);
    ckeq!(&raw(&Trits::from_slice(s.drop(a))), &v[a..]);
    // writing through one part of a split leaves the other alone
    let old = sx::trits(n);
    let mut buf = old.clone();
    let (l, r) = slm(&mut buf).split_at(a);
    s.take(a).copy(l);
    let _ = r;
    ckeq!(&buf[..a], &v[..a]);
    ckeq!(&buf[a..], &old[a..]);
    let mut buf = old.clone();
    let mut m = slm(&mut buf);
    let _ = m.advance(a);
    s.drop(a).copy(m);
    ckeq!(&buf[..a], &old[..a]);
    ckeq!(&buf[a..], &v[a..]);
    let mut buf = old.clone();
    let m = slm(&mut buf).drop(a).take(b);
    s.drop(a).take(b).copy(m);
    ckeq!(&buf[..a], &old[..a]);
    ckeq!(&buf[a..a + b], &v[a..a + b]);
    ckeq!(&buf[a + b..], &old[a + b..]);
    cover!(1);
}
/// Increment is +1 on the window read as an unsigned ternary integer; false on wrap-around.
#[no_mangle]
pub extern "C" fn c04_inc() {
    let n = sx::param(0);
    let a = framed(n);
    let mut y = a.clone();
    let ok = wm(&mut y).inc();
    frame_kept(&y, &a);
    let u = |v: &[u8]| v.iter().rev().fold(0u64, |s, t| 3 * s + *t as u64);
    let (x, z) = (u(&a[FR..FR + n]), u(&y[FR..FR + n]));
    let m = 3u64.pow(n as u32);
    if ok {
        ck!(z == x + 1);
        cover!(1);
    } else {
        ck!((z == 0) & (x == m - 1));
        cover!(2);
    }
}

/// Collects what is fed to a hasher.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hash(t: &Trits) -> Vec<u8> {
    let mut h = Rec(vec![]);
    t.hash(&mut h);
    h.0
}
/// Equality is length and contents, for containers and both kinds of window; hashing agrees.
#[no_mangle]
pub extern "C" fn c05_eq() {
    let n = sx::param(0);
    let m = sx::param(1);
    let a = sx::trits(n + 1);
    let b = sx::trits(m + 2);
    let (x, y) = (&a[1..], &b[..m]);
    let e = n == m && sx::eq(x, y);
    let (p, q) = (tr(x), tr(y));
    ck!((p == q) == e);
    ck!((q == p) == e);
    ck!((p != q) != e);
    ck!((p.slice() == q.slice()) == e);
    ck!((sl(&a).drop(1) == sl(&b).take(m)) == e);
    ck!(sl(&a).drop(1) == p.slice());
    let (mut a2, mut b2) = (a.clone(), b.clone());
    ck!((slm(&mut a2).drop(1) == slm(&mut b2).take(m)) == e);
    ck!(p == p);
    ck!(p.size() == n);
    ck!(p.is_empty() == (n == 0));
    let (h, g) = (hash(&p), hash(&q));
    if n == m {
        ck!(h.len() == g.len());
        ck!(!e | sx::eq(&h, &g));
    }
    if e {
        cover!(1);
        ckeq!(&h, &g);
    } else {
        cover!(2);
    }
}
/// Transitivity, on three sequences.
#[no_mangle]
pub extern "C" fn c05_trans() {
    let n = sx::param(0);
    let (a, b, c) = (strits(n), strits(n), strits(n));
    let (ab, bc, ac) = (a == b, b == c, a == c);
    ck!(!(ab & bc) | ac);
    ck!(!(ab & !bc) | !ac);
    cover!(1);
}
/// Clones are equal and independent.
#[no_mangle]
pub extern "C" fn c05_clone() {
    let n = sx::param(0);
    let a = sx::trits(n);
    let mut t = tr(&a);
    let mut c = t.clone();
    ck!(c == t);
    ckeq!(&raw(&c), &a);
    ckeq!(&hash(&c), &hash(&t));
    let k = sx::choose(n);
    let v = sx::trits(1)[0];
    t.slice_mut().drop(k).put_trit(v);
    ckeq!(&raw(&c), &a);
    let mut d = t.slice().clone_trits();
    c.slice_mut().set_zero();
    let mut e = a.clone();
    e[k] = v;
    ckeq!(&raw(&t), &e);
    d.slice_mut().set_zero();
    ckeq!(&raw(&t), &e);
    let f = Trits::from_slice(t.slice());
    drop(t);
    ckeq!(&raw(&f), &e);
    ckeq!(&raw(&Trits::zero(n)), &vec![0u8; n]);
    cover!(1);
}

/// Moving a window within one buffer: the source trits as they were, wherever the two overlap.
#[no_mangle]
pub extern "C" fn c04_move() {
    let n = sx::param(0);
    for from in 0..=n {
        for to in 0..=n {
            for len in 0..=n - from.max(to) {
                let old = sx::trits(n);
                let mut buf = old.clone();
                let w = slm(&mut buf);
                w.as_const().drop(from).take(len).copy(w.drop(to).take(len));
                let mut want = old.clone();
                want[to..to + len].clone_from_slice(&old[from..from + len]);
                ckeq!(&buf, &want);
            }
        }
    }
    cover!(1);
}

harnesses! { c04_move c01_near c01_trits c01_int c01_tryte c02_str c02_utf8 c02_trits c02_window c02_char c03_i32 c03_usize c03_agree
c04_ranges c04_overlap c04_bulk c04_min c04_cycle c04_views c04_inc c05_eq c05_trans c05_clone }
