//! C07-C10: sponge and generator.
use crate::sx;
use crate::util::*;
use crate::*;
use iota_mam::prng;
use iota_mam::spongos::{hash_data, hash_datas, Spongos};
use iota_mam::trits::*;

const FILE: u64 = 3;

/// A sponge with arbitrary content: p absorbed trits after an arbitrary committed key.
pub fn start(p: usize) -> Spongos {
    let mut s = Spongos::init();
    s.absorb_trits(&strits(243));
    s.commit();
    if p > 0 {
        s.absorb_trits(&strits(p));
    }
    s
}
/// Everything a caller can learn about a sponge state, on copies.
pub fn observe(s: &Spongos) -> Vec<u8> {
    let mut f = s.fork();
    let mut v = raw(&f.squeeze_trits(487));
    f.commit();
    v.extend(raw(&f.to_inner_trits()));
    let mut g = s.fork();
    g.commit();
    v.extend(raw(&g.to_inner_trits()));
    v.extend(raw(&g.squeeze_trits(486)));
    v
}
/// A cut of n items: anywhere for small n, else around the ends, the middle and block boundaries
/// (p trits are already in the block).
fn cut(n: usize, p: usize) -> usize {
    if n <= 200 {
        return sx::choose(n + 1);
    }
    let mut c: Vec<usize> = vec![0, 1, 2, 3, n / 2, n - 1, n];
    let mut b = 486 - p % 486;
    while b <= n + 1 {
        for x in [b.max(2) - 2, b - 1, b, b + 1] {
            if x <= n && !c.contains(&x) {
                c.push(x);
            }
        }
        b += 486;
    }
    c[sx::choose(c.len())]
}
/// One sponge operation on a piece of data; output appended. False: comparison failed.
fn apply(s: &mut Spongos, op: usize, x: &[u8], out: &mut Vec<u8>) -> bool {
    match op {
        0 => {
            s.absorb(sl(x));
            true
        }
        1 => {
            let mut y = vec![9u8; x.len()];
            s.squeeze(slm(&mut y));
            out.extend(y);
            true
        }
        2 => {
            let mut y = vec![0u8; x.len()];
            s.encr(sl(x), slm(&mut y));
            out.extend(y);
            true
        }
        3 => {
            let mut y = vec![0u8; x.len()];
            s.decr(sl(x), slm(&mut y));
            out.extend(y);
            true
        }
        4 => {
            let mut t = tr(x);
            s.encr_mut_trits(&mut t);
            out.extend(raw(&t));
            true
        }
        5 => {
            let mut t = tr(x);
            s.decr_mut_trits(&mut t);
            out.extend(raw(&t));
            true
        }
        6 => s.squeeze_eq(sl(x)),
        7 => {
            out.extend(raw(&s.encr_trits(&tr(x))));
            true
        }
        8 => {
            out.extend(raw(&s.decr_trits(&tr(x))));
            true
        }
        9 => {
            s.absorb_trits(&tr(x));
            true
        }
        10 => {
            out.extend(raw(&s.squeeze_trits(x.len())));
            true
        }
        _ => s.squeeze_eq_trits(&tr(x)),
    }
}
/// Whole against pieces: operation op on n trits at position p, cut at i and j (both chosen
/// freely when free = 1, else one cut).
#[no_mangle]
pub extern "C" fn c07_chunks() {
    sx::mode(sx::M_UF, 1);
    let op = sx::param(0);
    let p = sx::param(1);
    let n = sx::param(2);
    let free = sx::param(3);
    let a0 = start(p);
    let x = sx::trits(n);
    let mut a = a0.fork();
    let mut b = a0.fork();
    let i = cut(n, p);
    let j = if free == 1 { i + cut(n - i, p + i) } else { i };
    let mut u = vec![];
    let mut v = vec![];
    let ra = apply(&mut a, op, &x, &mut u);
    let mut rb = apply(&mut b, op, &x[..i], &mut v);
    rb &= apply(&mut b, op, &x[i..j], &mut v);
    rb &= apply(&mut b, op, &[], &mut v);
    rb &= apply(&mut b, op, &x[j..], &mut v);
    ckeq!(&u, &v);
    ck!(ra == rb);
    ckeq!(&observe(&a), &observe(&b));
    cover!(1);
}
/// Commit on a committed state does nothing (also after a full block, which commits by itself).
#[no_mangle]
pub extern "C" fn c07_commit() {
    sx::mode(sx::M_UF, 1);
    let mut s = start(sx::param(0));
    s.commit();
    let a = observe(&s);
    s.commit();
    ckeq!(&a, &observe(&s));
    s.absorb(sl(&[]));
    s.squeeze(slm(&mut []));
    s.encr(sl(&[]), slm(&mut []));
    s.decr(sl(&[]), slm(&mut []));
    s.commit();
    ckeq!(&a, &observe(&s));
    // hashing shortcuts
    let n = sx::param(1);
    let x = sx::trits(n);
    let i = cut(n, 0);
    let mut h = vec![0u8; 243];
    hash_data(sl(&x), slm(&mut h));
    let mut g = vec![0u8; 243];
    hash_datas(&[sl(&x[..i]), sl(&[]), sl(&x[i..])], slm(&mut g));
    ckeq!(&h, &g);
    let mut r = Spongos::init();
    r.absorb(sl(&x));
    r.commit();
    ckeq!(&raw(&r.squeeze_trits(243)), &h);
    cover!(1);
}
/// Encryption and decryption from equal states, all combinations of in-place and out-of-place.
#[no_mangle]
pub extern "C" fn c08_roundtrip() {
    sx::mode(sx::M_UF, 1);
    let p = sx::param(0);
    let n = sx::param(1);
    let s0 = start(p);
    let x = sx::trits(n);
    let mut e = vec![];
    let mut a = s0.fork();
    apply(&mut a, 2, &x, &mut e);
    let oa = observe(&a);
    for op in [4, 7] {
        let mut b = s0.fork();
        let mut e2 = vec![];
        apply(&mut b, op, &x, &mut e2);
        ckeq!(&e, &e2);
        ckeq!(&oa, &observe(&b));
    }
    for op in [3, 5, 8] {
        let mut b = s0.fork();
        let mut d = vec![];
        apply(&mut b, op, &e, &mut d);
        ckeq!(&d, &x);
        ckeq!(&oa, &observe(&b));
    }
    // the other direction: encryption inverts decryption
    let mut d = vec![];
    let mut b = s0.fork();
    apply(&mut b, 3, &x, &mut d);
    let mut c = s0.fork();
    let mut x2 = vec![];
    apply(&mut c, 2, &d, &mut x2);
    ckeq!(&x, &x2);
    ckeq!(&observe(&b), &observe(&c));
    cover!(1);
}
/// In-place operation on a window inside a larger buffer, in pieces, against out-of-place.
#[no_mangle]
pub extern "C" fn c08_window() {
    sx::mode(sx::M_UF, 1);
    let p = sx::param(0);
    let n = sx::param(1);
    let decr = sx::param(2) == 1;
    let s0 = start(p);
    let buf = sx::trits(n + 5);
    let mut a = s0.fork();
    let mut y = vec![0u8; n];
    if decr {
        a.decr(sl(&buf).drop(2).take(n), slm(&mut y));
    } else {
        a.encr(sl(&buf).drop(2).take(n), slm(&mut y));
    }
    let mut b = s0.fork();
    let mut z = buf.clone();
    let i = cut(n, p);
    {
        let w = slm(&mut z).drop(2).take(n);
        for q in [w.take(i), w.drop(i)] {
            if decr {
                b.decr(q.as_const(), q);
            } else {
                b.encr(q.as_const(), q);
            }
        }
    }
    ckeq!(&z[..2], &buf[..2]);
    ckeq!(&z[2..2 + n], &y);
    ckeq!(&z[2 + n..], &buf[2 + n..]);
    ckeq!(&observe(&a), &observe(&b));
    // source and destination that share a buffer without overlapping
    let mut c = s0.fork();
    let mut w = vec![0u8; 2 * n + 3];
    w[1..n + 1].copy_from_slice(&buf[2..n + 2]);
    let old = w.clone();
    {
        let d = slm(&mut w);
        let x = d.drop(1).take(n).as_const();
        let y = d.drop(n + 2).take(n);
        if decr {
            c.decr(x, y);
        } else {
            c.encr(x, y);
        }
    }
    ckeq!(&w[..n + 2], &old[..n + 2]);
    ckeq!(&w[n + 2..2 * n + 2], &y);
    ckeq!(&w[2 * n + 2..], &old[2 * n + 2..]);
    ckeq!(&observe(&a), &observe(&c));
    cover!(1);
}
/// Comparison against the squeezed stream.
#[no_mangle]
pub extern "C" fn c09_compare() {
    sx::mode(sx::M_UF, 1);
    let p = sx::param(0);
    let n = sx::param(1);
    let s0 = start(p);
    // the compared trits are the squeezed ones plus an arbitrary difference
    let diff = sx::trits(n);
    let mut a = s0.fork();
    let t = raw(&a.squeeze_trits(n));
    let y: Vec<u8> = t.iter().zip(&diff).map(|(a, b)| (a + b) % 3).collect();
    let mut b = s0.fork();
    let r = b.squeeze_eq(sl(&y));
    ckeq!(&observe(&a), &observe(&b));
    let mut c = s0.fork();
    let r2 = c.squeeze_eq_trits(&tr(&y));
    ck!(r == r2);
    ck!(r == sx::eq(&diff, &vec![0; n]));
    // the same trits are accepted
    let mut d = s0.fork();
    ck!(d.squeeze_eq(sl(&t)));
    cover!(1);
    if sx::feasible(!r) {
        cover!(2);
    }
}
/// Forks do not influence each other.
#[no_mangle]
pub extern "C" fn c09_fork() {
    sx::mode(sx::M_UF, 1);
    let p = sx::param(0);
    let op = sx::param(1);
    let n = sx::param(2);
    let s = start(p);
    let x = sx::trits(n);
    let before = observe(&s);
    let mut f = s.fork();
    ckeq!(&observe(&f), &before);
    let mut out = vec![];
    apply(&mut f, op, &x, &mut out);
    f.commit();
    ckeq!(&observe(&s), &before);
    // the other way round: the fork is unchanged when the origin moves on
    let g = s.fork();
    let mut s = s;
    apply(&mut s, op, &x, &mut out);
    s.commit();
    ckeq!(&observe(&g), &before);
    // both moved the same way are equal
    ckeq!(&observe(&s), &observe(&f));
    // fork_at replaces whatever the target was
    let mut h = start(sx::param(3));
    g.fork_at(&mut h);
    ckeq!(&observe(&h), &before);
    apply(&mut h, op, &x, &mut out);
    ckeq!(&observe(&g), &before);
    cover!(1);
}
/// Join absorbs what the joinee squeezes; both move on as if done by hand.
#[no_mangle]
pub extern "C" fn c09_join() {
    sx::mode(sx::M_UF, 1);
    let mut s = start(sx::param(0));
    let mut j = start(sx::param(1));
    let mut s2 = s.fork();
    let mut j2 = j.fork();
    s.join(&mut j);
    let x = j2.squeeze_trits(243);
    s2.absorb_trits(&x);
    ckeq!(&observe(&s), &observe(&s2));
    ckeq!(&observe(&j), &observe(&j2));
    cover!(1);
}
/// A state restored from a saved inner part continues identically on full blocks.
#[no_mangle]
pub extern "C" fn c09_inner() {
    sx::mode(sx::M_UF, 1);
    let p = sx::param(0);
    let n = sx::param(1);
    let mut s = start(p);
    s.commit();
    let inner = s.to_inner_trits();
    let mut r = Spongos::from_inner_trits(&inner);
    ckeq!(&raw(&r.to_inner_trits()), &raw(&inner));
    let mut b = vec![0u8; 247];
    s.to_inner(slm(&mut b).drop(2).take(243));
    ckeq!(&b[2..245], &raw(&inner));
    ckeq!(&b[..2], &[0, 0]);
    ckeq!(&b[245..], &[0, 0]);
    let mut q = Spongos::from_inner(sl(&b).drop(2).take(243));
    let x = sx::trits(n);
    s.absorb(sl(&x));
    r.absorb(sl(&x));
    q.absorb(sl(&x));
    ckeq!(&observe(&s), &observe(&r));
    ckeq!(&observe(&s), &observe(&q));
    cover!(1);
}
/// Generator: the output depends on the key and the concatenated nonces only.
#[no_mangle]
pub extern "C" fn c10_gen() {
    sx::mode(sx::M_UF, 1);
    let n = sx::param(0);
    let m = sx::param(1);
    let k = sx::trits(243);
    let nonce = sx::trits(n);
    let g = prng::init(sl(&k));
    let mut r = vec![9u8; m];
    g.gen(sl(&nonce), slm(&mut r));
    ckeq!(&raw(&g.gen_trits(&tr(&nonce), m)), &r);
    // other calls in between make no difference
    g.gen_trits(&strits(7), 300);
    let i = cut(n, 243);
    let j = i + (n - i) / 2;
    let mut q = vec![9u8; m];
    g.gens(&[sl(&nonce[..i]), sl(&[]), sl(&nonce[i..j]), sl(&nonce[j..])], slm(&mut q));
    ckeq!(&q, &r);
    // long pieces: everything but the last or the first two trits at once
    for c in [n - n.min(2), n.min(2)] {
        let mut q = vec![9u8; m];
        g.gens(&[sl(&nonce[..c]), sl(&nonce[c..])], slm(&mut q));
        ckeq!(&q, &r);
    }
    // several outputs are the pieces of one
    let c = (i * 5) % (m + 1);
    let mut y = vec![9u8; m + 2];
    {
        let w = slm(&mut y);
        g.genss(&[sl(&nonce[..i]), sl(&nonce[i..])], &[w.drop(1).take(c), w.drop(1).take(0), w.drop(1 + c).take(m - c)]);
    }
    ckeq!(&y[1..m + 1], &r);
    ck!((y[0] == 9) & (y[m + 1] == 9));
    // a shorter request is a prefix
    ckeq!(&raw(&g.gen_trits(&tr(&nonce), c)), &r[..c]);
    // another instance with the same key, and a clone
    ckeq!(&raw(&prng::init_trits(&tr(&k)).gen_trits(&tr(&nonce), m)), &r);
    ckeq!(&raw(&g.clone().gen_trits(&tr(&nonce), m)), &r);
    cover!(1);
}
/// Different keys or nonces (of one length) give different output, for a permutation without
/// collisions on the squeezed window.
#[no_mangle]
pub extern "C" fn c10_differ() {
    sx::mode(sx::M_UF, 1);
    sx::mode(sx::M_CF, 1);
    let n = sx::param(0);
    let k = sx::trits(243);
    let k2 = sx::trits(243);
    let nonce = sx::trits(n);
    let nonce2 = sx::trits(n);
    let a = prng::init(sl(&k)).gen_trits(&tr(&nonce), 243);
    let b = prng::init(sl(&k2)).gen_trits(&tr(&nonce2), 243);
    let mut c = vec![0u8; 243];
    let h = n / 2;
    prng::init(sl(&k2)).gens(&[sl(&nonce2[..h]), sl(&nonce2[h..])], slm(&mut c));
    sx::assume(!sx::eq(&[&k[..], &nonce].concat(), &[&k2[..], &nonce2].concat()));
    ck!(!sx::eq(&raw(&a), &raw(&b)));
    ck!(!sx::eq(&raw(&a), &c));
    cover!(1);
}
harnesses! { c07_chunks c07_commit c08_roundtrip c08_window c09_compare c09_fork c09_join c09_inner c10_gen c10_differ }
