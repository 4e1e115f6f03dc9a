//! C16, C17: one-time signatures.
use crate::sx;
use crate::util::*;
use crate::*;
use iota_mam::prng;
use iota_mam::trits::TritSliceMut;
use iota_mam::wots;

const FILE: u64 = 5;
const PART: usize = 162;
const PARTS: usize = 81;

/// A hash whose trytes lo..hi are arbitrary and the others have the value `base`.
fn hash(lo: usize, hi: usize, base: i64) -> Vec<u8> {
    let mut h = vec![0u8; 234];
    for i in 0..78 {
        slm(&mut h[3 * i..3 * i + 3]).put3(base as i8);
    }
    let x = sx::trits(3 * (hi - lo));
    h[3 * lo..3 * hi].clone_from_slice(&x);
    h
}
fn key() -> wots::PrivateKey {
    let k = sx::trits(243);
    let nonce = sx::trits(9);
    wots::PrivateKey::gen(&prng::init(sl(&k)), &[sl(&nonce)])
}
/// The public key recovered from the signature of a hash is the key's public key; hashing is
/// one unknown function, chains are really walked.
#[no_mangle]
pub extern "C" fn c16_sign() {
    sx::mode(sx::M_UF, 1);
    model_hash();
    let (lo, hi) = (sx::param(0), sx::param(1));
    let base = sx::param(2) as i64 - 13;
    let sk = key();
    let h = hash(lo, hi, base);
    let p = wots::PublicKey::gen(&sk);
    let mut pk = vec![0u8; wots::PK_SIZE];
    sk.calc_pk(slm(&mut pk));
    for i in lo..hi {
        // one path per value of the tryte
        sx::concrete((13 + value(&h[3 * i..3 * i + 3])) as usize);
    }
    let mut sig = vec![0u8; wots::SIG_SIZE];
    sk.sign(sl(&h), slm(&mut sig));
    let mut rec = vec![0u8; wots::PK_SIZE];
    wots::recover(sl(&h), sl(&sig), slm(&mut rec));
    ckeq!(&rec, &pk);
    ck!(p.verify(sl(&h), sl(&sig)));
    cover!(1);
}

/// Chain lengths asked for, in order.
static mut COUNT: [usize; 16 * PARTS] = [0; 16 * PARTS];
static mut NCOUNT: usize = 0;
pub fn record(n: usize, h: TritSliceMut) {
    ck!(h.size() == PART);
    unsafe {
        COUNT[NCOUNT] = n;
        NCOUNT += 1;
    }
}
pub fn counts() -> Vec<usize> {
    unsafe {
        let mut v = vec![0; NCOUNT];
        for i in 0..NCOUNT {
            v[i] = COUNT[i];
        }
        NCOUNT = 0;
        v
    }
}
/// Every hash: chain lengths of signing and recovering complement each other, and every part
/// ends where it belongs (chains replaced by the identity).
#[no_mangle]
pub extern "C" fn c16_counts() {
    sx::mode(sx::M_UF, 1);
    unsafe { wots::VERIF_REHASH = Some(record) }
    let sk = key();
    let h = sx::trits(234);
    let h0 = h.clone();
    let mut pk = vec![0u8; wots::PK_SIZE];
    sk.calc_pk(slm(&mut pk));
    let c = counts();
    ck!(c.len() == PARTS);
    for i in 0..PARTS {
        ck!(c[i] == 26);
    }
    let mut sig = vec![0u8; wots::SIG_SIZE];
    sk.sign(sl(&h), slm(&mut sig));
    let s = counts();
    let mut sig2 = vec![0u8; wots::SIG_SIZE];
    sk.sign(sl(&h), slm(&mut sig2));
    let s2 = counts();
    ckeq!(&sig, &sig2);
    let mut rec = vec![0u8; wots::PK_SIZE];
    wots::recover(sl(&h), sl(&sig), slm(&mut rec));
    let r = counts();
    ck!(s.len() == PARTS && s2.len() == PARTS && r.len() == PARTS);
    for i in 0..PARTS {
        ck!(s[i] <= 26);
        ck!(s[i] == s2[i]);
        ck!(s[i] + r[i] == 26);
    }
    ckeq!(&h, &h0);
    ckeq!(&rec, &pk);
    cover!(1);
}
/// Every hash: chain lengths encode the hash and minus its digit sum.
#[no_mangle]
pub extern "C" fn c17_counts() {
    sx::mode(sx::M_UF, 1);
    unsafe { wots::VERIF_REHASH = Some(record) }
    let sk = wots::PrivateKey::gen(&prng::init(sl(&vec![0; 243])), &[sl(&[0; 9])]);
    let h = sx::trits(234);
    let mut sig = vec![0u8; wots::SIG_SIZE];
    sk.sign(sl(&h), slm(&mut sig));
    let s = counts();
    ck!(s.len() == PARTS);
    let mut sum = 0i64;
    for i in 0..78 {
        ck!(s[i] as i64 == 13 + value(&h[3 * i..3 * i + 3]));
        sum += value(&h[3 * i..3 * i + 3]);
    }
    for i in 78..81 {
        ck!(s[i] <= 26);
    }
    let v = (s[78] as i64 - 13) + 27 * (s[79] as i64 - 13) + 729 * (s[80] as i64 - 13);
    ck!(v == -sum);
    cover!(1);
}
/// From the previous fact: if no chain of `b` is shorter than that of `a`, the hashes are equal.
/// One step of the sum per run of the loop body, with arbitrary partial sums.
#[no_mangle]
pub extern "C" fn c17_order() {
    // Prefix sums: below-or-equal in every part keeps the sums ordered, and strictly so
    // after a part that differs.
    let (sa, sb) = (sx::int(-1100, 1100), sx::int(-1100, 1100));
    let (x, y) = (sx::trits(3), sx::trits(3));
    let (x, y) = (value(&x), value(&y));
    sx::assume(x <= y);
    sx::assume(sa <= sb);
    ck!(sa + x <= sb + y);
    ck!((sa + x < sb + y) == ((sa < sb) | (x < y)));
    // Checksum digits below-or-equal give a checksum below-or-equal: it cannot be minus a
    // larger sum.
    let (c, d) = (sx::trits(9), sx::trits(9));
    for i in 0..3 {
        sx::assume(value(&c[3 * i..3 * i + 3]) <= value(&d[3 * i..3 * i + 3]));
    }
    ck!(value(&c) <= value(&d));
    cover!(1);
}
/// Two hashes that differ in two trytes only, directly.
#[no_mangle]
pub extern "C" fn c17_pair() {
    sx::mode(sx::M_UF, 1);
    unsafe { wots::VERIF_REHASH = Some(record) }
    let (i, j) = (sx::param(0), sx::param(1));
    let base = sx::param(2) as i64 - 13;
    let sk = wots::PrivateKey::gen(&prng::init(sl(&vec![0; 243])), &[sl(&[0; 9])]);
    let mut a = hash(i, i + 1, base);
    let x = sx::trits(3);
    a[3 * j..3 * j + 3].clone_from_slice(&x);
    let mut b = a.clone();
    let y = sx::trits(6);
    b[3 * i..3 * i + 3].clone_from_slice(&y[..3]);
    b[3 * j..3 * j + 3].clone_from_slice(&y[3..]);
    let mut sig = vec![0u8; wots::SIG_SIZE];
    sk.sign(sl(&a), slm(&mut sig));
    let s = counts();
    sk.sign(sl(&b), slm(&mut sig));
    let t = counts();
    ck!(s.len() == PARTS && t.len() == PARTS);
    let mut below = true;
    for k in 0..PARTS {
        below &= s[k] <= t[k];
    }
    let same = sx::eq(&a, &b);
    ck!(!below | same);
    cover!(1);
}
harnesses! { c16_sign c16_counts c17_counts c17_order c17_pair }
