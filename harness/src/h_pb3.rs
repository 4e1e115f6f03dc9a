//! C11-C15: PB3 fields and commands.
use crate::h_spongos::{observe, start};
use crate::sx;
use crate::util::*;
use crate::*;
use iota_mam::pb3::{absorb::AbsorbExternal, join, mac, *};
use iota_mam::spongos::Spongos;
use iota_mam::trits::*;

const FILE: u64 = 4;

const SIZE_MAX: i64 = 2_026_277_576_509_488_133;

/// Encode in plain (kind 0) or masked (kind 1) form.
fn enc<T: Absorb + Mask>(kind: usize, v: &T, s: &mut Spongos, b: &mut TritSliceMut) {
    if kind == 0 {
        v.wrap_absorb(s, b)
    } else {
        v.wrap_mask(s, b)
    }
}
fn dec<T: Absorb + Mask>(kind: usize, s: &mut Spongos, b: &mut TritSlice) -> Result<T> {
    if kind == 0 {
        T::unwrap_absorb_sized(s, b)
    } else {
        T::unwrap_mask_sized(s, b)
    }
}
fn dec_in<T: Absorb + Mask>(kind: usize, v: &mut T, s: &mut Spongos, b: &mut TritSlice) -> Result<()> {
    if kind == 0 {
        v.unwrap_absorb(s, b)
    } else {
        v.unwrap_mask(s, b)
    }
}
/// A buffer that is read as y. (Encryption is a bijection, see C08: all buffers are covered.)
fn cipher(kind: usize, s0: &Spongos, y: &[u8]) -> Vec<u8> {
    let mut x = y.to_vec();
    if kind == 1 {
        s0.fork().encr(sl(y), slm(&mut x));
    }
    x
}
/// Three trits of a balanced value, explored value by value.
fn digit() -> [u8; 3] {
    let v = sx::choose(27);
    [(v % 3) as u8, (v / 3 % 3) as u8, (v / 9) as u8]
}
/// Arbitrary trits; the head and the most significant digit of a size at the start are explored
/// value by value, the rest is symbolic.
fn size_trits(len: usize) -> Vec<u8> {
    let mut y = sx::trits(len);
    if len >= 3 {
        y[..3].copy_from_slice(&digit());
        let d = value(&y[..3]);
        if 0 < d && 3 * (d as usize + 1) <= len {
            let n = 3 * (d as usize + 1);
            y[n - 3..n].copy_from_slice(&digit());
        }
    }
    y
}
/// Same with the size behind a prefix.
pub fn size_trits_at(len: usize, at: usize) -> Vec<u8> {
    if len <= at {
        return sx::trits(len);
    }
    let mut v = sx::trits(at);
    v.extend(size_trits(len - at));
    v
}
/// Balanced value, digit by digit.
fn digits(t: &[u8]) -> i64 {
    let mut r = 0;
    for i in 0..t.len() / 3 {
        r += pow27(i) * value(&t[3 * i..3 * i + 3]);
    }
    r
}
fn pow27(d: usize) -> i64 {
    let mut r = 1i64;
    for _ in 0..d {
        r *= 27;
    }
    r
}
/// Advertised size of every supported value.
#[no_mangle]
pub extern "C" fn c11_sizeof() {
    let n = sx::int(0, SIZE_MAX);
    let k = sizeof_sizet(n as usize);
    // smallest number of balanced digits that can hold n
    let mut ok = k == 3;
    ok &= n == 0;
    for d in 1..14 {
        let lo = (pow27(d - 1) - 1) / 2;
        let hi = if d == 13 { SIZE_MAX } else { (pow27(d) - 1) / 2 };
        ok |= (k == 3 * (d + 1)) & (n > lo) & (n <= hi);
    }
    ck!(ok);
    ck!(Size(n as usize).sizeof() == k);
    ck!(sizeof_repeated(n as usize) == k);
    cover!(1);
}
/// Values with d digits: written in the advertised number of trits, read back.
#[no_mangle]
pub extern "C" fn c11_round() {
    sx::mode(sx::M_UF, 1);
    let kind = sx::param(0);
    let d = sx::param(1);
    let p = sx::param(2);
    // every value with d digits, as its balanced digits (the last one positive)
    let mut v = 0i64;
    for i in 0..d {
        v += pow27(i) * sx::int(if i == d - 1 { 1 } else { -13 }, 13);
    }
    let n = 3 * (d + 1);
    let s0 = start(p);
    let mut buf = sx::trits(n + 4);
    let old = buf.clone();
    let mut w = s0.fork();
    {
        let mut b = slm(&mut buf).drop(2);
        enc(kind, &Size(v as usize), &mut w, &mut b);
        ck!(b.size() == 2);
    }
    ckeq!(&buf[..2], &old[..2]);
    ckeq!(&buf[n + 2..], &old[n + 2..]);
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2);
    match dec::<Size>(kind, &mut r, &mut b) {
        Ok(x) => {
            ck!(x.0 == v as usize);
            ck!(b.size() == 2);
        }
        Err(_) => ck!(false),
    }
    ckeq!(&observe(&w), &observe(&r));
    cover!(1);
}
/// Arbitrary trits read as a size: canonical encodings only; accepted ones are what the writer
/// writes for the value.
#[no_mangle]
pub extern "C" fn c11_decode() {
    sx::mode(sx::M_UF, 1);
    let kind = sx::param(0);
    let len = sx::param(1);
    let s0 = start(0);
    // what the reader sees, and the buffer that decrypts to it
    let y = size_trits(len);
    let x = cipher(kind, &s0, &y);
    let mut r = s0.fork();
    let mut b = sl(&x);
    let res = dec::<Size>(kind, &mut r, &mut b);
    let used = len - b.size();
    if len < 3 {
        ck!(res.is_err());
        cover!(1);
        return;
    }
    let d = value(&y[..3]);
    match res {
        Ok(v) => {
            let m = used / 3 - 1;
            ck!(used % 3 == 0 && used <= len && m <= 13);
            ck!(d == m as i64);
            if m == 0 {
                ck!(v.0 == 0);
            } else {
                ck!(value(&y[used - 3..used]) > 0);
                ck!(v.0 as i64 == digits(&y[3..used]));
                ck!(v.0 as i64 <= SIZE_MAX);
            }
            ck!(sizeof_sizet(v.0) == used);
            cover!(1);
        }
        Err(_) => {
            // rejected: no canonical encoding starts here
            for m in 0..14 {
                let n = 3 * (m + 1);
                if n <= len {
                    let c = d == m as i64;
                    ck!(!c | (m > 0 && value(&y[n - 3..n]) <= 0));
                }
            }
            cover!(2);
        }
    }
}
/// What the reader accepts is what the writer writes (m digits).
#[no_mangle]
pub extern "C" fn c11_canon() {
    sx::mode(sx::M_UF, 1);
    let m = sx::param(0);
    let n = 3 * (m + 1);
    let mut x = sx::trits(n);
    x[..3].copy_from_slice(&[(m % 3) as u8, ((m + 1) / 3 % 3) as u8, ((m + 4) / 9) as u8]);
    if m > 0 {
        x[n - 3..].copy_from_slice(&digit());
    }
    let s0 = start(0);
    let mut r = s0.fork();
    let mut b = sl(&x);
    ck!(value(&x[..3]) == m as i64);
    if let Ok(v) = Size::unwrap_absorb_sized(&mut r, &mut b) {
        let mut y = vec![0u8; n];
        let mut w = s0.fork();
        let mut c = slm(&mut y);
        v.wrap_absorb(&mut w, &mut c);
        ck!(c.size() == 0);
        ckeq!(&x, &y);
        cover!(1);
    }
}

fn fixed<T: TrintField + Absorb + Mask>(kind: usize, width: usize, v: T, same: impl Fn(T) -> bool, zero: T) {
    let s0 = start(sx::param(2));
    let cut = sx::param(3);
    ck!(T::sizeof() == width);
    let mut buf = sx::trits(width + 4);
    let old = buf.clone();
    let mut w = s0.fork();
    {
        let mut b = slm(&mut buf).drop(2);
        if kind == 2 {
            v.encode(&mut b);
        } else {
            enc(kind, &v, &mut w, &mut b);
        }
        ck!(b.size() == 2);
    }
    ckeq!(&buf[..2], &old[..2]);
    ckeq!(&buf[width + 2..], &old[width + 2..]);
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2);
    let x = if kind == 2 { T::decode_sized(&mut b) } else { dec::<T>(kind, &mut r, &mut b) };
    match x {
        Ok(x) => ck!(same(x)),
        Err(_) => ck!(false),
    }
    ck!(b.size() == 2);
    ckeq!(&observe(&w), &observe(&r));
    if kind == 2 {
        ckeq!(&observe(&s0), &observe(&r));
    }
    // a buffer that ends exactly with the field
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2).take(width);
    let mut y = zero;
    let res = if kind == 2 { y.decode(&mut b) } else { dec_in(kind, &mut y, &mut r, &mut b) };
    ck!(res == Ok(()));
    ck!(same(y));
    ck!(b.size() == 0);
    ckeq!(&observe(&w), &observe(&r));
    // truncated fields
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2).take(cut);
    let e = if kind == 2 { T::decode_sized(&mut b).err() } else { dec::<T>(kind, &mut r, &mut b).err() };
    ck!(e == Some(Err::Eof));
    cover!(1);
}
/// Fixed-width integers: kind (absorbed, masked, plain), width, position, truncation.
#[no_mangle]
pub extern "C" fn c12_fixed() {
    sx::mode(sx::M_UF, 1);
    let kind = sx::param(0);
    match sx::param(1) {
        3 => {
            let v = value(&sx::trits(3)) as Trint3;
            fixed(kind, 3, Trint3_(v), |x| x.0 == v, Trint3_(0));
            ck!(sizeof_tryte() == 3 && sizeof_oneof() == 3);
            ck!(tryte(v).0 == v);
            ck!(oneof(v).0 == v);
        }
        6 => {
            let v = value(&sx::trits(6)) as Trint6;
            fixed(kind, 6, Trint6_(v), |x| x.0 == v, Trint6_(0));
            ck!(sizeof_trint() == 6);
        }
        9 => {
            let v = value(&sx::trits(9)) as Trint9;
            fixed(kind, 9, Trint9_(v), |x| x.0 == v, Trint9_(0));
            ck!(sizeof_trint9() == 9);
        }
        _ => {
            let v = value(&sx::trits(18)) as Trint18;
            fixed(kind, 18, Trint18_(v), |x| x.0 == v, Trint18_(0));
        }
    }
}
/// Read, then write: every width-long trit pattern is a value and comes back.
#[no_mangle]
pub extern "C" fn c12_patterns() {
    sx::mode(sx::M_UF, 1);
    let kind = sx::param(0);
    let width = sx::param(1);
    let s0 = start(0);
    let x = cipher(kind, &s0, &sx::trits(width));
    let mut r = s0.fork();
    let mut w = s0.fork();
    let mut y = vec![0u8; width];
    {
        let mut b = sl(&x);
        let mut c = slm(&mut y);
        let ok = match width {
            3 => dec::<Trint3_>(kind, &mut r, &mut b).map(|v| enc(kind, &v, &mut w, &mut c)),
            6 => dec::<Trint6_>(kind, &mut r, &mut b).map(|v| enc(kind, &v, &mut w, &mut c)),
            9 => dec::<Trint9_>(kind, &mut r, &mut b).map(|v| enc(kind, &v, &mut w, &mut c)),
            _ => dec::<Trint18_>(kind, &mut r, &mut b).map(|v| enc(kind, &v, &mut w, &mut c)),
        };
        ck!(ok.is_ok());
        ck!(b.size() == 0 && c.size() == 0);
    }
    ckeq!(&x, &y);
    ckeq!(&observe(&w), &observe(&r));
    cover!(1);
}

/// Variable-length field of n trytes at position p of the block, with more data following.
#[no_mangle]
pub extern "C" fn c13_var() {
    sx::mode(sx::M_UF, 1);
    let kind = sx::param(0);
    let n = sx::param(1);
    let p = sx::param(2);
    let s0 = start(p);
    let t = sx::trits(3 * n);
    let size = sizeof_trytes(n);
    ck!(size == sizeof_sizet(n) + 3 * n);
    ck!(Trytes::sizeof(n) == size);
    ck!(sizeof_ntrytes(n) == 3 * n);
    let mut buf = sx::trits(size + 7);
    let old = buf.clone();
    let mut w = s0.fork();
    {
        let mut b = slm(&mut buf).drop(2);
        enc(kind, &Trytes(tr(&t)), &mut w, &mut b);
        ck!(b.size() == 5);
    }
    ckeq!(&buf[..2], &old[..2]);
    ckeq!(&buf[size + 2..], &old[size + 2..]);
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2);
    match dec::<Trytes>(kind, &mut r, &mut b) {
        Ok(x) => {
            ckeq!(&raw(&x.0), &t);
            ck!(x.size() == 3 * n);
        }
        Err(_) => ck!(false),
    }
    ck!(b.size() == 5);
    ckeq!(&observe(&w), &observe(&r));
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2).take(size);
    let mut x = Trytes(Trits::zero(2));
    ck!(dec_in(kind, &mut x, &mut r, &mut b) == Ok(()));
    ckeq!(&raw(&x.0), &t);
    ck!(b.size() == 0);
    ckeq!(&observe(&w), &observe(&r));
    // truncated at every place near the ends and in the middle
    for c in [0, 1, 2, 3, 5, size / 2, size - 3, size - 1] {
        if c < size {
            let mut b = sl(&buf).drop(2).take(c);
            ck!(dec::<Trytes>(kind, &mut s0.fork(), &mut b).is_err());
        }
    }
    cover!(1);
}
/// Fixed-length field of n trits (the reader knows the length).
#[no_mangle]
pub extern "C" fn c13_fixed() {
    sx::mode(sx::M_UF, 1);
    let kind = sx::param(0);
    let n = sx::param(1);
    let p = sx::param(2);
    let s0 = start(p);
    let t = sx::trits(n);
    let mut buf = sx::trits(n + 4);
    let old = buf.clone();
    let mut w = s0.fork();
    {
        let mut b = slm(&mut buf).drop(2);
        enc::<NTrytes>(kind, &tr(&t), &mut w, &mut b);
        ck!(b.size() == 2);
    }
    ckeq!(&buf[..2], &old[..2]);
    ckeq!(&buf[n + 2..], &old[n + 2..]);
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2);
    let mut x: NTrytes = Trits::zero(n);
    ck!(dec_in(kind, &mut x, &mut r, &mut b) == Ok(()));
    ckeq!(&raw(&x), &t);
    ck!(b.size() == 2);
    ckeq!(&observe(&w), &observe(&r));
    if kind == 0 {
        // absorbed in place, and absorbed without being transmitted
        let mut q = s0.fork();
        let mut b = sl(&buf).drop(2);
        ck!(unwrap_absorb_n(n, &mut q, &mut b) == Ok(()));
        ck!(b.size() == 2);
        ckeq!(&observe(&w), &observe(&q));
        let mut e = s0.fork();
        let mut f = s0.fork();
        let x = Ext(&t);
        x.wrap_absorb_external(&mut e);
        x.unwrap_absorb_external(&mut f);
        ckeq!(&observe(&e), &observe(&w));
        ckeq!(&observe(&f), &observe(&w));
    }
    for c in [0, 1, n / 2, n.max(2) - 2, n.max(1) - 1] {
        if c < n {
            let mut b = sl(&buf).drop(2).take(c);
            let mut y: NTrytes = Trits::zero(n);
            ck!(dec_in(kind, &mut y, &mut s0.fork(), &mut b) == Err(Err::Eof));
            if kind == 0 {
                let mut b = sl(&buf).drop(2).take(c);
                ck!(unwrap_absorb_n(n, &mut s0.fork(), &mut b) == Err(Err::Eof));
            }
        }
    }
    cover!(1);
}
struct Ext<'a>(&'a [u8]);
impl<'a> AbsorbExternal for Ext<'a> {
    fn slice(&self) -> TritSlice<'_> {
        sl(self.0)
    }
}
/// Arbitrary trits read as a variable-length field: accepted iff the declared length fits, and
/// never more memory than the received data warrants.
#[no_mangle]
pub extern "C" fn c13_hostile() {
    sx::mode(sx::M_UF, 1);
    let kind = sx::param(0);
    let len = sx::param(1);
    let s0 = start(sx::param(2));
    let y = size_trits(len);
    let x = cipher(kind, &s0, &y);
    sx::mode(sx::M_MAXALLOC, 4096);
    let mut b = sl(&x);
    let res = dec::<Trytes>(kind, &mut s0.fork(), &mut b);
    match res {
        Ok(t) => {
            let n = t.size();
            ck!(n % 3 == 0);
            let h = sizeof_sizet(n / 3);
            ck!(len - b.size() == h + n);
            ckeq!(&raw(&t.0), &y[h..h + n]);
            cover!(1);
        }
        Err(_) => {
            // a size that fits in what follows is not refused
            let mut c = sl(&y);
            let mut s = Spongos::init();
            if let Ok(m) = Size::unwrap_absorb_sized(&mut s, &mut c) {
                ck!(m.0 > c.size() / 3);
            }
            cover!(2);
        }
    }
}

/// Tags: the writer's is accepted, anything else is refused, both sides move on together.
#[no_mangle]
pub extern "C" fn c14_mac() {
    sx::mode(sx::M_UF, 1);
    let p = sx::param(0);
    let s0 = start(p);
    ck!(mac::sizeof_mac() == 243);
    let mut buf = sx::trits(247);
    let old = buf.clone();
    let mut w = s0.fork();
    {
        let mut b = slm(&mut buf).drop(2);
        mac::wrap_mac(&mut w, &mut b);
        ck!(b.size() == 2);
    }
    ckeq!(&buf[..2], &old[..2]);
    ckeq!(&buf[245..], &old[245..]);
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2);
    ck!(mac::unwrap_mac(&mut r, &mut b) == Ok(()));
    ck!(b.size() == 2);
    ckeq!(&observe(&w), &observe(&r));
    // the tag is fresh output of the committed state
    let mut q = s0.fork();
    q.commit();
    ckeq!(&raw(&q.squeeze_trits(243)), &buf[2..245]);
    // any other tag
    let diff = sx::trits(243);
    let y: Vec<u8> = buf[2..245].iter().zip(&diff).map(|(a, b)| (a + b) % 3).collect();
    let mut b = sl(&y);
    let res = mac::unwrap_mac(&mut s0.fork(), &mut b);
    let same = sx::eq(&diff, &[0; 243]);
    ck!((res == Ok(())) == same);
    ck!((res == Err(Err::MacVerifyFailed)) == !same);
    // truncated
    for c in [0, 1, 100, 242] {
        let mut b = sl(&buf).drop(2).take(c);
        ck!(mac::unwrap_mac(&mut s0.fork(), &mut b) == Err(Err::Eof));
    }
    cover!(1);
}
/// Tags of different histories of one length differ.
#[no_mangle]
pub extern "C" fn c14_history() {
    sx::mode(sx::M_UF, 1);
    sx::mode(sx::M_CF, 1);
    let p = sx::param(0);
    let n = sx::param(1);
    let masked = sx::param(2) == 1;
    let k = sx::trits(243);
    let z = sx::trits(p);
    let mut s0 = Spongos::init();
    s0.absorb(sl(&k));
    s0.commit();
    s0.absorb(sl(&z));
    let x = sx::trits(n);
    let y = sx::trits(n);
    let mut a = s0.fork();
    let mut b = s0.fork();
    if masked {
        a.encr(sl(&x), slm(&mut x.clone()));
        let mut t = y.clone();
        b.decr(sl(&y), slm(&mut t));
        // the plain text differs
        sx::assume(!sx::eq(&x, &t));
    } else {
        a.absorb(sl(&x));
        b.absorb(sl(&y));
    }
    let mut t = vec![0u8; 243];
    mac::wrap_mac(&mut a, &mut slm(&mut t));
    let res = mac::unwrap_mac(&mut b, &mut sl(&t));
    if !masked {
        sx::assume(!sx::eq(&x, &y));
    }
    ck!(res == Err(Err::MacVerifyFailed));
    cover!(1);
}

/// Joining a link.
#[no_mangle]
pub extern "C" fn c15_join() {
    sx::mode(sx::M_UF, 1);
    let s0 = start(sx::param(0));
    let l0 = start(sx::param(1));
    let id = sx::trits(81);
    ck!(join::sizeof_join() == 81);
    let mut buf = sx::trits(85);
    let old = buf.clone();
    let mut w = s0.fork();
    let mut lw = l0.fork();
    {
        let mut b = slm(&mut buf).drop(2);
        join::wrap_join(sl(&id), &mut lw, &mut w, &mut b);
        ck!(b.size() == 2);
    }
    ckeq!(&buf[..2], &old[..2]);
    ckeq!(&buf[2..83], &id);
    ckeq!(&buf[83..], &old[83..]);
    let mut r = s0.fork();
    let mut b = sl(&buf).drop(2);
    let res = join::unwrap_join(
        |m| {
            let mut g = vec![0u8; 81];
            ck!(m.size() == 81);
            m.get_trits(&mut g);
            ckeq!(&g, &id);
            Some((l0.fork(), 7u8))
        },
        &mut r,
        &mut b,
    );
    ck!(res == Ok(7));
    ck!(b.size() == 2);
    ckeq!(&observe(&w), &observe(&r));
    // by hand: what the linked state squeezes is absorbed
    let mut h = s0.fork();
    let x = l0.fork().squeeze_trits(243);
    h.absorb_trits(&x);
    ckeq!(&observe(&w), &observe(&h));
    // unknown link, truncated link
    let mut b = sl(&buf).drop(2);
    let res = join::unwrap_join(|_| None::<(Spongos, u8)>, &mut s0.fork(), &mut b);
    ck!(res == Err(Err::LinkNotFound));
    for c in [0, 1, 40, 80] {
        let mut b = sl(&buf).drop(2).take(c);
        let res = join::unwrap_join(|_| Some((l0.fork(), 7u8)), &mut s0.fork(), &mut b);
        ck!(res == Err(Err::Eof));
    }
    // whatever identifier is received is the one looked up
    let got = sx::trits(81);
    let mut b = sl(&got);
    let mut r = s0.fork();
    let known = sx::eq(&got, &id);
    let res = join::unwrap_join(
        |m| {
            let mut g = vec![0u8; 81];
            m.get_trits(&mut g);
            if sx::eq(&g, &id) {
                Some((l0.fork(), 9u8))
            } else {
                None
            }
        },
        &mut r,
        &mut b,
    );
    ck!((res == Ok(9)) == known);
    ck!((res == Err(Err::LinkNotFound)) == !known);
    cover!(1);
}
/// Different linked states give different reader states.
#[no_mangle]
pub extern "C" fn c15_differ() {
    sx::mode(sx::M_UF, 1);
    sx::mode(sx::M_CF, 1);
    let p = sx::param(0);
    let s0 = start(p);
    let k = sx::trits(243);
    let k2 = sx::trits(243);
    let id = sx::trits(81);
    let linked = |k: &[u8]| {
        let mut l = Spongos::init();
        l.absorb(sl(k));
        l.commit();
        l
    };
    let mut w = s0.fork();
    let mut buf = vec![0u8; 81];
    join::wrap_join(sl(&id), &mut linked(&k), &mut w, &mut slm(&mut buf));
    let mut r = s0.fork();
    let res = join::unwrap_join(|_| Some((linked(&k2), ())), &mut r, &mut sl(&buf));
    ck!(res == Ok(()));
    let mut t = vec![0u8; 243];
    mac::wrap_mac(&mut w, &mut slm(&mut t));
    let m = mac::unwrap_mac(&mut r, &mut sl(&t));
    sx::assume(!sx::eq(&k, &k2));
    ck!(m == Err(Err::MacVerifyFailed));
    cover!(1);
}

use iota_mam::pb3::{Trint18 as Trint18_, Trint3 as Trint3_, Trint6 as Trint6_, Trint9 as Trint9_};
type Trint3 = iota_mam::trits::Trint3;
type Trint6 = iota_mam::trits::Trint6;
type Trint9 = iota_mam::trits::Trint9;
type Trint18 = iota_mam::trits::Trint18;

harnesses! { c11_sizeof c11_round c11_decode c11_canon c12_fixed c12_patterns c13_var c13_fixed c13_hostile c14_mac c14_history c15_join c15_differ }
