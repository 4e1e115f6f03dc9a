//! C24, C25, C26: application messages.
use crate::h_spongos::{observe, start};
use crate::h_wots::{counts, record};
use crate::sx;
use crate::util::*;
use crate::*;
use iota_mam::app::channel::msg::*;
use iota_mam::app::core::msg::header;
use iota_mam::app::core::{AppInst, MsgId};
use iota_mam::mss;
use iota_mam::pb3::{self, Err, Trytes};
use iota_mam::prng;
use iota_mam::spongos::Spongos;
use iota_mam::trits::TritSlice;
use iota_mam::wots;

const FILE: u64 = 7;

/// An output buffer with margins: two trits before, five after, all arbitrary.
struct Out {
    buf: Vec<u8>,
    old: Vec<u8>,
    n: usize,
}
impl Out {
    fn new(n: usize) -> Out {
        let buf = sx::trits(n + 7);
        Out { old: buf.clone(), buf, n }
    }
    /// The message; the margins were not written.
    fn done(&self) -> Vec<u8> {
        let n = self.n;
        ckeq!(&self.buf[..2], &self.old[..2]);
        ckeq!(&self.buf[n + 2..], &self.old[n + 2..]);
        self.buf[2..n + 2].to_vec()
    }
}
macro_rules! wrap {
    ($o:ident, $b:ident, $e:expr) => {{
        let mut $b = slm(&mut $o.buf).drop(2);
        $e;
        ck!($b.size() == 5);
        $o.done()
    }};
}
fn same_state(a: &Spongos, b: &Spongos) {
    ckeq!(&observe(a), &observe(b));
}
/// Places where a message of n trits is cut off.
fn cuts(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for c in [0, 1, 2, 3, 5, 6, 80, 81, 82, 84, 100, n / 3, n / 2, n.max(244) - 244, n.max(243) - 243, n.max(100) - 100, n - 2, n - 1] {
        if c < n && !v.contains(&c) {
            v.push(c)
        }
    }
    v
}
fn check_id(m: TritSlice, id: &[u8]) {
    ck!(m.size() == id.len());
    let mut g = vec![0u8; id.len()];
    m.get_trits(&mut g);
    ckeq!(&g, id);
}

#[no_mangle]
pub extern "C" fn c24_header() {
    sx::mode(sx::M_UF, 1);
    let n = sx::param(0);
    let s0 = start(sx::param(1));
    let typ = sx::trits(3 * n);
    let (app, id) = (sx::trits(243), sx::trits(81));
    let (a, i) = (AppInst::verif_new(tr(&app)), MsgId::verif_new(tr(&id)));
    let size = header::sizeof(n);
    ck!(size == 3 + pb3::sizeof_trytes(n));
    let mut o = Out::new(size);
    let mut w = s0.fork();
    let msg = wrap!(o, b, header::wrap(&Trytes(tr(&typ)), &a, &i, &mut w, &mut b));
    ck!(value(&msg[..3]) == 1);
    ckeq!(&msg[size - 3 * n..], &typ);
    let mut more = msg.clone();
    more.extend(sx::trits(5));
    let mut r = s0.fork();
    let mut b = sl(&more);
    match header::unwrap(&a, &i, &mut r, &mut b) {
        Ok(t) => ckeq!(&raw(&t.0), &typ),
        Err(_) => ck!(false),
    }
    ck!(b.size() == 5);
    same_state(&w, &r);
    // by hand
    let mut h = s0.fork();
    h.absorb(sl(&msg));
    h.absorb(sl(&app));
    h.absorb(sl(&id));
    same_state(&w, &h);
    // any other version
    let v = sx::trits(3);
    let mut x = msg.clone();
    x[..3].copy_from_slice(&v);
    let res = header::unwrap(&a, &i, &mut s0.fork(), &mut sl(&x));
    let ours = value(&v) == 1;
    ck!(res.is_ok() == ours);
    ck!((res == Err(Err::VersionUnsupported)) == !ours);
    for c in cuts(size) {
        ck!(header::unwrap(&a, &i, &mut s0.fork(), &mut sl(&msg[..c])).is_err());
    }
    cover!(1);
}

#[no_mangle]
pub extern "C" fn c24_tagged() {
    sx::mode(sx::M_UF, 1);
    let (n, m) = (sx::param(0), sx::param(1));
    let s0 = start(sx::param(2));
    let l0 = start(3);
    let id = sx::trits(81);
    let i = MsgId::verif_new(tr(&id));
    let (p, q) = (sx::trits(3 * n), sx::trits(3 * m));
    let size = tagged_packet::sizeof(n, m);
    ck!(size == 81 + pb3::sizeof_trytes(n) + pb3::sizeof_trytes(m) + 243);
    let mut o = Out::new(size);
    let mut w = s0.fork();
    let (tp, tq) = (Trytes(tr(&p)), Trytes(tr(&q)));
    let msg = wrap!(o, b, tagged_packet::wrap(&i, &mut l0.fork(), &tp, &tq, &mut w, &mut b));
    ckeq!(&msg[..81], &id);
    let look = |g: TritSlice| {
        check_id(g, &id);
        Some((l0.fork(), ()))
    };
    let mut more = msg.clone();
    more.extend(sx::trits(5));
    let mut r = s0.fork();
    let mut b = sl(&more);
    match tagged_packet::unwrap(look, &mut r, &mut b) {
        Ok((x, y)) => {
            ckeq!(&raw(&x.0), &p);
            ckeq!(&raw(&y.0), &q);
        }
        Err(_) => ck!(false),
    }
    ck!(b.size() == 5);
    same_state(&w, &r);
    // by hand
    let mut h = s0.fork();
    h.join(&mut l0.fork());
    let k = 81 + pb3::sizeof_trytes(n);
    h.absorb(sl(&msg[81..k]));
    let mut plain = msg[k..size - 243].to_vec();
    h.decr(sl(&msg[k..size - 243]), slm(&mut plain));
    let z = pb3::sizeof_sizet(m);
    ckeq!(&plain[z..], &q);
    h.commit();
    ckeq!(&raw(&h.squeeze_trits(243)), &msg[size - 243..]);
    same_state(&w, &h);
    ck!(tagged_packet::unwrap(|_| None, &mut s0.fork(), &mut sl(&msg)) == Err(Err::LinkNotFound));
    for c in cuts(size) {
        ck!(tagged_packet::unwrap(|_| Some((l0.fork(), ())), &mut s0.fork(), &mut sl(&msg[..c])).is_err());
    }
    cover!(1);
}

/// Chains replaced by their lengths: signing and verifying ask for complementary chains.
fn complement(s: &[usize], r: &[usize]) {
    ck!(s.len() == 81 && r.len() == 81);
    for i in 0..78 {
        ck!(s[i] + r[i] == 26);
    }
}
fn mss_key(height: usize, tag: u8) -> mss::PrivateKey {
    let k = sx::trits(243);
    let key = mss::PrivateKey::gen(&prng::init(sl(&k)), sl(&[tag]), height);
    counts();
    key
}
/// Any other public key.
fn other_key(pk: &mss::PublicKey) -> (mss::PublicKey, bool) {
    let x = raw_pk(pk);
    let d = sx::trits(243);
    let y: Vec<u8> = x.iter().zip(&d).map(|(a, b)| (a + b) % 3).collect();
    let mut b = sl(&y);
    let mut s = Spongos::init();
    use iota_mam::pb3::Absorb;
    (mss::PublicKey::unwrap_absorb_sized(&mut s, &mut b).unwrap(), sx::eq(&d, &[0; 243]))
}
fn raw_pk(pk: &mss::PublicKey) -> Vec<u8> {
    use iota_mam::pb3::Absorb;
    let mut v = vec![0u8; 243];
    let mut b = slm(&mut v);
    pk.wrap_absorb(&mut Spongos::init(), &mut b);
    v
}

#[no_mangle]
pub extern "C" fn c24_signed() {
    sx::mode(sx::M_UF, 1);
    unsafe { wots::VERIF_REHASH = Some(record) }
    let (n, m) = (sx::param(0), sx::param(1));
    let s0 = start(sx::param(2));
    let l0 = start(3);
    let id = sx::trits(81);
    let i = MsgId::verif_new(tr(&id));
    let (p, q) = (sx::trits(3 * n), sx::trits(3 * m));
    let mut sk = mss_key(sx::param(3), 1);
    for _ in 0..sx::param(4) {
        sk.next();
    }
    counts();
    let size = signed_packet::sizeof(n, m, &sk);
    let sig = mss::sig_size(sk.height());
    ck!(sig == 18 + 13122 + 243 * sx::param(3));
    ck!(size == 81 + pb3::sizeof_trytes(n) + pb3::sizeof_trytes(m) + sig);
    let mut o = Out::new(size);
    let mut w = s0.fork();
    let (tp, tq) = (Trytes(tr(&p)), Trytes(tr(&q)));
    let msg = wrap!(o, b, signed_packet::wrap(&i, &mut l0.fork(), &tp, &tq, &sk, &mut w, &mut b));
    let c = counts();
    let look = |g: TritSlice| {
        check_id(g, &id);
        Some((l0.fork(), ()))
    };
    let mut r = s0.fork();
    let mut b = sl(&msg);
    match signed_packet::unwrap_verify(look, sk.public_key(), &mut r, &mut b) {
        Ok((x, y)) => {
            ckeq!(&raw(&x.0), &p);
            ckeq!(&raw(&y.0), &q);
        }
        Err(_) => ck!(false),
    }
    ck!(b.size() == 0);
    complement(&c, &counts());
    same_state(&w, &r);
    let mut r = s0.fork();
    let mut b = sl(&msg);
    match signed_packet::unwrap_recover(look, &mut r, &mut b) {
        Ok((k, x, y)) => {
            ck!(k == *sk.public_key());
            ckeq!(&raw(&x.0), &p);
            ckeq!(&raw(&y.0), &q);
        }
        Err(_) => ck!(false),
    }
    ck!(b.size() == 0);
    complement(&c, &counts());
    same_state(&w, &r);
    // what is signed is fresh output of the committed state
    let mut h = s0.fork();
    h.join(&mut l0.fork());
    let k = 81 + pb3::sizeof_trytes(n);
    h.absorb(sl(&msg[81..k]));
    let mut plain = msg[k..size - sig].to_vec();
    h.decr(sl(&msg[k..size - sig]), slm(&mut plain));
    h.commit();
    let t = raw(&h.squeeze_trits(234));
    for j in 0..78 {
        ck!(c[j] as i64 == 13 + value(&t[3 * j..3 * j + 3]));
    }
    same_state(&w, &h);
    // another key
    let (k, same) = other_key(sk.public_key());
    let res = signed_packet::unwrap_verify(|_| Some((l0.fork(), ())), &k, &mut s0.fork(), &mut sl(&msg));
    counts();
    ck!(res.is_ok() == same);
    ck!((res == Err(Err::MssVerifyFailed)) == !same);
    ck!(signed_packet::unwrap_verify(|_| None, &k, &mut s0.fork(), &mut sl(&msg)) == Err(Err::LinkNotFound));
    for c in cuts(size) {
        ck!(signed_packet::unwrap_verify(|_| Some((l0.fork(), ())), &k, &mut s0.fork(), &mut sl(&msg[..c])).is_err());
        ck!(signed_packet::unwrap_recover(|_| Some((l0.fork(), ())), &mut s0.fork(), &mut sl(&msg[..c])).is_err());
    }
    cover!(1);
}

#[no_mangle]
pub extern "C" fn c24_announce() {
    sx::mode(sx::M_UF, 1);
    unsafe { wots::VERIF_REHASH = Some(record) }
    let s0 = start(sx::param(0));
    let sk = mss_key(sx::param(1), 1);
    let size = announce::sizeof(&sk, false);
    let sig = mss::sig_size(sk.height());
    ck!(size == 243 + 3 + sig);
    ck!(announce::sizeof(&sk, true) == size + 9216);
    let mut o = Out::new(size);
    let mut w = s0.fork();
    let msg = wrap!(o, b, announce::wrap(&sk, &None, &mut w, &mut b));
    let c = counts();
    let mut more = msg.clone();
    more.extend(sx::trits(5));
    let mut r = s0.fork();
    let mut b = sl(&more);
    match announce::unwrap(&mut r, &mut b) {
        Ok((k, n)) => {
            ck!(k == *sk.public_key());
            ck!(n.is_none());
        }
        Err(_) => ck!(false),
    }
    ck!(b.size() == 5);
    complement(&c, &counts());
    same_state(&w, &r);
    let mut h = s0.fork();
    h.absorb(sl(&msg[..246]));
    h.commit();
    let t = raw(&h.squeeze_trits(234));
    for j in 0..78 {
        ck!(c[j] as i64 == 13 + value(&t[3 * j..3 * j + 3]));
    }
    same_state(&w, &h);
    // another announced key does not match the signature
    let d = sx::trits(243);
    let mut x = msg.clone();
    for j in 0..243 {
        x[j] = (x[j] + d[j]) % 3;
    }
    let res = announce::unwrap(&mut s0.fork(), &mut sl(&x));
    counts();
    let same = sx::eq(&d, &[0; 243]);
    ck!(res.is_ok() == same);
    // another kind of content
    let v = sx::trits(3);
    let mut x = msg.clone();
    x[243..246].copy_from_slice(&v);
    sx::assume((value(&v) != 0) & (value(&v) != 1));
    ck!(announce::unwrap(&mut s0.fork(), &mut sl(&x)).is_err());
    for c in cuts(size) {
        ck!(announce::unwrap(&mut s0.fork(), &mut sl(&msg[..c])).is_err());
    }
    cover!(1);
}

#[no_mangle]
pub extern "C" fn c24_change() {
    sx::mode(sx::M_UF, 1);
    unsafe { wots::VERIF_REHASH = Some(record) }
    let s0 = start(sx::param(0));
    let l0 = start(3);
    let id = sx::trits(81);
    let sk = mss_key(sx::param(1), 1);
    let linked = mss_key(sx::param(2), 2);
    let size = change_key::sizeof(&sk, &linked);
    let (n, m) = (mss::sig_size(sk.height()), mss::sig_size(linked.height()));
    ck!(size == 81 + 243 + n + m);
    let mut o = Out::new(size);
    let mut w = s0.fork();
    let msg = wrap!(o, b, change_key::wrap(sl(&id), &mut l0.fork(), &sk, &linked, &mut w, &mut b));
    let c = counts();
    ck!(c.len() == 162);
    let look = |g: TritSlice| {
        check_id(g, &id);
        Some((l0.fork(), linked.public_key().clone()))
    };
    let mut more = msg.clone();
    more.extend(sx::trits(5));
    let mut r = s0.fork();
    let mut b = sl(&more);
    match change_key::unwrap(look, &mut r, &mut b) {
        Ok(k) => ck!(k == *sk.public_key()),
        Err(_) => ck!(false),
    }
    ck!(b.size() == 5);
    let d = counts();
    ck!(d.len() == 162);
    complement(&c[..81], &d[..81]);
    complement(&c[81..], &d[81..]);
    same_state(&w, &r);
    let mut h = s0.fork();
    h.join(&mut l0.fork());
    h.absorb(sl(&msg[81..324]));
    h.commit();
    let t = raw(&h.squeeze_trits(234));
    for j in 0..78 {
        let v = 13 + value(&t[3 * j..3 * j + 3]);
        ck!(c[j] as i64 == v && c[81 + j] as i64 == v);
    }
    same_state(&w, &h);
    // the linked key is another one
    let (k, same) = other_key(linked.public_key());
    let res = change_key::unwrap(|_| Some((l0.fork(), k.clone())), &mut s0.fork(), &mut sl(&msg));
    counts();
    ck!(res.is_ok() == same);
    // the new key is another one
    let d = sx::trits(243);
    let mut x = msg.clone();
    for j in 0..243 {
        x[81 + j] = (x[81 + j] + d[j]) % 3;
    }
    let res = change_key::unwrap(|_| Some((l0.fork(), linked.public_key().clone())), &mut s0.fork(), &mut sl(&x));
    counts();
    ck!(res.is_ok() == sx::eq(&d, &[0; 243]));
    ck!(change_key::unwrap(|_| None, &mut s0.fork(), &mut sl(&msg)).is_err());
    for c in cuts(size) {
        ck!(change_key::unwrap(|_| Some((l0.fork(), linked.public_key().clone())), &mut s0.fork(), &mut sl(&msg[..c])).is_err());
    }
    cover!(1);
}

/// x with some trits of a range changed arbitrarily; whether it still is x.
fn changed(x: &[u8], lo: usize, hi: usize) -> (Vec<u8>, bool) {
    let mut y = x.to_vec();
    let d = sx::trits(hi - lo);
    for j in lo..hi {
        y[j] = (y[j] + d[j - lo]) % 3;
    }
    (y, sx::eq(&d, &vec![0u8; hi - lo]))
}
fn linked(k: &[u8]) -> Spongos {
    let mut l = Spongos::init();
    l.absorb(sl(k));
    l.commit();
    l
}

/// The size of the masked payload decrypts to the right one although the reader is in another state.
fn assume_size(x: &[u8], app: &[u8], id: &[u8], k: &[u8], hs: usize, n: usize, m: usize) {
    let mut h = Spongos::init();
    h.absorb(sl(&x[..hs]));
    h.absorb(sl(app));
    h.absorb(sl(id));
    h.join(&mut linked(k));
    let k = hs + 81 + pb3::sizeof_trytes(n);
    h.absorb(sl(&x[hs + 81..k]));
    let z = pb3::sizeof_sizet(m);
    let mut t = vec![0u8; z];
    h.decr(sl(&x[k..k + z]), slm(&mut t));
    let mut e = vec![0u8; z];
    pb3::Absorb::wrap_absorb(&pb3::Size(m), &mut Spongos::init(), &mut slm(&mut e));
    for j in 0..z {
        sx::assume(t[j] == e[j]);
    }
}

/// A header and a tagged packet behind it; one part of the message, or of what the reader knows, changed.
#[no_mangle]
pub extern "C" fn c25_tagged() {
    sx::mode(sx::M_UF, 1);
    let (n, m) = (sx::param(0), sx::param(1));
    let what = sx::param(2);
    if what != 6 {
        sx::mode(sx::M_CF, 1);
    }
    let nt = tagged_packet::TYPE.len();
    let typ: Trytes = Trytes(iota_mam::trits::Trits::from_str(tagged_packet::TYPE).unwrap());
    let (app, id, link) = (sx::trits(243), sx::trits(81), sx::trits(81));
    let k = sx::trits(243);
    let (p, q) = (sx::trits(3 * n), sx::trits(3 * m));
    let (hs, ts) = (header::sizeof(nt), tagged_packet::sizeof(n, m));
    let mut buf = vec![0u8; hs + ts];
    {
        let mut s = Spongos::init();
        let mut b = slm(&mut buf);
        header::wrap(&typ, &AppInst::verif_new(tr(&app)), &MsgId::verif_new(tr(&id)), &mut s, &mut b);
        tagged_packet::wrap(&MsgId::verif_new(tr(&link)), &mut linked(&k), &Trytes(tr(&p)), &Trytes(tr(&q)), &mut s, &mut b);
        ck!(b.size() == 0);
    }
    let read = |x: &[u8], app: &[u8], id: &[u8], k: &[u8]| {
        if what < 4 {
            assume_size(x, app, id, k, hs, n, m);
        }
        let mut s = Spongos::init();
        let mut b = sl(x);
        header::unwrap(&AppInst::verif_new(tr(app)), &MsgId::verif_new(tr(id)), &mut s, &mut b)?;
        tagged_packet::unwrap(|_| Some((linked(k), ())), &mut s, &mut b).map(|_| ())
    };
    let end = hs + ts;
    let pub0 = hs + 81 + pb3::sizeof_sizet(n);
    let msk0 = hs + 81 + pb3::sizeof_trytes(n) + pb3::sizeof_sizet(m);
    let (res, same) = match what {
        // the application instance
        0 => {
            let (y, e) = changed(&app, 0, 243);
            (read(&buf, &y, &id, &k), e)
        }
        // the message identifier
        1 => {
            let (y, e) = changed(&id, 0, 81);
            (read(&buf, &app, &y, &k), e)
        }
        // the linked state
        2 => {
            let (y, e) = changed(&k, 0, 243);
            (read(&buf, &app, &id, &y), e)
        }
        // the type in the header
        3 => {
            let (y, e) = changed(&buf, hs - 3 * nt, hs);
            (read(&y, &app, &id, &k), e)
        }
        // the public payload
        4 => {
            let (y, e) = changed(&buf, pub0, pub0 + 3 * n);
            (read(&y, &app, &id, &k), e)
        }
        // the masked payload
        5 => {
            let (y, e) = changed(&buf, msk0, msk0 + 3 * m);
            (read(&y, &app, &id, &k), e)
        }
        // the tag
        6 => {
            let (y, e) = changed(&buf, end - 243, end);
            (read(&y, &app, &id, &k), e)
        }
        // the identifier of the linked message, with a reader that looks it up
        7 => {
            let (y, e) = changed(&buf, hs, hs + 81);
            let mut s = Spongos::init();
            let mut b = sl(&y);
            ck!(header::unwrap(&AppInst::verif_new(tr(&app)), &MsgId::verif_new(tr(&id)), &mut s, &mut b).is_ok());
            let look = |g: TritSlice| {
                let mut v = vec![0u8; 81];
                g.get_trits(&mut v);
                if sx::eq(&v, &link) { Some((linked(&k), ())) } else { None }
            };
            let r = tagged_packet::unwrap(look, &mut s, &mut b).map(|_| ());
            ck!(!(r == Err(Err::LinkNotFound)) == e);
            ck!(r.is_ok() == e);
            cover!(1);
            return;
        }
        // the version
        _ => {
            let (y, e) = changed(&buf, 0, 3);
            let r = read(&y, &app, &id, &k);
            ck!((r == Err(Err::VersionUnsupported)) == !e);
            ck!(r.is_ok() == e);
            cover!(1);
            return;
        }
    };
    if what == 6 {
        ck!(res.is_ok() == same);
        ck!((res == Err(Err::MacVerifyFailed)) == !same);
    } else {
        let bad = res == Err(Err::MacVerifyFailed);
        sx::assume(!same);
        ck!(bad);
    }
    cover!(1);
}

/// Arbitrary data of a given length, read as a header and as every message but the keyload.
#[no_mangle]
pub extern "C" fn c26_any() {
    sx::mode(sx::M_UF, 1);
    unsafe { wots::VERIF_REHASH = Some(record) }
    let (kind, len) = (sx::param(0), sx::param(1));
    let s0 = start(sx::param(2));
    let d = sx::param(3);
    let mut x = if kind == 0 && len > 3 { crate::h_pb3::size_trits_at(len, 3) } else { sx::trits(len) };
    // the size of the public payload is written with d trytes
    if (kind == 1 || kind == 2 || kind == 3) && len >= 84 {
        slm(&mut x[81..84]).put3(d as i8);
    }
    let old = x.clone();
    let l0 = start(3);
    sx::mode(sx::M_MAXALLOC, 16384);
    let mut s = s0.fork();
    let mut b = sl(&x);
    match kind {
        0 => {
            let (a, i) = (AppInst::verif_new(strits(243)), MsgId::verif_new(strits(81)));
            match header::unwrap(&a, &i, &mut s, &mut b) {
                Ok(t) => ck!(3 + pb3::sizeof_trytes(t.size() / 3) + b.size() == len),
                Err(_) => (),
            }
        }
        1 => {
            match tagged_packet::unwrap(|_| Some((l0.fork(), ())), &mut s, &mut b) {
                Ok((p, q)) => ck!(tagged_packet::sizeof(p.size() / 3, q.size() / 3) + b.size() == len),
                Err(_) => (),
            }
        }
        2 => {
            use iota_mam::pb3::Absorb;
            let k = strits(243);
            let pk = mss::PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut k.slice()).unwrap();
            ck!(signed_packet::unwrap_verify(|_| Some((l0.fork(), ())), &pk, &mut s, &mut b).is_err());
        }
        3 => ck!(signed_packet::unwrap_recover(|_| Some((l0.fork(), ())), &mut s, &mut b).is_err()),
        4 => ck!(announce::unwrap(&mut s, &mut b).is_err()),
        5 => {
            use iota_mam::pb3::Absorb;
            let k = strits(243);
            let pk = mss::PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut k.slice()).unwrap();
            ck!(change_key::unwrap(|_| Some((l0.fork(), pk.clone())), &mut s, &mut b).is_err());
        }
        _ => ck!(tagged_packet::unwrap(|_| None, &mut s, &mut b).is_err()),
    }
    ck!(b.size() <= len);
    ckeq!(&x, &old);
    cover!(1);
}

/// A keyload for pre-shared keys: every listed reader gets the key, nobody else does.
#[no_mangle]
pub extern "C" fn c27_psk() {
    sx::mode(sx::M_UF, 1);
    let n = sx::param(0);
    let me = sx::param(1);
    let s0 = start(sx::param(2));
    let l0 = start(3);
    let id = sx::trits(81);
    let (nonce, key) = (sx::trits(81), sx::trits(243));
    // identifiers are fixed, and so is their place in the hash map; keys are arbitrary
    let name = |j: usize| -> iota_mam::psk::PskId {
        let mut v = vec![0u8; 81];
        v[0] = (j % 3) as u8;
        v[40] = (j / 3 % 3) as u8;
        v[80] = 2;
        tr(&v)
    };
    let all: Vec<(iota_mam::psk::PskId, iota_mam::psk::Psk)> = (0..n).map(|j| (name(j), strits(243))).collect();
    let none: Vec<(iota_mam::ntru::Pkid, iota_mam::ntru::PublicKey)> = vec![];
    let size = keyload::sizeof(&mut all.iter().map(|p| (&p.0, &p.1)), &mut none.iter().map(|p| (&p.0, &p.1)));
    ck!(size == 162 + pb3::sizeof_repeated(n) + n * 324 + pb3::sizeof_repeated(0));
    let mut o = Out::new(size);
    let mut w = s0.fork();
    let g = prng::init(sl(&[0; 243]));
    let msg = wrap!(o, b, keyload::wrap(sl(&id), &mut l0.fork(), &tr(&nonce), &mut all.iter().map(|p| (&p.0, &p.1)), &mut none.iter().map(|p| (&p.0, &p.1)), &g, &tr(&key), &mut w, &mut b));
    let look = |g: TritSlice| {
        check_id(g, &id);
        Some((l0.fork(), ()))
    };
    let mut more = msg.clone();
    more.extend(sx::trits(5));
    let sks = std::collections::HashMap::new();
    let mut psks = std::collections::HashMap::new();
    // a stranger's key, before and after the reader's own
    psks.insert(name(8), strits(243));
    if me < n {
        psks.insert(name(me), all[me].1.clone());
    }
    let mut r = s0.fork();
    let mut b = sl(&more);
    let res = keyload::unwrap(look, &psks, &sks, &mut r, &mut b);
    ck!(res.is_ok() == (me < n));
    if me < n {
        same_state(&w, &r);
    } else {
        ck!(res == Err(Err::KeyNotFound));
    }
    ck!(b.size() == 5);
    // the session key itself is absorbed
    let mut h = s0.fork();
    h.join(&mut l0.fork());
    h.absorb(sl(&msg[81..162 + pb3::sizeof_repeated(n)]));
    h.absorb(sl(&msg[size - pb3::sizeof_repeated(0)..]));
    h.absorb(sl(&key));
    h.commit();
    same_state(&w, &h);
    // each recipient's part
    let mut h = s0.fork();
    h.join(&mut l0.fork());
    let z = 162 + pb3::sizeof_repeated(n);
    h.absorb(sl(&msg[81..z]));
    for j in 0..n {
        let mut f = h.fork();
        let at = z + 324 * j;
        ckeq!(&msg[at..at + 81], &raw(&all[j].0));
        f.absorb(sl(&msg[at..at + 81]));
        f.absorb(all[j].1.slice());
        f.commit();
        let mut k = vec![0u8; 243];
        f.decr(sl(&msg[at + 81..at + 324]), slm(&mut k));
        ckeq!(&k, &key);
    }
    if me < n {
        for c in cuts(size) {
            ck!(keyload::unwrap(|_| Some((l0.fork(), ())), &psks, &sks, &mut s0.fork(), &mut sl(&msg[..c])).is_err());
        }
    }
    ck!(keyload::unwrap(|_| None, &psks, &sks, &mut s0.fork(), &mut sl(&msg)) == Err(Err::LinkNotFound));
    cover!(1);
}

/// A reader without keys.
#[no_mangle]
pub extern "C" fn c26_keyload() {
    sx::mode(sx::M_UF, 1);
    let len = sx::param(0);
    let s0 = start(sx::param(1));
    let d = sx::param(2);
    let mut x = sx::trits(len);
    // the count of psks is written with d trytes
    if len >= 165 {
        
        slm(&mut x[162..165]).put3(d as i8);
    }
    let old = x.clone();
    let l0 = start(3);
    let psks = std::collections::HashMap::new();
    let sks = std::collections::HashMap::new();
    sx::mode(sx::M_MAXALLOC, 4096);
    let mut b = sl(&x);
    let r = keyload::unwrap(|_| Some((l0.fork(), ())), &psks, &sks, &mut s0.fork(), &mut b);
    ck!(r.is_err());
    ckeq!(&x, &old);
    ck!(b.size() <= len);
    cover!(1);
}
harnesses! { c24_header c24_tagged c24_signed c24_announce c24_change c25_tagged c26_any c26_keyload c27_psk }
