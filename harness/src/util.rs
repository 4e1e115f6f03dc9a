use iota_mam::trits::*;

/// The bytes behind a container (one trit per byte), read through a raw view.
pub fn raw(t: &Trits) -> Vec<u8> {
    let mut v = vec![0u8; t.size()];
    t.slice().get_trits(&mut v);
    v
}
pub fn sl(v: &[u8]) -> TritSlice<'_> {
    TritSlice::from_slice(v.len(), v)
}
pub fn slm(v: &mut [u8]) -> TritSliceMut<'_> {
    TritSliceMut::from_slice_mut(v.len(), v)
}
pub fn tr(v: &[u8]) -> Trits {
    Trits::from_slice(sl(v))
}
/// n symbolic trits in a container.
pub fn strits(n: usize) -> Trits {
    tr(&crate::sx::trits(n))
}
/// Signed value of a trit.
pub fn sv(t: u8) -> i64 {
    // table lookup: no branches in the oracle
    (t as i64) - 3 * ((t as i64) >> 1)
}
/// Balanced ternary value of trits, least significant first.
pub fn value(t: &[u8]) -> i64 {
    if t.len() > 9 {
        // the same sum, grouped by blocks of nine trits
        return value(&t[..9]) + 19683 * value(&t[9..]);
    }
    let mut s = 0;
    let mut w = 1;
    for x in t {
        s += w * sv(*x);
        w *= 3;
    }
    s
}

/// `hash_data` becomes one unknown function of the input and the output size.
pub fn model_hash() {
    fn f(x: TritSlice, y: TritSliceMut) {
        let mut v = vec![0u8; x.size()];
        x.get_trits(&mut v);
        let mut o = vec![0u8; y.size()];
        crate::sx::uf(1, &v, &mut o);
        sl(&o).copy(y);
    }
    unsafe { iota_mam::spongos::VERIF_HASH = Some(f) }
}
