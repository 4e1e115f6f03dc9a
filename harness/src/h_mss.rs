//! C18, C19, C20: Merkle trees and Merkle signatures.
use crate::sx;
use crate::util::*;
use crate::*;
use iota_mam::mss::mt::*;
use iota_mam::mss::{mtcomplete, mttraversal};

const FILE: u64 = 6;

/// A hash value of four trits.
#[derive(Clone)]
struct H([u8; 4]);
impl PartialEq for H {
    fn eq(&self, o: &H) -> bool {
        sx::eq(&self.0, &o.0)
    }
}
/// Merging is an unknown function of both children.
fn merge(a: &H, b: &H) -> H {
    let mut v = [0u8; 8];
    v[..4].clone_from_slice(&a.0);
    v[4..].clone_from_slice(&b.0);
    let mut o = [0u8; 4];
    sx::uf(2, &v, &mut o);
    H(o)
}
/// Root of the sub-tree of height d with number i.
fn root(leaves: &[H], d: usize, i: usize) -> H {
    if d == 0 {
        return leaves[i].clone();
    }
    merge(&root(leaves, d - 1, 2 * i), &root(leaves, d - 1, 2 * i + 1))
}
fn same(a: &H, b: &H) {
    ckeq!(&a.0, &b.0);
}

fn reload<T: TraversableMerkleTree<H> + PartialEq>(t: &mut T) {
    let (height, skn, nodes) = t.store();
    // one node less or more is refused
    if !nodes.is_empty() {
        ck!(T::load(height, skn, nodes[..nodes.len() - 1].to_vec()).is_none());
    }
    let mut more = nodes.clone();
    more.push(H([0; 4]));
    ck!(T::load(height, skn, more).is_none());
    ck!(T::load(height, skn, Vec::new()).is_none());
    ck!(T::load(height, max_skn(height) + 1, nodes.clone()).is_none());
    match T::load(height, skn, nodes) {
        Some(u) => {
            ck!(u == *t);
            *t = u
        }
        None => ck!(false),
    }
}
fn history<T: TraversableMerkleTree<H> + PartialEq>(height: usize, every: usize) {
    let n = 1usize << height;
    let leaves: Vec<H> = (0..n)
        .map(|_| {
            let v = sx::trits(4);
            H([v[0], v[1], v[2], v[3]])
        })
        .collect();
    let top = root(&leaves, height, 0);
    let l2 = leaves.clone();
    let g = move |i: Idx| {
        ck!(i < l2.len());
        l2[i].clone()
    };
    let mut t = T::gen(&g, &merge, height);
    for i in 0..n {
        if every > 0 && i % every == 0 {
            reload(&mut t);
        }
        ck!(t.skn() == i);
        ck!(t.height() == height);
        same(t.root(), &top);
        let p = t.apath();
        ck!(p.skn() == i);
        // the path a user would build: sibling sub-tree roots, from the leaf up
        let mut q = APath::new(height);
        for d in 0..height {
            q.push(root(&leaves, d, (i >> d) ^ 1));
        }
        let mut h = leaves[i].clone();
        ck!(p.fold_mut(&merge, &mut h));
        same(&h, &top);
        if i == 0 {
            ck!(p == q);
        }
        same(&p.fold(&merge, &leaves[i]), &top);
        ck!(t.next(&g, &merge) == (i + 1 < n));
    }
    for _ in 0..2 {
        if every > 0 {
            reload(&mut t);
        }
        ck!(t.skn() == n);
        ck!(t.height() == height);
        same(t.root(), &top);
        ck!(!t.next(&g, &merge));
    }
    cover!(1);
}
/// Whole life of a tree: kind 0 complete, 1 traversal.
#[no_mangle]
pub extern "C" fn c20_history() {
    let height = sx::param(1);
    let every = sx::param(2);
    if sx::param(0) == 0 {
        history::<mtcomplete::MT<H>>(height, every)
    } else {
        history::<mttraversal::MT<H>>(height, every)
    }
}
/// Both implementations side by side.
#[no_mangle]
pub extern "C" fn c20_agree() {
    let height = sx::param(0);
    let n = 1usize << height;
    let leaves: Vec<H> = (0..n)
        .map(|_| {
            let v = sx::trits(4);
            H([v[0], v[1], v[2], v[3]])
        })
        .collect();
    let g = |i: Idx| leaves[i].clone();
    let mut a = mtcomplete::MT::<H>::gen(&g, &merge, height);
    let mut b = mttraversal::MT::<H>::gen(&g, &merge, height);
    for _ in 0..n {
        same(a.root(), b.root());
        ck!(a.skn() == b.skn());
        ck!(a.height() == b.height());
        ck!(a.apath() == b.apath());
        ck!(a.next(&g, &merge) == b.next(&g, &merge));
    }
    same(a.root(), b.root());
    ck!(a.skn() == b.skn());
    cover!(1);
}
/// Stored data of any height, key number and node count: loading succeeds or not, and what was
/// loaded tells the same; no panic.
fn arbitrary<T: TraversableMerkleTree<H>>() {
    let height = sx::choose(sx::param(1) + 1);
    let skn = sx::int(0, (2 << height) + 1) as usize;
    let skn = sx::concrete(skn);
    let k = sx::choose(4 << height);
    let nodes: Vec<H> = (0..k)
        .map(|_| {
            let v = sx::trits(4);
            H([v[0], v[1], v[2], v[3]])
        })
        .collect();
    let r = T::load(height, skn, nodes.clone());
    if skn > 1 << height || k == 0 {
        ck!(r.is_none());
    }
    if let Some(t) = r {
        let (h, s, m) = t.store();
        ck!(h == height && s == skn && m.len() == k);
        for i in 0..k {
            same(&m[i], &nodes[i]);
        }
        ck!(t.skn() == skn && t.height() == height);
        if skn < 1 << height {
            let p = t.apath();
            ck!(p.skn() == skn);
        }
        let _ = t.root();
        cover!(1);
    }
    cover!(2);
}
#[no_mangle]
pub extern "C" fn c20_load() {
    if sx::param(0) == 0 {
        arbitrary::<mtcomplete::MT<H>>()
    } else {
        arbitrary::<mttraversal::MT<H>>()
    }
}
/// Heights no tree can have are refused.
#[no_mangle]
pub extern "C" fn c20_heights() {
    let height = sx::param(0);
    for skn in [0usize, 1, 1 << 40] {
        ck!(mtcomplete::MT::<H>::load(height, skn, vec![H([0; 4])]).is_none());
        ck!(mttraversal::MT::<H>::load(height, skn, vec![H([0; 4])]).is_none());
    }
    cover!(1);
}

use iota_mam::mss;
use iota_mam::trits::Trits;
use iota_mam::{prng, spongos, wots};

/// Balanced ternary digits of a number.
fn trits_of(mut i: usize, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    for t in v.iter_mut() {
        *t = (i % 3) as u8;
        i = (i + 1) / 3;
    }
    v
}
/// Whole life of a key.
fn life<T: TraversableMerkleTree<Trits>>(height: usize) {
    sx::mode(sx::M_UF, 1);
    model_hash();
    let k = sx::trits(243);
    let nonce = sx::trits(sx::param(2));
    let mut h = vec![0u8; mss::HASH_SIZE];
    for i in 0..h.len() {
        h[i] = ((i * i + i / 5) % 3) as u8;
    }
    let mut sk = mss::PrivateKeyT::<T>::gen(&prng::init(sl(&k)), sl(&nonce), height);
    let pk = sk.public_key().clone();
    let n = 1usize << height;
    let size = 18 + 13122 + 243 * height;
    ck!(mss::sig_size(height) == size);
    for i in 0..n {
        ck!(sk.skn() == i);
        ck!(sk.height() == height);
        ck!(sk.skn_left() == n - i);
        let mut buf = vec![1u8; size + 2];
        sk.sign(sl(&h), slm(&mut buf).drop(1).take(size));
        ck!(buf[0] == 1 && buf[size + 1] == 1);
        let sig = &buf[1..size + 1];
        ck!(value(&sig[..4]) == height as i64);
        ck!(value(&sig[4..18]) == i as i64);
        match mss::PublicKey::recover(sl(&h), sl(&buf).drop(1)) {
            Some((p, m)) => {
                // trailing data is left alone
                ck!(m == size);
                ck!(p == pk);
            }
            None => ck!(false),
        }
        ck!(pk.verify(sl(&h), sl(sig)));
        ck!(!pk.verify(sl(&h), sl(&buf).drop(1)));
        ck!(!pk.verify(sl(&h), sl(&sig[..size - 1])));
        ck!(*sk.public_key() == pk);
        // made with the one-time key of this number
        let ni = trits_of(i, 18);
        let one = wots::PrivateKey::gen(&prng::init(sl(&k)), &[sl(&nonce), sl(&ni)]);
        let mut w = vec![0u8; wots::SIG_SIZE];
        one.sign(sl(&h), slm(&mut w));
        ckeq!(&w, &sig[18..18 + 13122]);
        ck!(sk.next() == (i + 1 < n));
    }
    for _ in 0..2 {
        ck!(sk.skn() == n);
        ck!(sk.skn_left() == 0);
        ck!(*sk.public_key() == pk);
        ck!(!sk.next());
    }
    cover!(1);
}
#[no_mangle]
pub extern "C" fn c18_life() {
    if sx::param(0) == 0 {
        life::<mtcomplete::MT<Trits>>(sx::param(1))
    } else {
        life::<mttraversal::MT<Trits>>(sx::param(1))
    }
}
/// Any signature buffer of the given length.
#[no_mangle]
pub extern "C" fn c19_any() {
    sx::mode(sx::M_UF, 1);
    model_hash();
    let len = sx::param(0);
    let mut h = vec![0u8; mss::HASH_SIZE];
    for i in 0..h.len() {
        h[i] = ((i * i + i / 7) % 3) as u8;
    }
    let sig = sx::trits(len);
    if len >= 4 {
        sx::concrete((value(&sig[..4]) + 40) as usize);
    }
    let mut pk = vec![0u8; mss::PK_SIZE];
    let r = mss::recover(slm(&mut pk), sl(&h), sl(&sig));
    let r2 = mss::PublicKey::recover(sl(&h), sl(&sig));
    if len < 18 {
        ck!(r.is_none() && r2.is_none());
        cover!(2);
        return;
    }
    let d = value(&sig[..4]);
    let n = value(&sig[4..18]);
    let mut valid = false;
    let mut size = 0;
    if d >= 0 {
        let d = sx::concrete(d as usize);
        size = 18 + 13122 + 243 * d;
        valid = n >= 0 && n < 1i64 << d && size <= len;
    }
    ck!(r.is_some() == valid);
    ck!(r2.is_some() == valid);
    if !valid {
        cover!(2);
        return;
    }
    ck!(r == Some(size));
    // by hand
    let mut x = vec![0u8; 243];
    wots::recover(sl(&h), sl(&sig[18..18 + 13122]), slm(&mut x));
    let mut i = sx::concrete(n as usize);
    let mut k = 18 + 13122;
    while k < size {
        let node = sig[k..k + 243].to_vec();
        let mut y = vec![0u8; 243];
        if i % 2 == 0 {
            spongos::hash_datas(&[sl(&x), sl(&node)], slm(&mut y));
        } else {
            spongos::hash_datas(&[sl(&node), sl(&x)], slm(&mut y));
        }
        x = y;
        i /= 2;
        k += 243;
    }
    ckeq!(&pk, &x);
    let v = sx::trits(243);
    ck!(mss::verify(sl(&v), sl(&h), sl(&sig)) == (sx::eq(&v, &x) & (size == len)));
    cover!(1);
}
/// A hash of a wrong size fails.
#[no_mangle]
pub extern "C" fn c19_hash() {
    sx::mode(sx::M_UF, 1);
    model_hash();
    let h = sx::trits(sx::param(0));
    let mut sig = sx::trits(18 + 13122 + 243);
    for i in 0..18 {
        sig[i] = if i == 0 { 1 } else { 0 };
    }
    ck!(mss::PublicKey::recover(sl(&h), sl(&sig)).is_none());
    cover!(1);
}
harnesses! { c20_history c20_agree c20_load c20_heights c18_life c19_any c19_hash }
