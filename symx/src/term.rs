//! Hash-consed bit-vector terms. Terms whose support is a handful of
//! small-domain variables (trits mostly) are kept in canonical tabular form;
//! every tabular rewrite is recorded as a template and re-proved by the SMT
//! solver (see smt.rs: `validate`).
use crate::ll::{mask, sx, Bop, Pred};
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

pub type T = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = HashSet<K, FxB>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Tab(Rc<[u32]>, Rc<[u64]>),
    Bin(Bop, T, T),
    Cmp(Pred, T, T),
    Ite(T, T, T),
    Zext(T),
    Sext(T),
    Extract(T, u32),
    Concat(T, T),
    Bits(Rc<[T]>),
}

#[derive(Clone, Debug)]
pub struct Info {
    pub n: N,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub w: u32,
    pub lo: u64,
    pub n: u32, // domain size, 0 for a full bit-vector
    pub uf: Option<u32>,
    /// Abbreviation: the variable stands for this term (added to every query it occurs in).
    pub def: Option<T>,
    /// Constraint that comes with the variable (same treatment).
    pub cons: Option<T>,
}

pub const TAB_MAX: usize = 59049;
pub const BITS_TAB_MAX: usize = 9;

/// A rewrite instance to be re-proved: op(args) == result.
#[derive(Clone, Debug)]
pub struct Template {
    pub n: N,
    pub w: u32,
    pub res: T,
}

pub struct Store {
    pub nodes: Vec<Info>,
    map: FxMap<(N, u32), T>,
    cache: FxMap<(u8, T, T, T), T>,
    pub vars: Vec<VarInfo>,
    pub templates: Vec<Template>,
    tkeys: HashSet<u128>,
    pub tab_ops: u64,
    pub tab_cap: usize,
    pub record: bool,
    sup: FxMap<T, Rc<[u32]>>,
    abbrs: FxMap<T, T>,
    divs: FxMap<(T, u64, bool), (T, T)>,
    pub ndefs: usize,
    siv: FxMap<T, (i128, i128)>,
}

pub fn ev_bin(op: Bop, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        Bop::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bop::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    u128::MAX
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Bop::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Bop::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Bop::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bop::AShr => {
            let x = sx(a, w);
            (if b >= w as u128 { x >> (w - 1) } else { x >> b }) as u128
        }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
    };
    mask(r, w)
}

pub fn ev_cmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

impl Store {
    pub fn new() -> Store {
        let mut s = Store {
            nodes: vec![],
            map: Default::default(),
            cache: Default::default(),
            vars: vec![],
            templates: vec![],
            tkeys: Default::default(),
            tab_ops: 0,
            tab_cap: TAB_MAX,
            record: true,
            sup: Default::default(),
            abbrs: Default::default(),
            divs: Default::default(),
            ndefs: 0,
            siv: Default::default(),
        };
        // T 0 is reserved ("no term")
        s.nodes.push(Info { n: N::Const(0), w: 0, lo: 0, hi: 0 });
        s
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    pub fn node(&self, t: T) -> &N {
        &self.nodes[t as usize].n
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.nodes[t as usize].n {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn iv(&self, t: T) -> (u128, u128) {
        let i = &self.nodes[t as usize];
        (i.lo, i.hi)
    }
    fn intern(&mut self, n: N, w: u32) -> T {
        if let Some(t) = self.map.get(&(n.clone(), w)) {
            return *t;
        }
        let (lo, hi) = self.interval(&n, w);
        let t = self.nodes.len() as T;
        self.nodes.push(Info { n: n.clone(), w, lo, hi });
        self.map.insert((n, w), t);
        t
    }
    fn interval(&self, n: &N, w: u32) -> (u128, u128) {
        let full = mask(u128::MAX, w);
        let iv = |t: T| self.iv(t);
        match n {
            N::Const(v) => (*v, *v),
            N::Var(_) => (0, full),
            N::Tab(_, v) => (*v.iter().min().unwrap() as u128, *v.iter().max().unwrap() as u128),
            N::Zext(t) => iv(*t),
            N::Ite(_, a, b) => (iv(*a).0.min(iv(*b).0), iv(*a).1.max(iv(*b).1)),
            N::Extract(t, lo) => {
                if *lo == 0 && iv(*t).1 <= full {
                    iv(*t)
                } else if lo + w == self.w(*t) {
                    (iv(*t).0 >> lo, iv(*t).1 >> lo)
                } else {
                    (0, full)
                }
            }
            N::Concat(h, l) => {
                let lw = self.w(*l);
                ((iv(*h).0 << lw) + iv(*l).0, (iv(*h).1 << lw) + iv(*l).1)
            }
            N::Bin(op, a, b) => {
                let (a, b) = (iv(*a), iv(*b));
                match op {
                    Bop::Add => {
                        if w < 128 && a.1 + b.1 <= full {
                            (a.0 + b.0, a.1 + b.1)
                        } else if w < 128 && a.0 + b.0 > full {
                            (a.0 + b.0 - full - 1, a.1 + b.1 - full - 1)
                        } else {
                            (0, full)
                        }
                    }
                    Bop::Sub => {
                        if a.0 >= b.1 {
                            (a.0 - b.1, a.1 - b.0)
                        } else {
                            (0, full)
                        }
                    }
                    Bop::Mul => match a.1.checked_mul(b.1) {
                        Some(m) if m <= full => (a.0 * b.0, m),
                        _ => (0, full),
                    },
                    Bop::UDiv => {
                        if b.0 > 0 {
                            (a.0 / b.1, a.1 / b.0)
                        } else {
                            (0, full)
                        }
                    }
                    Bop::URem => {
                        if b.0 > 0 && b.0 == b.1 && a.1 < b.0 {
                            a
                        } else if b.0 > 0 {
                            (0, a.1.min(b.1 - 1))
                        } else {
                            (0, full)
                        }
                    }
                    Bop::And => (0, a.1.min(b.1)),
                    Bop::Or => (a.0.max(b.0), {
                        let m = a.1.max(b.1);
                        let bits = 128 - m.leading_zeros();
                        mask(u128::MAX, bits.max(1))
                    }),
                    Bop::Xor => (0, {
                        let m = a.1.max(b.1);
                        let bits = 128 - m.leading_zeros();
                        mask(u128::MAX, bits.max(1))
                    }),
                    Bop::Shl => {
                        if b.0 == b.1 && b.0 < w as u128 && w < 128 && (a.1.leading_zeros() as u128) > b.0 && (a.1 << b.0) <= full {
                            (a.0 << b.0, a.1 << b.0)
                        } else {
                            (0, full)
                        }
                    }
                    Bop::LShr => {
                        if b.0 == b.1 && b.0 < w as u128 {
                            (a.0 >> b.0, a.1 >> b.0)
                        } else {
                            (0, a.1)
                        }
                    }
                    _ => (0, full),
                }
            }
            _ => (0, full),
        }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> T {
        self.intern(N::Const(mask(v, w)), w)
    }
    pub fn boolc(&mut self, b: bool) -> T {
        self.konst(b as u128, 1)
    }
    /// Small-domain variable (values lo..lo+n), as a w-bit term.
    pub fn var(&mut self, w: u32, lo: u64, n: u32, uf: Option<u32>) -> (u32, T) {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { w, lo, n, uf, def: None, cons: None });
        let t = if n == 0 {
            self.intern(N::Var(id), w)
        } else if n == 1 {
            self.konst(lo as u128, w)
        } else {
            let vals: Vec<u64> = (0..n as u64).map(|i| mask((lo.wrapping_add(i)) as u128, w) as u64).collect();
            self.intern(N::Tab(Rc::from(vec![id]), Rc::from(vals)), w)
        };
        (id, t)
    }
    /// Restrict the interval of a full variable (range constraint asserted separately).
    pub fn set_iv(&mut self, t: T, lo: u128, hi: u128) {
        self.nodes[t as usize].lo = lo;
        self.nodes[t as usize].hi = hi;
    }


    /// Small-domain variable standing for `def`, whose value lies in lo..lo+n.
    pub fn abbr(&mut self, def: T, lo: u64, n: u32) -> T {
        if let Some(t) = self.abbrs.get(&def) {
            return *t;
        }
        let w = self.w(def);
        let (id, t) = self.var(w, lo, n, None);
        self.vars[id as usize].def = Some(def);
        self.ndefs += 1;
        self.abbrs.insert(def, t);
        t
    }
    /// Equations defining the abbreviations that occur (transitively) in `ts`.
    pub fn def_lits(&mut self, ts: &[T]) -> Vec<T> {
        if self.ndefs == 0 {
            return vec![];
        }
        let mut out = vec![];
        let mut seen: FxSet<u32> = Default::default();
        let mut todo: Vec<T> = ts.to_vec();
        while let Some(t) = todo.pop() {
            let vs = self.support1(t);
            for v in vs.iter() {
                if let Some(d) = self.vars[*v as usize].def {
                    if seen.insert(*v) {
                        out.push(self.def_eq(*v));
                        todo.push(d);
                    }
                }
                if let Some(d) = self.vars[*v as usize].cons {
                    if seen.insert(*v) {
                        out.push(d);
                        todo.push(d);
                    }
                }
            }
        }
        out
    }
    /// Quotient and remainder of a sum: summands that are multiples of m (as integers, without
    /// wrap-around anywhere) are divided exactly, the rest is a table split by value.
    fn divparts(&mut self, a: T, m: u64) -> Option<(T, T)> {
        let w = self.w(a);
        if !matches!(self.node(a), N::Bin(Bop::Add, ..)) || w > 64 {
            return None;
        }
        let mut parts = vec![];
        let mut todo = vec![a];
        while let Some(x) = todo.pop() {
            match *self.node(x) {
                N::Bin(Bop::Add, p, q) => {
                    todo.push(p);
                    todo.push(q);
                }
                _ => parts.push(x),
            }
            if parts.len() + todo.len() > 64 {
                return None;
            }
        }
        let m = m as i128;
        let mut tot = (0i128, 0i128);
        let mut quo: Vec<T> = vec![];
        let mut rest: Vec<T> = vec![];
        for x in parts {
            let r = self.siv(x);
            tot = (tot.0 + r.0, tot.1 + r.1);
            match self.node(x).clone() {
                N::Bin(Bop::Mul, p, q) => {
                    let (p, c) = if self.as_const(q).is_some() { (p, q) } else { (q, p) };
                    let cv = sx(self.as_const(c)?, w);
                    let pr = self.siv(p);
                    let lim = 1i128 << (w - 1);
                    let (e0, e1) = (pr.0.checked_mul(cv)?, pr.1.checked_mul(cv)?);
                    if cv % m != 0 || e0.min(e1) < -lim || e0.max(e1) >= lim {
                        return None;
                    }
                    let k = self.konst(mask((cv / m) as u128, w), w);
                    let t = self.bin(Bop::Mul, p, k);
                    quo.push(t);
                }
                N::Tab(vars, vals) if vals.iter().all(|v| sx(*v as u128, w) % m == 0) => {
                    let nv = vals.iter().map(|v| mask((sx(*v as u128, w) / m) as u128, w) as u64).collect();
                    let t = self.mk_tab(vars.to_vec(), nv, w);
                    quo.push(t);
                }
                N::Tab(vars, vals) => {
                    // nearest multiple: keeps the ranges of the parts tight
                    let h = (m - 1) / 2;
                    let qv = vals.iter().map(|v| mask((sx(*v as u128, w) + h).div_euclid(m) as u128, w) as u64).collect();
                    let rv = vals.iter().map(|v| mask(((sx(*v as u128, w) + h).rem_euclid(m) - h) as u128, w) as u64).collect();
                    let t = self.mk_tab(vars.to_vec(), qv, w);
                    quo.push(t);
                    let t = self.mk_tab(vars.to_vec(), rv, w);
                    rest.push(t);
                }
                N::Const(_) => rest.push(x),
                _ => return None,
            }
        }
        if tot.0 < 0 || tot.1 >= 1i128 << (w - 1) || quo.is_empty() {
            return None;
        }
        let mut low = self.konst(0, w);
        for x in rest {
            low = self.bin(Bop::Add, low, x);
        }
        let (vars, vals) = self.tab(low)?;
        let qv = vals.iter().map(|v| mask(sx(*v as u128, w).div_euclid(m) as u128, w) as u64).collect();
        let rv = vals.iter().map(|v| sx(*v as u128, w).rem_euclid(m) as u64).collect();
        let mut q = self.mk_tab(vars.to_vec(), qv, w);
        let r = self.mk_tab(vars.to_vec(), rv, w);
        for x in quo {
            q = self.bin(Bop::Add, q, x);
        }
        Some((q, r))
    }
    /// Quotient and remainder of an opaque term by a constant, as fresh variables tied to it by
    /// t == q * m + r with the ranges that make them unique.
    fn divsplit(&mut self, a: T, m: u64, signed: bool) -> Option<(T, T)> {
        if let Some(r) = self.divs.get(&(a, m, signed)) {
            return Some(*r);
        }
        if std::env::var("SYMX_DIV").is_ok() { eprintln!("DIV {} w{} {} {}", m, self.w(a), signed, self.show(a, 4)); }
        if !signed || self.siv(a).0 >= 0 {
            if let Some(r) = self.divparts(a, m) {
                self.divs.insert((a, m, signed), r);
                return Some(r);
            }
        }
        let w = self.w(a);
        let (q, r, cons);
        let mc = self.konst(m as u128, w);
        if !signed {
            if m > 1 << 20 {
                return None;
            }
            let qmax = self.iv(a).1 / m as u128;
            let (qv, q_) = self.var(w, 0, 0, None);
            self.set_iv(q_, 0, qmax);
            let (rv, r_) = self.var(w, 0, if m > 256 { 0 } else { m as u32 }, None);
            if m > 256 {
                self.set_iv(r_, 0, m as u128 - 1);
            }
            q = q_;
            r = r_;
            let k = self.konst(qmax, w);
            let c1 = self.intern(N::Cmp(Pred::Ule, q, k), 1);
            let p = self.intern(N::Bin(Bop::Mul, q, mc), w);
            let s = self.intern(N::Bin(Bop::Add, p, r), w);
            let c2 = self.intern(N::Cmp(Pred::Eq, s.min(a), s.max(a)), 1);
            // q*m + r < 2^w: q <= qmax and, at q == qmax, r <= max - qmax*m
            let top = self.konst(self.iv(a).1, w);
            let c3 = self.intern(N::Cmp(Pred::Ule, s, top), 1);
            let c4 = self.intern(N::Cmp(Pred::Ule, r, s), 1);
            let c34 = self.intern(N::Bin(Bop::And, c3, c4), 1);
            let c12 = self.intern(N::Bin(Bop::And, c1, c2), 1);
            let top = self.konst(m as u128, w);
            let c5 = self.intern(N::Cmp(Pred::Ult, r, top), 1);
            let c12 = self.intern(N::Bin(Bop::And, c12, c5), 1);
            cons = self.intern(N::Bin(Bop::And, c12, c34), 1);
            self.vars[qv as usize].cons = Some(cons);
            self.vars[rv as usize].cons = Some(cons);
        } else {
            if m > 1 << 20 {
                return None;
            }
            let sv = self.siv(a);
            let (ql, qh) = (sv.0 / m as i128, sv.1 / m as i128);
            let (qv, q_) = self.var(w, 0, 0, None);
            self.siv.insert(q_, (ql, qh));
            let (rv, r_) = self.var(w, mask((1 - m as i128) as u128, w) as u64, if m > 128 { 0 } else { 2 * m as u32 - 1 }, None);
            self.siv.insert(r_, (1 - m as i128, m as i128 - 1));
            q = q_;
            r = r_;
            let kl = self.konst(mask(ql as u128, w), w);
            let kh = self.konst(mask(qh as u128, w), w);
            let z = self.konst(0, w);
            let c1 = self.intern(N::Cmp(Pred::Sle, kl, q), 1);
            let c2 = self.intern(N::Cmp(Pred::Sle, q, kh), 1);
            let p = self.intern(N::Bin(Bop::Mul, q, mc), w);
            let s = self.intern(N::Bin(Bop::Add, p, r), w);
            let c3 = self.intern(N::Cmp(Pred::Eq, s.min(a), s.max(a)), 1);
            // the remainder has the sign of the dividend (or is zero), the product lies between
            let neg = self.intern(N::Cmp(Pred::Slt, a, z), 1);
            let rn = self.intern(N::Cmp(Pred::Sle, r, z), 1);
            let rp = self.intern(N::Cmp(Pred::Sle, z, r), 1);
            let c4 = self.intern(N::Ite(neg, rn, rp), 1);
            let an = self.intern(N::Cmp(Pred::Sle, a, p), 1);
            let ap = self.intern(N::Cmp(Pred::Sle, p, a), 1);
            let c5 = self.intern(N::Ite(neg, an, ap), 1);
            let mut c = c1;
            let kl = self.konst(mask((1 - m as i128) as u128, w), w);
            let kh = self.konst(m as u128 - 1, w);
            let c6 = self.intern(N::Cmp(Pred::Sle, kl, r), 1);
            let c7 = self.intern(N::Cmp(Pred::Sle, r, kh), 1);
            for x in [c2, c3, c4, c5, c6, c7] {
                c = self.intern(N::Bin(Bop::And, c, x), 1);
            }
            cons = c;
            self.vars[qv as usize].cons = Some(cons);
            self.vars[rv as usize].cons = Some(cons);
        }
        self.ndefs += 1;
        self.divs.insert((a, m, signed), (q, r));
        Some((q, r))
    }
    pub fn def_eq(&mut self, v: u32) -> T {
        let d = self.vars[v as usize].def.unwrap();
        let t = self.abbrs[&d];
        let w = self.w(t);
        let _ = w;
        // not simplified on purpose: the variable and its definition are different terms
        self.intern(N::Cmp(Pred::Eq, t.min(d), t.max(d)), 1)
    }
    /// Signed range of a term (up to 64 bits).
    pub fn siv(&mut self, t: T) -> (i128, i128) {
        self.siv_d(t, 12)
    }
    fn siv_d(&mut self, t: T, depth: u32) -> (i128, i128) {
        if let Some(r) = self.siv.get(&t) {
            return *r;
        }
        let w = self.w(t);
        if w > 100 {
            return (i128::MIN / 4, i128::MAX / 4);
        }
        let (fl, fh) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let mut r = (fl, fh);
        let (lo, hi) = self.iv(t);
        if hi as i128 <= fh {
            r = (lo as i128, hi as i128);
        } else if lo as i128 > fh {
            r = (sx(lo, w), sx(hi, w));
        }
        if depth > 0 {
            let fit = |x: (i128, i128)| if x.0 >= fl && x.1 <= fh { x } else { (fl, fh) };
            let q = match self.node(t).clone() {
                N::Tab(_, v) => {
                    let mut a = i128::MAX;
                    let mut b = i128::MIN;
                    for x in v.iter() {
                        let y = sx(*x as u128, w);
                        a = a.min(y);
                        b = b.max(y);
                    }
                    (a, b)
                }
                N::Sext(a) => self.siv_d(a, depth - 1),
                N::Ite(_, a, b) => {
                    let (x, y) = (self.siv_d(a, depth - 1), self.siv_d(b, depth - 1));
                    (x.0.min(y.0), x.1.max(y.1))
                }
                N::Bin(op, a, b) => {
                    let (x, y) = (self.siv_d(a, depth - 1), self.siv_d(b, depth - 1));
                    match op {
                        Bop::Add => fit((x.0 + y.0, x.1 + y.1)),
                        Bop::Sub => fit((x.0 - y.1, x.1 - y.0)),
                        Bop::Mul => {
                            let m = |p: i128, q: i128| p.checked_mul(q);
                            match (m(x.0, y.0), m(x.0, y.1), m(x.1, y.0), m(x.1, y.1)) {
                                (Some(a), Some(b), Some(c), Some(d)) => fit((a.min(b).min(c).min(d), a.max(b).max(c).max(d))),
                                _ => (fl, fh),
                            }
                        }
                        Bop::SRem if y.0 == y.1 && y.0 > 0 => {
                            let m = y.0;
                            (if x.0 >= 0 { 0 } else { (1 - m).max(x.0) }, if x.1 <= 0 { 0 } else { (m - 1).min(x.1) })
                        }
                        Bop::SDiv if y.0 == y.1 && y.0 > 0 => (x.0 / y.0, x.1 / y.0),
                        _ => (fl, fh),
                    }
                }
                N::Extract(a, 0) => {
                    let x = self.siv_d(a, depth - 1);
                    if x.0 >= fl && x.1 <= fh {
                        x
                    } else {
                        (fl, fh)
                    }
                }
                _ => (fl, fh),
            };
            r = (r.0.max(q.0), r.1.min(q.1));
            if r.0 > r.1 {
                r = (fl, fh);
            }
        }
        self.siv.insert(t, r);
        r
    }
    /// (A + B) / m and (A + B) rem m for tables A, B where m divides every value of B and
    /// |A| < m: the quotient and remainder depend on A and the sign of B only.
    fn div_const(&mut self, op: Bop, a: T, m: u128) -> Option<T> {
        let w = self.w(a);
        let rem = matches!(op, Bop::SRem | Bop::URem);
        if w > 64 || w < 16 || m < 2 || m > 1 << 20 || m.is_power_of_two() {
            return None;
        }
        let signed = matches!(op, Bop::SRem | Bop::SDiv) && self.siv(a).0 < 0;
        // q*m + (t) / m with t a table: split off the multiple
        if !signed {
            if w > 32 && self.iv(a).1 < 1 << 31 {
                let x = self.extract(a, 0, 32);
                let k = self.konst(m, 32);
                let r = self.bin(if rem { Bop::URem } else { Bop::UDiv }, x, k);
                return Some(self.zext(r, w));
            }
            if let N::Zext(x) = *self.node(a) {
                let xw = self.w(x);
                if xw >= 16 && m < 1 << xw {
                    let k = self.konst(m, xw);
                    let r = self.bin(if rem { Bop::URem } else { Bop::UDiv }, x, k);
                    return Some(self.zext(r, w));
                }
            }
        } else if let N::Sext(x) = *self.node(a) {
            let xw = self.w(x);
            if xw >= 16 && m < 1 << (xw - 1) {
                let k = self.konst(m, xw);
                let r = self.bin(op, x, k);
                return Some(self.sext(r, w));
            }
        }
        if self.is_tabby(a) {
            return None;
        }
        let (q, r) = self.divsplit(a, m as u64, signed)?;
        Some(if rem { r } else { q })
    }
    fn divrem_affine(&mut self, op: Bop, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        if w > 64 || w < 8 {
            return None;
        }
        let m = sx(self.as_const(b)?, w);
        if m <= 1 {
            return None;
        }
        let (x, y) = match self.node(a) {
            N::Bin(Bop::Add, x, y) => (*x, *y),
            _ => return None,
        };
        if !self.is_tabby(x) || !self.is_tabby(y) {
            return None;
        }
        let (sxx, syy) = (self.siv(x), self.siv(y));
        let lim = 1i128 << (w - 1);
        if sxx.0 + syy.0 < -lim || sxx.1 + syy.1 >= lim {
            return None;
        }
        if matches!(op, Bop::URem | Bop::UDiv) && sxx.0 + syy.0 < 0 {
            return None;
        }
        let mult = |s: &Store, t: T| s.tab(t).unwrap().1.iter().all(|v| sx(*v as u128, w) % m == 0);
        let (lo, hi) = if sxx.0 > -m && sxx.1 < m && mult(self, y) {
            (x, y)
        } else if syy.0 > -m && syy.1 < m && mult(self, x) {
            (y, x)
        } else {
            return None;
        };
        let cap = self.tab_cap;
        // sign of the multiple, 0..=2
        let sg = self.tab_op(N::Const(0), &[hi], 8, cap, &|v| (sx(v[0] as u128, w).signum() + 1) as u64)?;
        let sv = if self.as_const(sg).is_some() { sg } else { self.abbr(sg, 0, 3) };
        let rem = matches!(op, Bop::URem | Bop::SRem);
        let rec = std::mem::replace(&mut self.record, false);
        let part = self.tab_op(N::Const(1), &[lo, sv], w, cap, &|v| {
            let a = sx(v[0] as u128, w);
            let big = (v[1] as i128 - 1) * 4 * m + a; // any multiple of that sign
            let r = if rem { big % m } else { big / m - (v[1] as i128 - 1) * 4 };
            mask(r as u128, w) as u64
        });
        let q = if rem { None } else { self.tab_op(N::Const(2), &[hi], w, cap, &|v| mask((sx(v[0] as u128, w) / m) as u128, w) as u64) };
        self.record = rec;
        let part = part?;
        if rem {
            Some(part)
        } else {
            Some(self.bin(Bop::Add, q?, part))
        }
    }

    // ------------------------------------------------------------ tables
    pub fn tab(&self, t: T) -> Option<(Rc<[u32]>, Rc<[u64]>)> {
        match &self.nodes[t as usize].n {
            N::Tab(v, x) => Some((v.clone(), x.clone())),
            N::Const(c) if self.w(t) <= 64 => Some((Rc::from(vec![]), Rc::from(vec![*c as u64]))),
            _ => None,
        }
    }
    fn is_tabby(&self, t: T) -> bool {
        match &self.nodes[t as usize].n {
            N::Tab(..) => true,
            N::Const(_) => self.w(t) <= 64,
            _ => false,
        }
    }
    fn dom(&self, v: u32) -> usize {
        self.vars[v as usize].n as usize
    }
    fn union(&self, ts: &[T]) -> Option<(Vec<u32>, usize)> {
        let mut v: Vec<u32> = vec![];
        // a joint table beyond `top` is never built
        let top = self.tab_cap.max(BITS_TAB_MAX) << 8;
        let mut size = 1usize;
        for t in ts {
            match self.node(*t) {
                N::Tab(x, _) => {
                    for y in x.iter() {
                        if let Err(p) = v.binary_search(y) {
                            v.insert(p, *y);
                            size = size.saturating_mul(self.dom(*y));
                            if size > top {
                                return None;
                            }
                        }
                    }
                }
                N::Const(_) => {}
                _ => return None,
            }
        }
        let mut p = 1usize;
        for x in &v {
            p = p.saturating_mul(self.dom(*x));
        }
        Some((v, p))
    }
    /// For each joint assignment of `vars` give the index into each table.
    fn joint(&self, vars: &[u32], tabs: &[(Rc<[u32]>, Rc<[u64]>)], f: &mut dyn FnMut(&[u64])) {
        let k = vars.len();
        let dims: Vec<usize> = vars.iter().map(|v| self.dom(*v)).collect();
        let strides: Vec<Vec<usize>> = tabs
            .iter()
            .map(|(tv, _)| {
                vars.iter()
                    .map(|v| {
                        if let Ok(p) = tv.binary_search(v) {
                            tv[p + 1..].iter().map(|x| self.dom(*x)).product()
                        } else {
                            0
                        }
                    })
                    .collect()
            })
            .collect();
        let mut digs = vec![0usize; k];
        let mut pos = vec![0usize; tabs.len()];
        let mut vals = vec![0u64; tabs.len()];
        loop {
            for (i, (_, x)) in tabs.iter().enumerate() {
                vals[i] = x[pos[i]];
            }
            f(&vals);
            // increment, last variable fastest
            let mut j = k;
            loop {
                if j == 0 {
                    return;
                }
                j -= 1;
                digs[j] += 1;
                if digs[j] < dims[j] {
                    for i in 0..tabs.len() {
                        pos[i] += strides[i][j];
                    }
                    break;
                }
                for i in 0..tabs.len() {
                    pos[i] -= strides[i][j] * (dims[j] - 1);
                }
                digs[j] = 0;
            }
        }
    }
    /// Canonical table term: drops variables the table does not depend on.
    pub fn mk_tab(&mut self, vars: Vec<u32>, vals: Vec<u64>, w: u32) -> T {
        let mut vars = vars;
        let mut vals = vals;
        let mut i = 0;
        while i < vars.len() {
            let d = self.dom(vars[i]);
            let inner: usize = vars[i + 1..].iter().map(|v| self.dom(*v)).product();
            let outer = vals.len() / (inner * d);
            let mut dep = false;
            'o: for o in 0..outer {
                let base = o * d * inner;
                for j in 1..d {
                    if vals[base..base + inner] != vals[base + j * inner..base + (j + 1) * inner] {
                        dep = true;
                        break 'o;
                    }
                }
            }
            if dep {
                i += 1;
            } else {
                let mut nv = Vec::with_capacity(vals.len() / d);
                for o in 0..outer {
                    nv.extend_from_slice(&vals[o * d * inner..o * d * inner + inner]);
                }
                vals = nv;
                vars.remove(i);
            }
        }
        if vars.is_empty() {
            return self.konst(vals[0] as u128, w);
        }
        self.intern(N::Tab(Rc::from(vars), Rc::from(vals)), w)
    }
    fn tab_op(&mut self, n: N, args: &[T], w: u32, limit: usize, f: &dyn Fn(&[u64]) -> u64) -> Option<T> {
        if w > 64 || !args.iter().all(|a| self.is_tabby(*a)) {
            return None;
        }
        let (vars, p) = self.union(args)?;
        if p > limit {
            return None;
        }
        let tabs: Vec<_> = args.iter().map(|a| self.tab(*a).unwrap()).collect();
        let mut out = Vec::with_capacity(p);
        self.joint(&vars, &tabs, &mut |v| out.push(f(v)));
        let r = self.mk_tab(vars.clone(), out, w);
        self.tab_ops += 1;
        if self.record && !vars.is_empty() {
            self.note(n, args, w, r, &vars);
        }
        Some(r)
    }
    fn note(&mut self, n: N, args: &[T], w: u32, res: T, vars: &[u32]) {
        // key: operation + tables with variables renamed by position
        let mut h1 = Fx(0x1234567);
        let mut h2 = Fx(0xabcdef);
        let mut put = |x: u64| {
            h1.write_u64(x);
            h2.write_u64(x.rotate_left(17) ^ 0x9e3779b97f4a7c15);
        };
        let tag: u64 = match &n {
            N::Bin(op, ..) => 0x100 + *op as u64,
            N::Cmp(p, ..) => 0x200 + *p as u64,
            N::Ite(..) => 0x300,
            N::Zext(_) => 0x400,
            N::Sext(_) => 0x500,
            N::Extract(_, lo) => 0x10000 + *lo as u64,
            N::Concat(..) => 0x600,
            N::Bits(_) => 0x700,
            _ => 0x800,
        };
        put(tag);
        put(w as u64);
        for v in vars {
            put(self.dom(*v) as u64);
            put(self.vars[*v as usize].lo);
        }
        for a in args.iter().chain(std::iter::once(&res)) {
            put(self.w(*a) as u64 | 0x5500);
            match self.node(*a) {
                N::Tab(v, x) => {
                    for y in v.iter() {
                        put(vars.binary_search(y).unwrap() as u64);
                    }
                    for y in x.iter() {
                        put(*y);
                    }
                }
                N::Const(c) => put(*c as u64),
                _ => {}
            }
        }
        let key = (h1.finish() as u128) << 64 | h2.finish() as u128;
        if self.tkeys.insert(key) {
            self.templates.push(Template { n, w, res });
        }
    }

    /// Set of values a table can take when variables are restricted by `allowed`.
    pub fn tab_values(&self, t: T, allowed: &dyn Fn(u32) -> Option<[u64; 4]>) -> Option<Vec<u64>> {
        let (vars, vals) = match self.node(t) {
            N::Tab(v, x) => (v.clone(), x.clone()),
            N::Const(c) => return Some(vec![*c as u64]),
            _ => return None,
        };
        let mut any = false;
        let al: Vec<Option<[u64; 4]>> = vars
            .iter()
            .map(|v| {
                let a = allowed(*v);
                any |= a.is_some();
                a
            })
            .collect();
        let mut out: Vec<u64> = vec![];
        if !any {
            out.extend_from_slice(&vals);
        } else {
            let dims: Vec<usize> = vars.iter().map(|v| self.dom(*v)).collect();
            for (i, x) in vals.iter().enumerate() {
                let mut r = i;
                let mut ok = true;
                for k in (0..dims.len()).rev() {
                    let d = r % dims[k];
                    r /= dims[k];
                    if let Some(a) = &al[k] {
                        if a[d / 64] >> (d % 64) & 1 == 0 {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    out.push(*x);
                }
            }
        }
        out.sort();
        out.dedup();
        Some(out)
    }

    // ------------------------------------------------------------ bits
    fn bitsy(&self, t: T) -> bool {
        match &self.nodes[t as usize].n {
            N::Tab(..) | N::Const(_) | N::Bits(_) => true,
            _ => false,
        }
    }
    pub fn bit(&mut self, t: T, i: u32) -> T {
        match self.node(t).clone() {
            N::Const(c) => {
                let b = c >> i & 1 == 1;
                self.boolc(b)
            }
            N::Bits(v) => v[i as usize],
            N::Zext(x) => {
                if i < self.w(x) {
                    self.bit(x, i)
                } else {
                    self.boolc(false)
                }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                if i < lw {
                    self.bit(l, i)
                } else {
                    self.bit(h, i - lw)
                }
            }
            _ => self.extract(t, i, 1),
        }
    }
    fn bits_of(&mut self, t: T) -> Vec<T> {
        (0..self.w(t)).map(|i| self.bit(t, i)).collect()
    }
    pub fn mk_bits(&mut self, b: Vec<T>) -> T {
        let w = b.len() as u32;
        if w == 1 {
            return b[0];
        }
        if b.iter().all(|t| self.as_const(*t).is_some()) {
            let mut v = 0u128;
            for (i, t) in b.iter().enumerate() {
                v |= self.as_const(*t).unwrap() << i;
            }
            return self.konst(v, w);
        }
        // consecutive bits of one generic term
        if let N::Extract(x, lo) = self.node(b[0]).clone() {
            if b.iter().enumerate().all(|(i, t)| matches!(self.node(*t), N::Extract(y, l) if *y == x && *l == lo + i as u32)) {
                return self.extract(x, lo, w);
            }
        }
        if w <= 64 {
            // at most a few bits that all depend on one variable
            let mut one: Option<Rc<[u32]>> = None;
            let mut ok = true;
            for x in &b {
                match self.node(*x) {
                    N::Const(_) => {}
                    N::Tab(v, _) if v.len() == 1 && one.as_ref().map_or(true, |o| o[0] == v[0]) => {
                        if one.is_none() {
                            one = Some(v.clone());
                        }
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if let (true, Some(v)) = (ok, one) {
                let mut vals = vec![0u64; self.dom(v[0])];
                for (i, x) in b.iter().enumerate() {
                    match self.node(*x) {
                        N::Const(c) => {
                            if *c & 1 == 1 {
                                vals.iter_mut().for_each(|o| *o |= 1 << i);
                            }
                        }
                        N::Tab(_, t) => vals.iter_mut().zip(t.iter()).for_each(|(o, x)| *o |= x << i),
                        _ => unreachable!(),
                    }
                }
                return self.mk_tab(v.to_vec(), vals, w);
            }
            if let Some((u, p)) = self.union(&b) {
                let one = |s: &Store| b.iter().any(|t| matches!(s.node(*t), N::Tab(v, _) if v.len() == u.len()));
                if p <= BITS_TAB_MAX || (p <= self.tab_cap && one(self)) {
                    let args = b.clone();
                    let n = N::Bits(Rc::from(b.clone()));
                    if let Some(t) = self.tab_op(n, &args, w, self.tab_cap.max(BITS_TAB_MAX), &|v| v.iter().enumerate().fold(0u64, |a, (i, x)| a | x << i)) {
                        return t;
                    }
                }
            }
        }
        self.intern(N::Bits(Rc::from(b)), w)
    }

    // ------------------------------------------------------------ builders
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.konst(u128::MAX, w);
        self.bin(Bop::Xor, a, m)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(Bop::And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Bop::Or, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.cmp(Pred::Eq, a, b)
    }

    pub fn bin(&mut self, op: Bop, a: T, b: T) -> T {
        let key = (op as u8, a, b, 0);
        if let Some(r) = self.cache.get(&key) {
            return *r;
        }
        let r = self.bin0(op, a, b);
        self.cache.insert(key, r);
        r
    }
    fn bin0(&mut self, op: Bop, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(ev_bin(op, w, x, y), w);
        }
        let full = mask(u128::MAX, w);
        let commut = matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor);
        if commut && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        if let Some(y) = cb {
            match (op, y) {
                (Bop::Add | Bop::Sub | Bop::Or | Bop::Xor | Bop::Shl | Bop::LShr | Bop::AShr, 0) => return a,
                (Bop::Mul | Bop::And, 0) => return b,
                (Bop::Mul | Bop::UDiv | Bop::SDiv, 1) => return a,
                (Bop::URem, 1) => return self.konst(0, w),
                (Bop::And, y) if y == full => return a,
                (Bop::Or, y) if y == full => return b,
                (Bop::Shl | Bop::LShr, y) if y >= w as u128 => return self.konst(0, w),
                _ => {}
            }
            if op == Bop::URem && self.iv(a).1 < y {
                return a;
            }
            if op == Bop::UDiv && self.iv(a).1 < y {
                return self.konst(0, w);
            }
        }
        if a == b {
            match op {
                Bop::Sub | Bop::Xor => return self.konst(0, w),
                Bop::And | Bop::Or => return a,
                _ => {}
            }
        }
        let bitwise = matches!(op, Bop::And | Bop::Or | Bop::Xor) || (matches!(op, Bop::Shl | Bop::LShr) && cb.is_some());
        let limit = if bitwise && w > 1 { BITS_TAB_MAX } else { self.tab_cap };
        if let Some(t) = self.tab_op(N::Bin(op, a, b), &[a, b], w, limit, &|v| ev_bin(op, w, v[0] as u128, v[1] as u128) as u64) {
            return t;
        }
        if w == 1 {
            // 1-bit logic
            match op {
                Bop::Add | Bop::Sub => return self.bin(Bop::Xor, a, b),
                Bop::Mul => return self.bin(Bop::And, a, b),
                _ => {}
            }
            if op == Bop::Xor && cb == Some(1) {
                if let N::Bin(Bop::Xor, x, y) = self.node(a).clone() {
                    if self.as_const(y) == Some(1) {
                        return x;
                    }
                }
            }
        }
        if bitwise && self.bitsy(a) && self.bitsy(b) && w > 1 {
            let r: Vec<T> = match op {
                Bop::Shl => {
                    let k = cb.unwrap() as u32;
                    (0..w).map(|i| if i < k { self.boolc(false) } else { self.bit(a, i - k) }).collect()
                }
                Bop::LShr => {
                    let k = cb.unwrap() as u32;
                    (0..w).map(|i| if i + k >= w { self.boolc(false) } else { self.bit(a, i + k) }).collect()
                }
                _ => {
                    let x = self.bits_of(a);
                    match cb {
                        Some(c) => (0..w as usize)
                            .map(|i| match (op, c >> i & 1 == 1) {
                                (Bop::And, true) | (Bop::Or | Bop::Xor, false) => x[i],
                                (Bop::And, false) => self.boolc(false),
                                (Bop::Or, true) => self.boolc(true),
                                _ => self.not(x[i]),
                            })
                            .collect(),
                        None => {
                            let y = self.bits_of(b);
                            (0..w as usize).map(|i| self.bin(op, x[i], y[i])).collect()
                        }
                    }
                }
            };
            return self.mk_bits(r);
        }
        if op == Bop::Sub && !bitwise {
            if let N::Bin(Bop::Add, x, y) = *self.node(a) {
                if x == b {
                    return y;
                }
                if y == b {
                    return x;
                }
            }
        }
        if matches!(op, Bop::SRem | Bop::SDiv | Bop::URem | Bop::UDiv) && cb.is_some() {
            if let Some(r) = self.divrem_affine(op, a, b) {
                return r;
            }
            if let Some(r) = self.div_const(op, a, cb.unwrap()) {
                return r;
            }
        }
        // constants and tables gather on the right
        if op == Bop::Add && !bitwise && w >= 8 && w <= 64 {
            if let (N::Bin(Bop::Add, p, c), N::Bin(Bop::Add, q, d)) = (self.node(a).clone(), self.node(b).clone()) {
                if let (Some(x), Some(y)) = (self.as_const(c), self.as_const(d)) {
                    let k = self.konst(ev_bin(Bop::Add, w, x, y), w);
                    let s = self.bin(Bop::Add, p, q);
                    return self.bin(Bop::Add, s, k);
                }
            }
            if let N::Bin(Bop::Add, p, c) = *self.node(a) {
                if self.as_const(c).is_some() && cb.is_none() {
                    let s = self.bin(Bop::Add, p, b);
                    return self.bin(Bop::Add, s, c);
                }
            }
            if let N::Bin(Bop::Add, p, c) = *self.node(b) {
                if self.as_const(c).is_some() && self.as_const(a).is_none() {
                    let s = self.bin(Bop::Add, a, p);
                    return self.bin(Bop::Add, s, c);
                }
            }
            let (x, y) = if self.is_tabby(a) && !self.is_tabby(b) { (b, a) } else { (a, b) };
            if self.is_tabby(y) && cb.is_none() {
                if let N::Bin(Bop::Add, p, c) = *self.node(x) {
                    // into a table that already depends on all of its variables
                    if self.is_tabby(c) && self.is_tabby(p) {
                        for (u, v) in [(p, c), (c, p)] {
                            let su = self.support1(u).len();
                            if su > 0 && self.union(&[u, y]).map_or(false, |z| z.0.len() == su) {
                                let s = self.bin(Bop::Add, u, y);
                                return self.bin(Bop::Add, s, v);
                            }
                        }
                    }
                    if self.is_tabby(c) && !self.is_tabby(p) {
                        let cap = self.tab_cap;
                        if let Some(z) = self.tab_op(N::Bin(op, c, y), &[c, y], w, cap, &|v| mask((v[0] as u128).wrapping_add(v[1] as u128), w) as u64) {
                            return self.bin(Bop::Add, p, z);
                        }
                    }
                }
            }
        }
        if op == Bop::AShr && cb.is_some() {
            if let N::Concat(x, z) = *self.node(a) {
                if self.as_const(z) == Some(0) && self.w(z) as u128 == cb.unwrap() {
                    return self.sext(x, w);
                }
            }
        }
        if op == Bop::Mul && cb.is_some() && w <= 64 && !bitwise {
            if let N::Sext(x) = *self.node(a) {
                let xw = self.w(x);
                let k = sx(cb.unwrap(), w);
                let lim = 1i128 << (xw - 1);
                let v = self.siv(x);
                if k > 0 && v.0 * k >= -lim && v.1 * k < lim {
                    let c = self.konst(k as u128, xw);
                    let p = self.bin(Bop::Mul, x, c);
                    return self.sext(p, w);
                }
            }
        }
        if op == Bop::Mul && cb.is_some() && w >= 8 && w <= 64 && !bitwise {
            if let N::Bin(Bop::Add, p, c) = *self.node(a) {
                if self.is_tabby(c) {
                    let x = self.bin(Bop::Mul, p, b);
                    let y = self.bin(Bop::Mul, c, b);
                    return self.bin(Bop::Add, x, y);
                }
            }
        }
        if let Some(y) = cb {
            match op {
                Bop::Sub => {
                    let c = self.konst(ev_bin(Bop::Sub, w, 0, y), w);
                    return self.bin(Bop::Add, a, c);
                }
                Bop::Add => {
                    if let N::Bin(Bop::Add, x, c) = self.node(a).clone() {
                        if let Some(z) = self.as_const(c) {
                            let k = self.konst(ev_bin(Bop::Add, w, y, z), w);
                            return self.bin(Bop::Add, x, k);
                        }
                    }
                }
                Bop::Shl => {
                    // generic shift left by constant: concat
                    let lo = self.konst(0, y as u32);
                    let hi = self.extract(a, 0, w - y as u32);
                    return self.concat(hi, lo);
                }
                Bop::LShr => {
                    let hi = self.extract(a, y as u32, w - y as u32);
                    return self.zext(hi, w);
                }
                Bop::And => {
                    // low mask
                    if (y + 1).is_power_of_two() && y < full {
                        let k = (y + 1).trailing_zeros();
                        let l = self.extract(a, 0, k);
                        return self.zext(l, w);
                    }
                    if let N::Zext(x) = self.node(a).clone() {
                        let xw = self.w(x);
                        let c = self.konst(y, xw);
                        let r = self.bin(Bop::And, x, c);
                        return self.zext(r, w);
                    }
                }
                Bop::UDiv if y.is_power_of_two() => {
                    let c = self.konst(y.trailing_zeros() as u128, w);
                    return self.bin(Bop::LShr, a, c);
                }
                Bop::URem if y.is_power_of_two() => {
                    let c = self.konst(y - 1, w);
                    return self.bin(Bop::And, a, c);
                }
                _ => {}
            }
        }
        self.intern(N::Bin(op, a, b), w)
    }

    pub fn cmp(&mut self, p: Pred, a: T, b: T) -> T {
        match p {
            Pred::Ne => {
                let e = self.cmp(Pred::Eq, a, b);
                return self.not(e);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, b, a),
            Pred::Uge => {
                let e = self.cmp(Pred::Ult, a, b);
                return self.not(e);
            }
            Pred::Ule => {
                let e = self.cmp(Pred::Ult, b, a);
                return self.not(e);
            }
            Pred::Sgt => return self.cmp(Pred::Slt, b, a),
            Pred::Sge => {
                let e = self.cmp(Pred::Slt, a, b);
                return self.not(e);
            }
            Pred::Sle => {
                let e = self.cmp(Pred::Slt, b, a);
                return self.not(e);
            }
            _ => {}
        }
        let key = (64 + p as u8, a, b, 0);
        if let Some(r) = self.cache.get(&key) {
            return *r;
        }
        let r = self.cmp0(p, a, b);
        self.cache.insert(key, r);
        r
    }
    fn cmp0(&mut self, p: Pred, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.boolc(ev_cmp(p, w, x, y));
        }
        if a == b {
            return self.boolc(p == Pred::Eq);
        }
        let (ia, ib) = (self.iv(a), self.iv(b));
        match p {
            Pred::Eq => {
                if ia.1 < ib.0 || ib.1 < ia.0 {
                    return self.boolc(false);
                }
                if w > 8 && w <= 64 {
                    let (p, q) = (self.siv(a), self.siv(b));
                    if p.1 < q.0 || q.1 < p.0 {
                        return self.boolc(false);
                    }
                }
            }
            Pred::Ult => {
                if w > 8 && w <= 64 {
                    let (p, q) = (self.siv(a), self.siv(b));
                    if p.0 >= 0 && q.0 >= 0 && p.1 < q.0 {
                        return self.boolc(true);
                    }
                    if p.0 >= 0 && q.0 >= 0 && p.0 >= q.1 {
                        return self.boolc(false);
                    }
                }
                if ia.1 < ib.0 {
                    return self.boolc(true);
                }
                if ia.0 >= ib.1 {
                    return self.boolc(false);
                }
            }
            Pred::Slt => {
                let half = 1u128 << (w - 1);
                if ia.1 < half && ib.1 < half {
                    return self.cmp(Pred::Ult, a, b);
                }
                if w <= 64 {
                    let (p, q) = (self.siv(a), self.siv(b));
                    if p.1 < q.0 {
                        return self.boolc(true);
                    }
                    if p.0 >= q.1 {
                        return self.boolc(false);
                    }
                }
            }
            _ => {}
        }
        let cap = self.tab_cap;
        if let Some(t) = self.tab_op(N::Cmp(p, a, b), &[a, b], 1, cap, &|v| ev_cmp(p, w, v[0] as u128, v[1] as u128) as u64) {
            return t;
        }
        if p == Pred::Eq {
            if w == 1 {
                let x = self.bin(Bop::Xor, a, b);
                return self.not(x);
            }
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
            if let Some(c) = self.as_const(b) {
                match self.node(a).clone() {
                    N::Zext(x) => {
                        let xw = self.w(x);
                        if c >> xw != 0 {
                            return self.boolc(false);
                        }
                        let k = self.konst(c, xw);
                        return self.cmp(Pred::Eq, x, k);
                    }
                    N::Bin(Bop::Add, x, k) => {
                        if let Some(kv) = self.as_const(k) {
                            let d = self.konst(ev_bin(Bop::Sub, w, c, kv), w);
                            return self.cmp(Pred::Eq, x, d);
                        }
                    }
                    N::Ite(cc, x, y) => {
                        let (cx, cy) = (self.as_const(x), self.as_const(y));
                        if cx.is_some() || cy.is_some() {
                            let ex = self.cmp(Pred::Eq, x, b);
                            let ey = self.cmp(Pred::Eq, y, b);
                            return self.ite(cc, ex, ey);
                        }
                    }
                    N::Concat(h, l) => {
                        let lw = self.w(l);
                        let hw = self.w(h);
                        let kh = self.konst(c >> lw, hw);
                        let kl = self.konst(c, lw);
                        let e1 = self.cmp(Pred::Eq, h, kh);
                        let e2 = self.cmp(Pred::Eq, l, kl);
                        return self.and(e1, e2);
                    }
                    _ => {}
                }
            }
            let abits = matches!(self.node(a), N::Bits(_));
            let bbits = matches!(self.node(b), N::Bits(_));
            if (abits && self.bitsy(b)) || (bbits && self.bitsy(a)) {
                let x = self.bits_of(a);
                let y = self.bits_of(b);
                let mut r = self.boolc(true);
                for i in 0..w as usize {
                    let e = self.cmp(Pred::Eq, x[i], y[i]);
                    r = self.and(r, e);
                    if self.as_const(r) == Some(0) {
                        break;
                    }
                }
                return r;
            }
            if let (N::Zext(x), N::Zext(y)) = (self.node(a).clone(), self.node(b).clone()) {
                if self.w(x) == self.w(y) {
                    return self.cmp(Pred::Eq, x, y);
                }
            }
        }
        if p == Pred::Ult {
            if let (N::Zext(x), Some(c)) = (self.node(a).clone(), self.as_const(b)) {
                let xw = self.w(x);
                if c >> xw != 0 {
                    return self.boolc(true);
                }
                let k = self.konst(c, xw);
                return self.cmp(Pred::Ult, x, k);
            }
            if let (Some(c), N::Zext(y)) = (self.as_const(a), self.node(b).clone()) {
                let yw = self.w(y);
                if c >> yw != 0 {
                    return self.boolc(false);
                }
                let k = self.konst(c, yw);
                return self.cmp(Pred::Ult, k, y);
            }
        }
        self.intern(N::Cmp(p, a, b), 1)
    }

    fn summands(&self, t: T) -> Vec<T> {
        let mut out = vec![];
        let mut todo = vec![t];
        while let Some(x) = todo.pop() {
            match *self.node(x) {
                N::Bin(Bop::Add, p, q) if out.len() + todo.len() < 4 => {
                    todo.push(q);
                    todo.push(p);
                }
                _ => out.push(x),
            }
        }
        out
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let key = (128, c, a, b);
        if let Some(r) = self.cache.get(&key) {
            return *r;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let mut r = None;
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => r = Some(c),
                (Some(0), Some(1)) => r = Some(self.not(c)),
                (Some(1), None) => r = Some(self.or(c, b)),
                (Some(0), None) => {
                    let n = self.not(c);
                    r = Some(self.and(n, b))
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    r = Some(self.or(n, a))
                }
                (None, Some(0)) => r = Some(self.and(c, a)),
                _ => {}
            }
        }
        if r.is_none() {
            let cap = self.tab_cap;
            r = self.tab_op(N::Ite(c, a, b), &[c, a, b], w, cap, &|v| if v[0] == 1 { v[1] } else { v[2] });
        }
        if r.is_none() && w > 1 && self.bitsy(a) && self.bitsy(b) && (matches!(self.node(a), N::Bits(_)) || matches!(self.node(b), N::Bits(_))) {
            let x = self.bits_of(a);
            let y = self.bits_of(b);
            let v: Vec<T> = (0..w as usize).map(|i| if x[i] == y[i] { x[i] } else { self.ite(c, x[i], y[i]) }).collect();
            r = Some(self.mk_bits(v));
        }
        if r.is_none() && w >= 8 && w <= 64 && self.is_tabby(c) {
            // common summands on both sides, tables otherwise
            let (mut fa, mut fb) = (self.summands(a), self.summands(b));
            let mut common = vec![];
            fa.retain(|x| {
                if let Some(i) = fb.iter().position(|y| y == x) {
                    fb.remove(i);
                    common.push(*x);
                    return false;
                }
                true
            });
            if !common.is_empty() && fa.iter().chain(fb.iter()).all(|x| self.is_tabby(*x)) {
                let z = self.konst(0, w);
                let ka = fa.iter().fold(z, |s, x| self.bin(Bop::Add, s, *x));
                let kb = fb.iter().fold(z, |s, x| self.bin(Bop::Add, s, *x));
                let cap = self.tab_cap;
                if let Some(k) = self.tab_op(N::Ite(c, ka, kb), &[c, ka, kb], w, cap, &|v| if v[0] == 1 { v[1] } else { v[2] }) {
                    let s = common[1..].iter().fold(common[0], |s, x| self.bin(Bop::Add, s, *x));
                    r = Some(self.bin(Bop::Add, s, k));
                }
            }
        }
        if r.is_none() {
            // ite(c, ite(c,x,_), y)
            let mut a2 = a;
            let mut b2 = b;
            if let N::Ite(c2, x, _) = self.node(a) {
                if *c2 == c {
                    a2 = *x;
                }
            }
            if let N::Ite(c2, _, y) = self.node(b) {
                if *c2 == c {
                    b2 = *y;
                }
            }
            r = Some(if a2 == b2 { a2 } else { self.intern(N::Ite(c, a2, b2), w) });
        }
        let r = r.unwrap();
        self.cache.insert(key, r);
        r
    }

    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match self.node(a).clone() {
            N::Const(c) => self.konst(c, w),
            N::Zext(x) => self.zext(x, w),
            N::Tab(..) if w <= 64 => self.tab_op(N::Zext(a), &[a], w, usize::MAX, &|v| v[0]).unwrap(),
            N::Bits(b) => {
                let z = self.boolc(false);
                let mut v = b.to_vec();
                v.resize(w as usize, z);
                self.mk_bits(v)
            }
            _ => self.intern(N::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if self.iv(a).1 < 1u128 << (aw - 1) {
            return self.zext(a, w);
        }
        match self.node(a).clone() {
            N::Const(c) => self.konst(sx(c, aw) as u128, w),
            N::Tab(..) if w <= 64 => self.tab_op(N::Sext(a), &[a], w, usize::MAX, &|v| mask(sx(v[0] as u128, aw) as u128, w) as u64).unwrap(),
            N::Bin(op @ (Bop::Add | Bop::Sub), x, y) if w <= 64 && aw > 1 => {
                let (p, q) = (self.siv(x), self.siv(y));
                let lim = 1i128 << (aw - 1);
                let (l, h) = if op == Bop::Add { (p.0 + q.0, p.1 + q.1) } else { (p.0 - q.1, p.1 - q.0) };
                if l >= -lim && h < lim {
                    let (ex, ey) = (self.sext(x, w), self.sext(y, w));
                    return self.bin(op, ex, ey);
                }
                self.intern(N::Sext(a), w)
            }
            _ => self.intern(N::Sext(a), w),
        }
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        let key = (129, a, lo, w);
        if let Some(r) = self.cache.get(&key) {
            return *r;
        }
        let r = match self.node(a).clone() {
            N::Const(c) => self.konst(c >> lo, w),
            N::Tab(..) => self.tab_op(N::Extract(a, lo), &[a], w, usize::MAX, &|v| mask(v[0] as u128 >> lo, w) as u64).unwrap(),
            N::Bits(b) => self.mk_bits(b[lo as usize..(lo + w) as usize].to_vec()),
            N::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.konst(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let e = self.extract(x, lo, xw - lo);
                    self.zext(e, w)
                }
            }
            N::Sext(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            N::Extract(x, l2) => self.extract(x, lo + l2, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    self.extract(l, lo, w)
                } else if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else {
                    let b = self.extract(l, lo, lw - lo);
                    let t = self.extract(h, 0, lo + w - lw);
                    self.concat(t, b)
                }
            }
            N::Ite(c, x, y) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.ite(c, ex, ey)
            }
            N::Bin(op, x, y) if matches!(op, Bop::And | Bop::Or | Bop::Xor) => {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.bin(op, ex, ey)
            }
            N::Bin(op, x, y) if lo == 0 && matches!(op, Bop::Add | Bop::Sub | Bop::Mul) => {
                let ex = self.extract(x, 0, w);
                let ey = self.extract(y, 0, w);
                self.bin(op, ex, ey)
            }
            _ => self.intern(N::Extract(a, lo), w),
        };
        self.cache.insert(key, r);
        r
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.konst(x << lw | y, w);
        }
        let key = (130, h, l, 0);
        if let Some(r) = self.cache.get(&key) {
            return *r;
        }
        let mut r = None;
        if w <= 64 {
            r = self.tab_op(N::Concat(h, l), &[h, l], w, BITS_TAB_MAX, &|v| v[0] << lw | v[1]);
        }
        if r.is_none() && self.as_const(h) == Some(0) {
            r = Some(self.zext(l, w));
        }
        if r.is_none() {
            // adjacent pieces
            let hp = match self.node(h) {
                N::Extract(x, lo) => Some((*x, *lo)),
                _ => None,
            };
            let lp = match self.node(l) {
                N::Extract(x, lo) => Some((*x, *lo)),
                _ => Some((l, 0)),
            };
            if let (Some((x, hl)), Some((y, ll))) = (hp, lp) {
                if x == y && hl == ll + lw {
                    r = Some(self.extract(x, ll, w));
                }
            }
        }
        if r.is_none() && self.bitsy(h) && self.bitsy(l) {
            let mut v = self.bits_of(l);
            let b = self.bits_of(h);
            v.extend(b);
            r = Some(self.mk_bits(v));
        }
        let r = match r {
            Some(r) => r,
            None => self.intern(N::Concat(h, l), w),
        };
        self.cache.insert(key, r);
        r
    }
    /// Adjust to width w: zero extension, or the low bits.
    pub fn zext_to(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw < w {
            self.zext(a, w)
        } else {
            self.extract(a, 0, w)
        }
    }
    /// x <= m, kept as a literal even when the recorded interval of x implies it.
    pub fn raw_ule(&mut self, x: T, m: T) -> T {
        let c = self.intern(N::Cmp(Pred::Ult, m, x), 1);
        let one = self.konst(1, 1);
        self.intern(N::Bin(Bop::Xor, c, one), 1)
    }
    pub fn raw_ule_max(&mut self, x: T) -> T {
        let w = self.w(x);
        let m = self.konst(u128::MAX, w);
        self.raw_ule(x, m)
    }
    /// Overflow flag of a w-bit operation, tabulated when both operands are tables.
    pub fn overflow_tab(&mut self, unsigned: bool, op: Bop, x: T, y: T, w: u32) -> Option<T> {
        if w > 64 || !self.is_tabby(x) || !self.is_tabby(y) {
            return None;
        }
        let cap = self.tab_cap;
        // recorded as "no template": the flag is defined by exact integer arithmetic
        let rec = self.record;
        self.record = false;
        let r = self.tab_op(N::Bin(op, x, y), &[x, y], 1, cap, &|v| {
            let (a, b) = if unsigned { (v[0] as i128, v[1] as i128) } else { (sx(v[0] as u128, w), sx(v[1] as u128, w)) };
            let r = match op {
                Bop::Add => a + b,
                Bop::Sub => a - b,
                _ => a * b,
            };
            let ok = if unsigned { r >= 0 && r as u128 <= mask(u128::MAX, w) } else { r >= -(1i128 << (w - 1)) && r < 1i128 << (w - 1) };
            !ok as u64
        });
        self.record = rec;
        r
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T {
        self.extract(a, 0, w)
    }

    pub fn children(&self, t: T, f: &mut dyn FnMut(T)) {
        match self.node(t) {
            N::Const(_) | N::Var(_) | N::Tab(..) => {}
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => {
                f(*a);
                f(*b)
            }
            N::Ite(a, b, c) => {
                f(*a);
                f(*b);
                f(*c)
            }
            N::Zext(a) | N::Sext(a) | N::Extract(a, _) => f(*a),
            N::Bits(v) => {
                for x in v.iter() {
                    f(*x)
                }
            }
        }
    }
    /// Variables in the cone of the given terms (deduplicated, sorted).
    pub fn support(&self, ts: &[T]) -> Vec<u32> {
        let mut seen: FxSet<T> = Default::default();
        let mut st: Vec<T> = ts.to_vec();
        let mut vs: FxSet<u32> = Default::default();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            match self.node(t) {
                N::Var(v) => {
                    vs.insert(*v);
                }
                N::Tab(v, _) => vs.extend(v.iter()),
                _ => self.children(t, &mut |c| st.push(c)),
            }
        }
        let mut v: Vec<u32> = vs.into_iter().collect();
        v.sort();
        v
    }
    pub fn support1(&mut self, t: T) -> Rc<[u32]> {
        if let Some(s) = self.sup.get(&t) {
            return s.clone();
        }
        let s: Rc<[u32]> = Rc::from(self.support(&[t]));
        self.sup.insert(t, s.clone());
        s
    }
    /// Evaluate under a model (missing variables take their lowest value).
    pub fn eval(&self, t: T, m: &FxMap<u32, u128>, cache: &mut FxMap<T, u128>) -> u128 {
        if let N::Const(c) = self.node(t) {
            return *c;
        }
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if cache.contains_key(&x) {
                continue;
            }
            if !done {
                st.push((x, true));
                self.children(x, &mut |c| {
                    if !cache.contains_key(&c) {
                        st.push((c, false))
                    }
                });
                continue;
            }
            let w = self.w(x);
            let g = |t: &T| cache[t];
            let v = match self.node(x) {
                N::Const(c) => *c,
                N::Var(v) => *m.get(v).unwrap_or(&self.iv(x).0),
                N::Tab(vs, vals) => {
                    let mut i = 0usize;
                    for v in vs.iter() {
                        let vi = &self.vars[*v as usize];
                        let lo = mask(vi.lo as u128, vi.w);
                        let d = m.get(v).map_or(0, |x| mask(x.wrapping_sub(lo), vi.w) as usize);
                        i = i * vi.n as usize + d.min(vi.n as usize - 1);
                    }
                    vals[i] as u128
                }
                N::Bin(op, a, b) => ev_bin(*op, w, g(a), g(b)),
                N::Cmp(p, a, b) => ev_cmp(*p, self.w(*a), g(a), g(b)) as u128,
                N::Ite(c, a, b) => {
                    if g(c) == 1 {
                        g(a)
                    } else {
                        g(b)
                    }
                }
                N::Zext(a) => g(a),
                N::Sext(a) => mask(sx(g(a), self.w(*a)) as u128, w),
                N::Extract(a, lo) => mask(g(a) >> lo, w),
                N::Concat(a, b) => g(a) << self.w(*b) | g(b),
                N::Bits(v) => v.iter().enumerate().fold(0, |s, (i, x)| s | g(x) << i),
            };
            cache.insert(x, v);
        }
        cache[&t]
    }
    pub fn show(&self, t: T, depth: usize) -> String {
        if depth == 0 {
            return format!("t{}", t);
        }
        match self.node(t) {
            N::Const(c) => format!("{}:{}", c, self.w(t)),
            N::Var(v) => format!("v{}", v),
            N::Tab(v, x) => format!("tab{:?}{:?}", v, if x.len() > 9 { &x[..9] } else { &x[..] }),
            N::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(*a, depth - 1), self.show(*b, depth - 1)),
            N::Cmp(op, a, b) => format!("({:?} {} {})", op, self.show(*a, depth - 1), self.show(*b, depth - 1)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, depth - 1), self.show(*a, depth - 1), self.show(*b, depth - 1)),
            N::Zext(a) => format!("(zext{} {})", self.w(t), self.show(*a, depth - 1)),
            N::Sext(a) => format!("(sext{} {})", self.w(t), self.show(*a, depth - 1)),
            N::Extract(a, lo) => format!("{}[{}+{}]", self.show(*a, depth - 1), lo, self.w(t)),
            N::Concat(a, b) => format!("({} . {})", self.show(*a, depth - 1), self.show(*b, depth - 1)),
            N::Bits(v) => format!("bits[{}]", v.iter().map(|x| self.show(*x, depth - 1)).collect::<Vec<_>>().join(",")),
        }
    }
}
