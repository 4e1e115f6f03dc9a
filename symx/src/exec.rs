//! Symbolic interpreter.
use crate::ll::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    T(T),
    A(Rc<Vec<V>>),
    U,
}

pub struct CFunc {
    pub f: Func,
    pub consts: Vec<V>,
    pub intercept: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Nop,
    Bcmp,
    Memcmp,
    Panic,
    Unknown,
    SxTrits,
    SxRange,
    SxInt,
    SxChoose,
    SxAssume,
    SxAssert,
    SxAssertEq,
    SxCover,
    SxUf,
    SxMode,
    SxConcrete,
    SxEq,
    SxDump,
    SxProbe,
    SxFeasible,
    SxSnapshot,
    SxParam,
    /// RawVec<T>::grow_one instantiated inside liballoc (element size)
    GrowOne(u64),
    /// the random keys of std's HashMap: fixed values (they only place entries in the table)
    MapKeys,
}

pub struct Prog {
    pub funcs: Vec<Rc<CFunc>>,
    pub byname: HashMap<String, u32>,
    pub exts: Vec<(String, Ext)>,
    pub base_mem: Mem,
    /// Globals whose initialiser is outside the encoded subset; touching one stops the run.
    pub poison: std::collections::HashSet<u64>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub ip: u32,
    pub prev: u32,
    pub ret: u32,
    pub sbase: u32,
    pub regs: Vec<V>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub dom: Rc<FxMap<u32, [u64; 4]>>,
    pub pc: Rc<Vec<T>>,
    pub known: Rc<FxMap<T, u64>>,
    pub ent: Rc<FxSet<u32>>,
    pub inputs: Rc<Vec<T>>,
    pub cver: u64,
    pub modes: [u64; 16],
    pub forks: u32,
    pub snaps: Rc<Vec<Vec<T>>>,
}

pub enum Out {
    Stop,
    Done,
    Dead,
    Fork(Vec<(T, u32)>),
    Values(T),
    Viol,
    Err(String),
}

pub enum E {
    Values(T),
    Viol(String, String),
    Err(String),
    Dead,
    ForkBr(Vec<(T, u32)>),
}
type X<A> = Result<A, E>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u128>,
    pub trace: Vec<String>,
    pub uf: bool,
}

pub struct App {
    pub fid: u64,
    pub args: Vec<T>,
    pub outs: Vec<T>,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub instrs: u64,
    pub forks: u64,
    pub merges: u64,
    pub quick_merges: u64,
    pub merge_fail: u64,
    pub asserts: u64,
    pub asserts_simpl: u64,
    pub asserts_smt: u64,
    pub apps: u64,
    pub axioms: u64,
}

pub const M_UF: usize = 0; // 0: real permutation, 1: uninterpreted, 2: uninterpreted unless input fully concrete
pub const M_MERGE: usize = 1; // 0 off, 1 on
pub const M_CF: usize = 2; // collision-free axioms
pub const M_MAXALLOC: usize = 3;
pub const M_PANIC_OK: usize = 4;
pub const M_CASE: usize = 6; // split merges over every value of a small selector
pub const M_IDEAL: usize = 5; // ideal one-time signatures / KEM

#[derive(Default, Clone)]
pub struct Probe {
    pub size: usize,
    /// Per cell and trit value (1,2): list of (byte, mask)
    pub pat: Vec<[Vec<(usize, u8)>; 3]>,
    pub ok: bool,
}

pub struct Engine {
    pub prog: Rc<Prog>,
    pub s: Store,
    pub smt: Smt,
    pub work: Vec<State>,
    pub stats: Stats,
    pub apps: Vec<App>,
    pub appmap: HashMap<(u64, Vec<T>), u32>,
    pub covers: BTreeMap<u64, u64>,
    pub violation: Option<Violation>,
    pub executed: Vec<bool>,
    pub merge_bad: FxMap<(u32, u32), u32>,
    pub max_instr: u64,
    pub max_paths: u64,
    pub deadline: Instant,
    pub probe: Probe,
    pub probe_raw: FxMap<(u64, u64), Vec<u8>>,
    pub fork_sites: HashMap<String, u64>,
    pub trace: bool,
    pub cf_done: FxSet<(u32, u32)>,
    pub merge_steps: u64,
    pub dump: Vec<String>,
    pub max_values: usize,
    pub digest: u64,
    pub violmsgs: HashMap<u64, String>,
    pub sampled: Vec<Vec<u128>>,
    pub ideal: crate::ideal::Ideal,
    pub params: Vec<u64>,
}

fn c64(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
#[inline]
fn s64(v: u64, w: u32) -> i64 {
    let s = 64 - w.min(64);
    ((v << s) as i64) >> s
}

fn bin64(op: Bop, w: u32, a: u64, b: u64) -> u64 {
    let r = match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
        Bop::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Bop::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Bop::UDiv if b != 0 => a / b,
        Bop::URem if b != 0 => a % b,
        _ => return ev_bin(op, w, a as u128, b as u128) as u64,
    };
    c64(r, w)
}
fn cmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => s64(a, w) < s64(b, w),
        Pred::Sle => s64(a, w) <= s64(b, w),
        Pred::Sgt => s64(a, w) > s64(b, w),
        Pred::Sge => s64(a, w) >= s64(b, w),
    }
}

impl Engine {
    pub fn new(prog: Rc<Prog>, solver: &str) -> Engine {
        let n = prog.funcs.len();
        Engine {
            prog,
            s: Store::new(),
            smt: Smt::new(solver),
            work: vec![],
            stats: Default::default(),
            apps: vec![],
            appmap: Default::default(),
            covers: Default::default(),
            violation: None,
            executed: vec![false; n],
            merge_bad: Default::default(),
            max_instr: u64::MAX,
            max_paths: u64::MAX,
            deadline: Instant::now() + std::time::Duration::from_secs(100_000),
            probe: Default::default(),
            probe_raw: Default::default(),
            fork_sites: Default::default(),
            trace: false,
            cf_done: Default::default(),
            merge_steps: 200_000,
            dump: vec![],
            max_values: 512,
            digest: 0xcbf29ce484222325,
            violmsgs: Default::default(),
            sampled: vec![],
            ideal: Default::default(),
            params: vec![],
        }
    }

    pub fn initial(&self, fname: &str) -> Result<State, String> {
        let fi = *self.prog.byname.get(fname).ok_or(format!("no function {}", fname))?;
        let mut st = State {
            frames: vec![],
            mem: self.prog.base_mem.clone(),
            dom: Default::default(),
            pc: Default::default(),
            known: Default::default(),
            ent: Default::default(),
            inputs: Default::default(),
            cver: 0,
            modes: [0; 16],
            forks: 0,
            snaps: Default::default(),
        };
        st.modes[M_MERGE] = 1;
        st.modes[M_MAXALLOC] = MAX_OBJ;
        let nr = self.prog.funcs[fi as usize].f.nregs;
        st.frames.push(Frame { f: fi, blk: 0, ip: 0, prev: 0, ret: u32::MAX, sbase: 0, regs: vec![V::U; nr] });
        Ok(st)
    }

    // ------------------------------------------------------- value helpers
    pub fn norm(&self, t: T) -> V {
        if self.s.w(t) <= 64 {
            if let Some(c) = self.s.as_const(t) {
                return V::C(c as u64);
            }
        }
        V::T(t)
    }
    pub fn term(&mut self, v: &V, w: u32) -> T {
        match v {
            V::C(c) => self.s.konst(*c as u128, w),
            V::T(t) => *t,
            V::U => self.s.konst(0, w),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    /// Simplify a term under the path's domain restrictions and known equalities.
    pub fn resolve(&mut self, st: &State, v: V) -> V {
        let t = match v {
            V::T(t) => t,
            v => return v,
        };
        if let Some(k) = st.known.get(&t) {
            return V::C(*k);
        }
        if !st.dom.is_empty() {
            if let N::Tab(vars, _) = self.s.node(t) {
                if vars.iter().any(|v| st.dom.contains_key(v)) {
                    let d = &st.dom;
                    let vals = self.s.tab_values(t, &|v| d.get(&v).cloned()).unwrap();
                    if vals.len() == 1 {
                        return V::C(vals[0]);
                    }
                }
            }
        }
        self.norm(t)
    }
    pub fn lits(&mut self, st: &State, seeds: &[T]) -> Vec<T> {
        // slice the path condition by shared variables
        let mut vars: FxSet<u32> = Default::default();
        let defs = self.s.def_lits(seeds);
        for t in seeds.iter().chain(defs.iter()) {
            let s = self.s.support1(*t);
            vars.extend(s.iter());
        }
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.s.support1(*p);
                if s.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    vars.extend(s.iter());
                    out.push(*p);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for v in vars {
            if let Some(d) = st.dom.get(&v) {
                let n = self.s.vars[v as usize].n as usize;
                let vals: Vec<u64> = (0..n).map(|i| d[i / 64] >> (i % 64) & 1).collect();
                let t = self.s.mk_tab(vec![v], vals, 1);
                out.push(t);
            }
        }
        out.extend_from_slice(seeds);
        out
    }
    pub fn all_lits(&mut self, st: &State) -> Vec<T> {
        let mut out = st.pc.to_vec();
        let mut vs: Vec<_> = st.dom.iter().map(|(a, b)| (*a, *b)).collect();
        vs.sort();
        for (v, d) in vs {
            let n = self.s.vars[v as usize].n as usize;
            let vals: Vec<u64> = (0..n).map(|i| d[i / 64] >> (i % 64) & 1).collect();
            let t = self.s.mk_tab(vec![v], vals, 1);
            out.push(t);
        }
        out
    }
    /// Solver query with lazily instantiated congruence (and collision-freeness) axioms.
    pub fn query(&mut self, lits: &[T], want_model: bool, cf: bool) -> Res {
        let mut lits = lits.to_vec();
        lits.extend(self.s.def_lits(&lits.clone()));
        let mut rounds = 0;
        loop {
            let need = want_model || !self.apps.is_empty();
            let r = self.smt.check(&self.s, &lits, need);
            if r != Res::Sat || self.apps.is_empty() {
                return r;
            }
            // applications in the cone
            let mut all: Vec<T> = lits.to_vec();
            all.extend(self.smt.axioms.iter());
            let mut apps: std::collections::BTreeSet<u32> = Default::default();
            let mut todo: Vec<u32> = vec![];
            for v in self.s.support(&all) {
                if let Some(a) = self.s.vars[v as usize].uf {
                    if apps.insert(a) {
                        todo.push(a);
                    }
                }
            }
            while let Some(a) = todo.pop() {
                let args = self.apps[a as usize].args.clone();
                for v in self.s.support(&args) {
                    if let Some(b) = self.s.vars[v as usize].uf {
                        if apps.insert(b) {
                            todo.push(b);
                        }
                    }
                }
            }
            if self.s.ndefs > 0 {
                // definitions behind the applications' arguments
                for a in &apps {
                    all.extend(self.apps[*a as usize].args.iter());
                }
                let d = self.s.def_lits(&all);
                let have: FxSet<T> = lits.iter().cloned().collect();
                let new: Vec<T> = d.into_iter().filter(|x| !have.contains(x)).collect();
                if !new.is_empty() {
                    lits.extend(new);
                    continue;
                }
            }
            let model = self.smt.model.clone();
            let mut cache: FxMap<T, u128> = Default::default();
            let ids: Vec<u32> = apps.into_iter().collect();
            let mut argv: Vec<Vec<u128>> = vec![];
            let mut outv: Vec<Vec<u128>> = vec![];
            for a in &ids {
                let app = &self.apps[*a as usize];
                argv.push(app.args.iter().map(|t| self.s.eval(*t, &model, &mut cache)).collect());
                outv.push(app.outs.iter().map(|t| self.s.eval(*t, &model, &mut cache)).collect());
            }
            let mut added = 0;
            let mut seen: HashMap<(u64, Vec<u128>), usize> = HashMap::new();
            for i in 0..ids.len() {
                let fid = self.apps[ids[i] as usize].fid;
                let k = (fid, argv[i].clone());
                if let Some(j) = seen.get(&k) {
                    if outv[*j] != outv[i] {
                        self.congruence(ids[*j], ids[i]);
                        added += 1;
                    }
                } else {
                    seen.insert(k, i);
                }
            }
            if cf {
                // ideal (collision-free) permutation: equal rate prefix or equal inner part of the
                // outputs implies equal inputs
                let mut w1: HashMap<Vec<u128>, usize> = HashMap::new();
                let mut w2: HashMap<Vec<u128>, usize> = HashMap::new();
                for i in 0..ids.len() {
                    if self.apps[ids[i] as usize].fid != 0 || outv[i].len() != 729 {
                        continue;
                    }
                    for (m, lo, hi, tag) in [(&mut w1, 0usize, 243usize, 0u32), (&mut w2, 486, 729, 1)] {
                        let k = outv[i][lo..hi].to_vec();
                        if let Some(j) = m.get(&k) {
                            if argv[*j] != argv[i] && self.cf_done.insert((ids[*j] * 2 + tag, ids[i])) {
                                let (a, b) = (ids[*j], ids[i]);
                                let oa = self.apps[a as usize].outs[lo..hi].to_vec();
                                let ob = self.apps[b as usize].outs[lo..hi].to_vec();
                                let oeq = self.all_eq(&oa, &ob);
                                let aa = self.apps[a as usize].args.clone();
                                let ab = self.apps[b as usize].args.clone();
                                let aeq = self.all_eq(&aa, &ab);
                                let no = self.s.not(oeq);
                                let ax = self.s.or(no, aeq);
                                self.smt.add_axiom(ax);
                                self.stats.axioms += 1;
                                added += 1;
                            }
                        } else {
                            m.insert(k, i);
                        }
                    }
                }
            }
            if added == 0 {
                return Res::Sat;
            }
            rounds += 1;
            if rounds > 400 {
                return Res::Unknown;
            }
        }
    }
    pub fn all_eq(&mut self, a: &[T], b: &[T]) -> T {
        let mut r = self.s.boolc(true);
        for (x, y) in a.iter().zip(b) {
            let e = self.s.eq(*x, *y);
            r = self.s.and(r, e);
        }
        r
    }
    fn congruence(&mut self, a: u32, b: u32) {
        let (aa, ab) = (self.apps[a as usize].args.clone(), self.apps[b as usize].args.clone());
        let (oa, ob) = (self.apps[a as usize].outs.clone(), self.apps[b as usize].outs.clone());
        let ae = self.all_eq(&aa, &ab);
        let oe = self.all_eq(&oa, &ob);
        let n = self.s.not(ae);
        let ax = self.s.or(n, oe);
        self.smt.add_axiom(ax);
        self.stats.axioms += 1;
    }
    /// (can be true, can be false)
    pub fn feas(&mut self, st: &State, c: T) -> X<(bool, bool)> {
        if let Some(k) = st.known.get(&c) {
            return Ok((*k == 1, *k == 0));
        }
        let mut split = None;
        if let N::Tab(vars, _) = self.s.node(c) {
            let d = &st.dom;
            let vars = vars.clone();
            let vals = self.s.tab_values(c, &|v| d.get(&v).cloned()).unwrap();
            if vals.len() == 1 {
                return Ok((vals[0] == 1, vals[0] == 0));
            }
            if vals.is_empty() {
                return Ok((false, false));
            }
            if vars.iter().all(|v| !st.ent.contains(v)) {
                split = Some((true, true));
            }
        }
        if let Some(r) = split {
            return Ok(r);
        }
        if let Some(v) = self.s.as_const(c) {
            return Ok((v == 1, v == 0));
        }
        // Without the congruence axioms: more may seem possible than is; what is claimed on such
        // a path is decided with them.
        let mut l = self.lits(st, &[c]);
        l.extend(self.s.def_lits(&l.clone()));
        let t0 = Instant::now();
        let a = self.smt.check(&self.s, &l, false);
        if std::env::var("SYMX_Q").is_ok() {
            eprintln!("query {:?} {:?} {:?}", t0.elapsed(), a, self.where_(st).first());
        }
        if a == Res::Unsat {
            return Ok((false, true));
        }
        let nc = self.s.not(c);
        let mut l = self.lits(st, &[nc]);
        l.extend(self.s.def_lits(&l.clone()));
        let b = self.smt.check(&self.s, &l, false);
        if b == Res::Unsat {
            return Ok((true, false));
        }
        if a == Res::Unknown || b == Res::Unknown {
            return Err(E::Err(format!("solver gave no answer on a branch condition ({:?})", self.smt.last_error)));
        }
        Ok((true, true))
    }
    /// Add `c == val` to the path. False if trivially infeasible.
    pub fn constrain(&mut self, st: &mut State, c: T, val: bool) -> bool {
        if let Some(k) = self.s.as_const(c) {
            return (k == 1) == val;
        }
        match self.s.node(c).clone() {
            N::Bin(Bop::Xor, a, b) if self.s.as_const(b) == Some(1) => return self.constrain(st, a, !val),
            N::Bin(Bop::And, a, b) if val => return self.constrain(st, a, true) && self.constrain(st, b, true),
            N::Bin(Bop::Or, a, b) if !val => return self.constrain(st, a, false) && self.constrain(st, b, false),
            _ => {}
        }
        st.cver += 1;
        Rc::make_mut(&mut st.known).insert(c, val as u64);
        for d in self.s.def_lits(&[c]) {
            if !st.pc.contains(&d) {
                Rc::make_mut(&mut st.pc).push(d);
                let s = self.s.support1(d);
                Rc::make_mut(&mut st.ent).extend(s.iter());
            }
        }
        if val {
            if let N::Cmp(Pred::Eq, x, y) = self.s.node(c).clone() {
                if let Some(k) = self.s.as_const(y) {
                    if self.s.w(y) <= 64 {
                        Rc::make_mut(&mut st.known).insert(x, k as u64);
                    }
                }
            }
        }
        let small = |s: &Store, vars: &[u32]| vars.iter().all(|v| s.vars[*v as usize].n <= 256);
        if let Some((vars, vals)) = match self.s.node(c).clone() {
            N::Tab(vars, vals) if small(&self.s, &vars) => Some((vars, vals)),
            _ => None,
        } {
            // project onto each variable
            let dims: Vec<usize> = vars.iter().map(|v| self.s.vars[*v as usize].n as usize).collect();
            let mut proj: Vec<[u64; 4]> = vec![[0; 4]; vars.len()];
            let cur: Vec<Option<[u64; 4]>> = vars.iter().map(|v| st.dom.get(v).cloned()).collect();
            let mut digs = vec![0usize; vars.len()];
            for (i, x) in vals.iter().enumerate() {
                if (*x == 1) != val {
                    continue;
                }
                let mut r = i;
                let mut ok = true;
                for k in (0..dims.len()).rev() {
                    let d = r % dims[k];
                    r /= dims[k];
                    digs[k] = d;
                    if let Some(a) = &cur[k] {
                        if a[d / 64] >> (d % 64) & 1 == 0 {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    for k in 0..dims.len() {
                        proj[k][digs[k] / 64] |= 1 << (digs[k] % 64);
                    }
                }
            }
            if proj.iter().any(|p| p.iter().all(|w| *w == 0)) && !vars.is_empty() {
                return false;
            }
            let dom = Rc::make_mut(&mut st.dom);
            let mut exact = true;
            for (k, v) in vars.iter().enumerate() {
                let cnt: u32 = proj[k].iter().map(|w| w.count_ones()).sum();
                if vars.len() > 1 && cnt > 1 {
                    exact = false;
                }
                if (cnt as usize) < dims[k] {
                    dom.insert(*v, proj[k]);
                }
            }
            if vars.len() == 1 {
                return true;
            }
            if exact {
                // every variable fixed: the domain says it all
                return true;
            }
            let t = if val { c } else { self.s.not(c) };
            Rc::make_mut(&mut st.pc).push(t);
            Rc::make_mut(&mut st.ent).extend(vars.iter());
            return true;
        }
        let t = if val { c } else { self.s.not(c) };
        Rc::make_mut(&mut st.pc).push(t);
        let s = self.s.support1(t);
        Rc::make_mut(&mut st.ent).extend(s.iter());
        true
    }
    /// All values a term can take on this path, at most `max`+1 of them.
    pub fn values(&mut self, st: &State, t: T, max: usize) -> X<Vec<u64>> {
        if let Some(k) = st.known.get(&t) {
            return Ok(vec![*k]);
        }
        let d = &st.dom;
        let mut cands = self.s.tab_values(t, &|v| d.get(&v).cloned());
        if let Some(c) = &cands {
            if c.len() <= 1 {
                return Ok(c.clone());
            }
            let s = self.s.support1(t);
            if s.iter().all(|v| !st.ent.contains(v)) {
                return Ok(c.clone());
            }
        }
        let cf = st.modes[M_CF] != 0;
        let w = self.s.w(t);
        if cands.is_none() {
            let (lo, hi) = self.s.iv(t);
            if hi - lo < max as u128 {
                cands = Some((lo as u64..=hi as u64).collect());
            }
        }
        if let Some(c) = cands.take() {
            let mut out = vec![];
            for x in c {
                let k = self.s.konst(x as u128, w);
                let e = self.s.eq(t, k);
                let l = self.lits(st, &[e]);
                match self.query(&l, false, cf) {
                    Res::Sat => out.push(x),
                    Res::Unsat => {}
                    Res::Unknown => return Err(E::Err("solver gave no answer (values)".into())),
                }
                if out.len() > max {
                    break;
                }
            }
            return Ok(out);
        }
        let mut out: Vec<u64> = vec![];
        let mut excl: Vec<T> = vec![];
        // a literal that keeps `t` in the cone of influence without constraining it
        let keep = self.s.raw_ule_max(t);
        loop {
            let mut seeds = vec![keep];
            seeds.extend(excl.iter());
            let l = self.lits(st, &seeds);
            match self.query(&l, true, cf) {
                Res::Unsat => break,
                Res::Unknown => return Err(E::Err("solver gave no answer (values)".into())),
                Res::Sat => {}
            }
            let m = self.smt.model.clone();
            let mut cache = Default::default();
            let v = self.s.eval(t, &m, &mut cache) as u64;
            if out.contains(&v) {
                return Err(E::Err("model does not change".into()));
            }
            out.push(v);
            if out.len() > max {
                break;
            }
            let k = self.s.konst(v as u128, w);
            let e = self.s.eq(t, k);
            let n = self.s.not(e);
            excl.push(n);
        }
        out.sort();
        Ok(out)
    }

    // ------------------------------------------------------- memory access
    fn oob(&self, st: &State, addr: u64, n: u64, what: &str) -> E {
        if addr >= FUNC_BASE || self.prog.poison.contains(&(addr & !(SLOT - 1))) {
            return E::Err(format!("{} at {:#x}: global outside the encoded subset", what, addr));
        }
        let d = match st.mem.get(addr) {
            Some((o, off)) => format!("{} of {} bytes at offset {} of a {}-byte object", what, n, off, o.size()),
            None => format!("{} of {} bytes at invalid or freed address {:#x}", what, n, addr),
        };
        E::Viol("memory".into(), d)
    }
    pub fn load_bytes(&mut self, st: &State, addr: u64, n: u64) -> X<V> {
        if n == 0 {
            return Ok(V::C(0));
        }
        let (o, off) = match st.mem.get(addr) {
            Some((o, off)) if off + n <= o.size() => (o.clone(), off as usize),
            _ => return Err(self.oob(st, addr, n, "read")),
        };
        let nn = n as usize;
        if o.sym.is_empty() || o.sym[off..off + nn].iter().all(|x| x.0 == 0) {
            if nn <= 8 {
                let mut b = [0u8; 8];
                b[..nn].copy_from_slice(&o.data[off..off + nn]);
                return Ok(V::C(u64::from_le_bytes(b)));
            }
            let mut b = [0u8; 16];
            b[..nn].copy_from_slice(&o.data[off..off + nn]);
            let t = self.s.konst(u128::from_le_bytes(b), n as u32 * 8);
            return Ok(V::T(t));
        }
        let first = o.sym[off];
        if first.0 != 0 && first.1 == 0 && self.s.w(first.0) == n as u32 * 8 && (0..nn).all(|i| o.sym[off + i] == (first.0, i as u8)) {
            if st.modes[M_CASE] != 0 && !st.dom.is_empty() {
                let t = self.project(st, first.0);
                return Ok(self.norm(t));
            }
            return Ok(V::T(first.0));
        }
        let mut acc = self.byte_term(&o, off);
        for i in 1..nn {
            let b = self.byte_term(&o, off + i);
            acc = self.s.concat(b, acc);
        }
        Ok(self.norm(acc))
    }
    pub fn byte_term(&mut self, o: &Obj, i: usize) -> T {
        let (t, k) = o.byte_sym(i);
        if t == 0 {
            self.s.konst(o.data[i] as u128, 8)
        } else {
            self.s.extract(t, 8 * k as u32, 8)
        }
    }
    pub fn store_bytes(&mut self, st: &mut State, addr: u64, n: u64, v: &V) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let nn = n as usize;
        let ok = matches!(st.mem.get(addr), Some((o, off)) if off + n <= o.size());
        if !ok {
            return Err(self.oob(st, addr, n, "write"));
        }
        let mut tv = None;
        if let V::T(t) = v {
            if let Some(c) = self.s.as_const(*t) {
                let (o, off) = st.mem.get_mut(addr).unwrap();
                if o.ro {
                    return Err(E::Viol("memory".into(), "write to constant".into()));
                }
                let off = off as usize;
                o.data[off..off + nn].copy_from_slice(&c.to_le_bytes()[..nn]);
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + nn] {
                        *x = (0, 0);
                    }
                }
                return Ok(());
            }
            tv = Some(self.s.zext_to(*t, n as u32 * 8));
        }
        let (o, off) = st.mem.get_mut(addr).unwrap();
        if o.ro {
            return Err(E::Viol("memory".into(), "write to constant".into()));
        }
        let off = off as usize;
        match (v, tv) {
            (V::C(c), _) => {
                let b = c.to_le_bytes();
                for i in 0..nn {
                    o.data[off + i] = if i < 8 { b[i] } else { 0 };
                }
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + nn] {
                        *x = (0, 0);
                    }
                }
            }
            (V::T(_), Some(t)) => {
                o.ensure_sym();
                for i in 0..nn {
                    o.sym[off + i] = (t, i as u8);
                    o.data[off + i] = 0;
                }
            }
            (V::U, _) => {
                for i in 0..nn {
                    o.data[off + i] = 0xA5;
                }
                if !o.sym.is_empty() {
                    for x in &mut o.sym[off..off + nn] {
                        *x = (0, 0);
                    }
                }
            }
            _ => return Err(E::Err("aggregate store".into())),
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &State, ty: &Ty, addr: u64) -> X<V> {
        match ty {
            Ty::Int(w) => {
                let n = (*w as u64 + 7) / 8;
                let v = self.load_bytes(st, addr, n)?;
                if w % 8 != 0 {
                    return Ok(match v {
                        V::C(c) => V::C(c64(c, *w)),
                        V::T(t) => {
                            let x = self.s.extract(t, 0, *w);
                            self.norm(x)
                        }
                        v => v,
                    });
                }
                Ok(v)
            }
            Ty::Ptr => self.load_bytes(st, addr, 8),
            Ty::Float(w) => self.load_bytes(st, addr, *w as u64 / 8),
            Ty::Vec(n, e) => {
                if let Ty::Int(1) = **e {
                    return Err(E::Err("load of <n x i1>".into()));
                }
                let es = e.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, e, addr + i * es)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let (offs, _) = ty.layout();
                let mut v = vec![];
                for (i, o) in offs.iter().enumerate() {
                    v.push(self.load_ty(st, ty.elem(i as u64), addr + o)?);
                }
                Ok(V::A(Rc::new(v)))
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &V) -> X<()> {
        match ty {
            Ty::Int(w) => self.store_bytes(st, addr, (*w as u64 + 7) / 8, v),
            Ty::Ptr => self.store_bytes(st, addr, 8, v),
            Ty::Float(w) => self.store_bytes(st, addr, *w as u64 / 8, v),
            _ => {
                if let V::A(vs) = v {
                    let (offs, _) = ty.layout();
                    for (i, o) in offs.iter().enumerate() {
                        self.store_ty(st, ty.elem(i as u64), addr + o, &vs[i])?;
                    }
                    Ok(())
                } else if let V::U = v {
                    let n = ty.size();
                    for i in 0..n {
                        self.store_bytes(st, addr + i, 1, &V::U)?;
                    }
                    Ok(())
                } else {
                    Err(E::Err("store of scalar as aggregate".into()))
                }
            }
        }
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let so = match st.mem.get(src) {
            Some((o, off)) if off + n <= o.size() => (o.clone(), off as usize),
            _ => return Err(self.oob(st, src, n, "copy read")),
        };
        let ok = matches!(st.mem.get(dst), Some((o, off)) if off + n <= o.size());
        if !ok {
            return Err(self.oob(st, dst, n, "copy write"));
        }
        let nn = n as usize;
        let (s, so) = (so.0, so.1);
        let (o, off) = st.mem.get_mut(dst).unwrap();
        let off = off as usize;
        o.data[off..off + nn].copy_from_slice(&s.data[so..so + nn]);
        if !s.sym.is_empty() {
            o.ensure_sym();
            o.sym[off..off + nn].copy_from_slice(&s.sym[so..so + nn]);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[off..off + nn] {
                *x = (0, 0);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------- top level
    pub fn where_(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| {
                let cf = &self.prog.funcs[f.f as usize];
                format!("{}:{}", crate::short_name(&cf.f.name), cf.f.blocks[f.blk as usize].name)
            })
            .collect()
    }
    pub fn report(&mut self, st: &State, kind: String, msg: String, extra: Option<T>) -> Out {
        let mut l = self.all_lits(st);
        if let Some(t) = extra {
            l.push(t);
        }
        match self.query(&l, true, st.modes[M_CF] != 0) {
            Res::Unsat => {
                self.stats.dead += 1;
                return Out::Dead;
            }
            Res::Unknown => return Out::Err(format!("solver gave no answer while confirming: {} {} ({:?})", kind, msg, self.smt.last_error)),
            Res::Sat => {}
        }
        let m = if l.iter().all(|t| self.s.as_const(*t).is_some()) && self.smt.axioms.is_empty() { Default::default() } else { self.smt.model.clone() };
        let mut cache = Default::default();
        let inputs: Vec<u128> = st.inputs.iter().map(|t| self.s.eval(*t, &m, &mut cache)).collect();
        self.violation = Some(Violation { kind, msg, inputs, trace: self.where_(st), uf: !self.apps.is_empty() });
        Out::Viol
    }
    pub fn explore(&mut self, st: State) -> Result<(), String> {
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let out = self.run(&mut st, None, u64::MAX);
            if self.violation.is_some() {
                return Ok(());
            }
            match out {
                Out::Done => {
                    self.stats.paths += 1;
                    if self.sampled.len() < 3 {
                        let l = self.all_lits(&st);
                        if self.smt.check(&self.s, &l, true) == Res::Sat {
                            let m = self.smt.model.clone();
                            let mut cache = Default::default();
                            let v = st.inputs.iter().take(64).map(|t| self.s.eval(*t, &m, &mut cache)).collect();
                            self.sampled.push(v);
                        }
                    }
                    if self.stats.paths > self.max_paths {
                        return Err(format!("path budget exceeded ({})", self.max_paths));
                    }
                }
                Out::Dead => {
                    if std::env::var("SYMX_DEAD").is_ok() {
                        eprintln!("dead at {:?}", self.where_(&st));
                    }
                    self.stats.dead += 1
                }
                Out::Stop => return Err("internal: stop at top level".into()),
                Out::Viol => return Ok(()),
                Out::Err(e) => return Err(format!("{} at {:?}", e, self.where_(&st))),
                Out::Fork(alts) => {
                    self.site(&st, alts.len());
                    for (c, b) in alts.iter().rev() {
                        let mut s2 = st.clone();
                        s2.forks += 1;
                        if self.constrain(&mut s2, *c, true) {
                            let from = s2.frames.last().unwrap().blk;
                            self.jump(&mut s2, from, *b, None);
                            self.work.push(s2);
                        }
                    }
                }
                Out::Values(t) => {
                    let vals = match self.values(&st, t, self.max_values) {
                        Ok(v) => v,
                        Err(E::Err(e)) => return Err(e),
                        Err(_) => return Err("values".into()),
                    };
                    if vals.len() > self.max_values {
                        return Err(format!("more than {} values for {} at {:?}", self.max_values, self.s.show(t, 3), self.where_(&st)));
                    }
                    self.site(&st, vals.len());
                    let w = self.s.w(t);
                    for v in vals.iter().rev() {
                        let mut s2 = st.clone();
                        s2.forks += 1;
                        let k = self.s.konst(*v as u128, w);
                        let e = self.s.eq(t, k);
                        if self.constrain(&mut s2, e, true) {
                            Rc::make_mut(&mut s2.known).insert(t, *v);
                            self.work.push(s2);
                        }
                    }
                }
            }
            if Instant::now() > self.deadline {
                return Err("time budget exceeded".into());
            }
        }
        Ok(())
    }
    fn site(&mut self, st: &State, n: usize) {
        self.stats.forks += n as u64 - 1.min(n as u64);
        let f = st.frames.last().unwrap();
        let cf = &self.prog.funcs[f.f as usize];
        let k = format!("{}:{}:{}", crate::short_name(&cf.f.name), cf.f.blocks[f.blk as usize].name, f.ip);
        *self.fork_sites.entry(k).or_insert(0) += 1;
    }

    /// Enter block `to`; true if this is the stop point (phis not evaluated then).
    fn jump(&mut self, st: &mut State, from: u32, to: u32, stop: Option<(usize, u32)>) -> bool {
        let depth = st.frames.len();
        let fr = st.frames.last_mut().unwrap();
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
        if let Some((d, b)) = stop {
            if d == depth && b == to {
                return true;
            }
        }
        let cf = &self.prog.funcs[fr.f as usize];
        let phis = &cf.f.blocks[to as usize].phis;
        if !phis.is_empty() {
            if phis.len() == 1 {
                let v = phi_val(cf, fr, &phis[0].1, from);
                fr.regs[phis[0].0 as usize] = v;
            } else {
                let vals: Vec<V> = phis.iter().map(|(_, inc)| phi_val(cf, fr, inc, from)).collect();
                for ((d, _), v) in phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        false
    }

    pub fn run(&mut self, st: &mut State, stop: Option<(usize, u32)>, budget: u64) -> Out {
        let prog = self.prog.clone();
        let limit = self.stats.instrs.saturating_add(budget);
        loop {
            if st.frames.is_empty() {
                return Out::Done;
            }
            if let Some((d, b)) = stop {
                if b == u32::MAX && st.frames.len() < d {
                    return Out::Stop;
                }
            }
            let fi = st.frames.last().unwrap().f;
            let cf = &prog.funcs[fi as usize];
            self.executed[fi as usize] = true;
            // run within this frame until call/return
            loop {
                self.stats.instrs += 1;
                if self.stats.instrs > limit {
                    return Out::Err("merge budget".into());
                }
                if self.stats.instrs & 0xfffff == 0 {
                    if Instant::now() > self.deadline {
                        return Out::Err("time budget exceeded".into());
                    }
                    if self.stats.instrs > self.max_instr {
                        return Out::Err("instruction budget exceeded".into());
                    }
                }
                let fr = st.frames.last_mut().unwrap();
                let ins = &cf.f.blocks[fr.blk as usize].ins[fr.ip as usize];
                match ins {
                    I::Bin(op, w, a, b, d) => {
                        let (x, y) = (ov(cf, fr, a), ov(cf, fr, b));
                        if let (V::C(x), V::C(y)) = (x, y) {
                            if *w <= 64 {
                                if matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) && *y == 0 {
                                    return self.report(st, "ub".into(), "division by zero".into(), None);
                                }
                                let r = bin64(*op, *w, *x, *y);
                                fr.regs[*d as usize] = V::C(r);
                                fr.ip += 1;
                                continue;
                            }
                        }
                        let (x, y) = (x.clone(), y.clone());
                        let (x, y) = (self.term(&x, *w), self.term(&y, *w));
                        if matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) && self.s.iv(y).0 == 0 {
                            let z = self.s.konst(0, *w);
                            let e = self.s.eq(y, z);
                            match self.feas(st, e) {
                                Ok((true, _)) => return self.report(st, "ub".into(), "division by zero".into(), Some(e)),
                                Ok(_) => {}
                                Err(E::Err(m)) => return Out::Err(m),
                                Err(_) => return Out::Err("div".into()),
                            }
                        }
                        let r = self.s.bin(*op, x, y);
                        let v = self.norm(r);
                        let fr = st.frames.last_mut().unwrap();
                        fr.regs[*d as usize] = v;
                        fr.ip += 1;
                    }
                    I::Cmp(p, w, a, b, d) => {
                        let (x, y) = (ov(cf, fr, a), ov(cf, fr, b));
                        if let (V::C(x), V::C(y)) = (x, y) {
                            if *w <= 64 {
                                let r = cmp64(*p, *w, *x, *y);
                                fr.regs[*d as usize] = V::C(r as u64);
                                fr.ip += 1;
                                continue;
                            }
                        }
                        let (x, y) = (x.clone(), y.clone());
                        let (x, y) = (self.term(&x, *w), self.term(&y, *w));
                        let r = self.s.cmp(*p, x, y);
                        let v = self.norm(r);
                        fr.regs[*d as usize] = v;
                        fr.ip += 1;
                    }
                    I::Cast(k, fw, tw, a, d) => {
                        let x = ov(cf, fr, a).clone();
                        let v = self.cast(*k, *fw, *tw, x);
                        fr.regs[*d as usize] = v;
                        fr.ip += 1;
                    }
                    I::Gep(base, off, idx, d) => {
                        let b = ov(cf, fr, base);
                        if let V::C(b) = b {
                            let mut acc = b.wrapping_add(*off as u64);
                            let mut all = true;
                            for (o, w, sc) in idx {
                                match ov(cf, fr, o) {
                                    V::C(i) => acc = acc.wrapping_add((s64(*i, *w) as u64).wrapping_mul(*sc)),
                                    _ => {
                                        all = false;
                                        break;
                                    }
                                }
                            }
                            if all {
                                fr.regs[*d as usize] = V::C(acc);
                                fr.ip += 1;
                                continue;
                            }
                        }
                        let b = b.clone();
                        let mut acc = self.term(&b, 64);
                        let k = self.s.konst(*off as i128 as u128, 64);
                        acc = self.s.bin(Bop::Add, acc, k);
                        for (o, w, sc) in idx {
                            let v = ov(cf, fr, o).clone();
                            let mut t = self.term(&v, *w);
                            if *w < 64 {
                                t = self.s.sext(t, 64);
                            }
                            let k = self.s.konst(*sc as u128, 64);
                            let m = self.s.bin(Bop::Mul, t, k);
                            acc = self.s.bin(Bop::Add, acc, m);
                        }
                        let v = self.norm(acc);
                        fr.regs[*d as usize] = v;
                        fr.ip += 1;
                    }
                    I::Load(ty, a, d) => {
                        let p = ov(cf, fr, a).clone();
                        let r = match p {
                            V::C(addr) => self.load_ty(st, ty, addr),
                            p => self.sym_load(st, ty, p),
                        };
                        match r {
                            Ok(v) => {
                                let fr = st.frames.last_mut().unwrap();
                                fr.regs[*d as usize] = v;
                                fr.ip += 1;
                            }
                            Err(e) => return self.fail(st, e),
                        }
                    }
                    I::Store(ty, v, a) => {
                        let p = ov(cf, fr, a).clone();
                        let v = ov(cf, fr, v).clone();
                        let r = match p {
                            V::C(addr) => self.store_ty(st, ty, addr, &v),
                            p => self.sym_store(st, ty, p, &v),
                        };
                        match r {
                            Ok(()) => st.frames.last_mut().unwrap().ip += 1,
                            Err(e) => return self.fail(st, e),
                        }
                    }
                    I::Select(c, a, b, d) => {
                        let cv = ov(cf, fr, c).clone();
                        let (x, y) = (ov(cf, fr, a).clone(), ov(cf, fr, b).clone());
                        match self.select(st, cv, x, y, &cf.f.regty[*d as usize]) {
                            Ok(v) => {
                                let fr = st.frames.last_mut().unwrap();
                                fr.regs[*d as usize] = v;
                                fr.ip += 1;
                            }
                            Err(e) => return self.fail(st, e),
                        }
                    }
                    I::Alloca(n, d) => {
                        let a = st.mem.alloca(Obj::new(*n, 0xA5));
                        let fr = st.frames.last_mut().unwrap();
                        fr.regs[*d as usize] = V::C(a);
                        fr.ip += 1;
                    }
                    I::Br(b) => {
                        let (from, b) = (fr.blk, *b);
                        if self.jump(st, from, b, stop) {
                            return Out::Stop;
                        }
                    }
                    I::CondBr(c, a, b) => {
                        let cv = ov(cf, fr, c).clone();
                        let (a, b) = (*a, *b);
                        let from = fr.blk;
                        let t = match cv {
                            V::C(x) => {
                                let to = if x & 1 == 1 { a } else { b };
                                if self.jump(st, from, to, stop) {
                                    return Out::Stop;
                                }
                                continue;
                            }
                            V::T(t) => t,
                            V::U => return self.report(st, "ub".into(), "branch on undefined value".into(), None),
                            _ => return Out::Err("bad condition".into()),
                        };
                        let (ct, cfalse) = match self.feas(st, t) {
                            Ok(r) => r,
                            Err(e) => return self.fail(st, e),
                        };
                        match (ct, cfalse) {
                            (false, false) => return Out::Dead,
                            (true, true) => {
                                if a == b {
                                    if self.jump(st, from, a, stop) {
                                        return Out::Stop;
                                    }
                                    continue;
                                }
                                let n = self.s.not(t);
                                let alts = vec![(t, a), (n, b)];
                                match self.branch(st, alts, stop) {
                                    Ok(true) => return Out::Stop,
                                    Ok(false) => break,
                                    Err(e) => return self.fail(st, e),
                                }
                            }
                            (x, _) => {
                                Rc::make_mut(&mut st.known).insert(t, x as u64);
                                let to = if x { a } else { b };
                                if self.jump(st, from, to, stop) {
                                    return Out::Stop;
                                }
                            }
                        }
                    }
                    I::Switch(v, w, cases, def) => {
                        let x = ov(cf, fr, v).clone();
                        let from = fr.blk;
                        let x = self.resolve(st, x);
                        match x {
                            V::C(k) => {
                                let to = cases.iter().find(|c| c.0 as u64 == k).map(|c| c.1).unwrap_or(*def);
                                if self.jump(st, from, to, stop) {
                                    return Out::Stop;
                                }
                            }
                            V::T(t) => {
                                let mut alts: Vec<(T, u32)> = vec![];
                                let mut rest = self.s.boolc(true);
                                for (k, b) in cases {
                                    let kt = self.s.konst(*k, *w);
                                    let e = self.s.eq(t, kt);
                                    let ne = self.s.not(e);
                                    rest = self.s.and(rest, ne);
                                    let f = match self.feas(st, e) {
                                        Ok(r) => r.0,
                                        Err(e) => return self.fail(st, e),
                                    };
                                    if !f {
                                        continue;
                                    }
                                    if let Some(x) = alts.iter_mut().find(|x| x.1 == *b) {
                                        x.0 = self.s.or(x.0, e);
                                    } else {
                                        alts.push((e, *b));
                                    }
                                }
                                let f = match self.feas(st, rest) {
                                    Ok(r) => r.0,
                                    Err(e) => return self.fail(st, e),
                                };
                                if f {
                                    if let Some(x) = alts.iter_mut().find(|x| x.1 == *def) {
                                        x.0 = self.s.or(x.0, rest);
                                    } else {
                                        alts.push((rest, *def));
                                    }
                                }
                                if alts.is_empty() {
                                    return Out::Dead;
                                }
                                if alts.len() == 1 {
                                    let b = alts[0].1;
                                    if self.jump(st, from, b, stop) {
                                        return Out::Stop;
                                    }
                                    continue;
                                }
                                match self.branch(st, alts, stop) {
                                    Ok(true) => return Out::Stop,
                                    Ok(false) => break,
                                    Err(e) => return self.fail(st, e),
                                }
                            }
                            _ => return self.report(st, "ub".into(), "switch on undefined value".into(), None),
                        }
                    }
                    I::Ret(v) => {
                        let r = v.as_ref().map(|o| ov(cf, fr, o).clone());
                        let sb = fr.sbase as usize;
                        let dst = fr.ret;
                        st.mem.stack.truncate(sb);
                        st.frames.pop();
                        if let Some(fr) = st.frames.last_mut() {
                            if dst != u32::MAX {
                                fr.regs[dst as usize] = r.unwrap_or(V::U);
                            }
                            fr.ip += 1;
                        }
                        break;
                    }
                    I::Unreachable => return self.report(st, "ub".into(), "unreachable code reached".into(), None),
                    I::Call(callee, args, d, _rt) => {
                        let vals: Vec<V> = args.iter().map(|a| ov(cf, fr, a).clone()).collect();
                        let d = *d;
                        let mut ext_ind = None;
                        let target = match callee {
                            Callee::Fn(i) => Some(*i),
                            Callee::Indirect(o) => {
                                let p = ov(cf, fr, o).clone();
                                match self.resolve(st, p) {
                                    V::C(a) if a >= FUNC_BASE && ((a - FUNC_BASE) >> 4) < prog.funcs.len() as u64 => Some(((a - FUNC_BASE) >> 4) as u32),
                                    V::C(a) if a >= EXT_BASE && ((a - EXT_BASE) >> 4) < prog.exts.len() as u64 => {
                                        ext_ind = Some(((a - EXT_BASE) >> 4) as u32);
                                        None
                                    }
                                    V::C(a) => return self.report(st, "memory".into(), format!("indirect call to {:#x}", a), None),
                                    V::T(t) => return self.fail(st, E::Values(t)),
                                    _ => return Out::Err("indirect call".into()),
                                }
                            }
                            _ => None,
                        };
                        if let Some(t) = target {
                            let tf = &prog.funcs[t as usize];
                            if tf.intercept != 0 {
                                match self.intercepted(st, tf.intercept, &vals) {
                                    Ok(Some(v)) => {
                                        self.executed[t as usize] |= false;
                                        let fr = st.frames.last_mut().unwrap();
                                        if d != u32::MAX {
                                            fr.regs[d as usize] = v;
                                        }
                                        fr.ip += 1;
                                        continue;
                                    }
                                    Ok(None) => {}
                                    Err(e) => return self.fail(st, e),
                                }
                            }
                            if st.frames.len() > 2000 {
                                return self.report(st, "stack".into(), "call depth over 2000".into(), None);
                            }
                            let mut regs = vec![V::U; tf.f.nregs];
                            for (i, v) in vals.into_iter().enumerate().take(tf.f.nparams) {
                                regs[i] = v;
                            }
                            let sb = st.mem.stack.len() as u32;
                            st.frames.push(Frame { f: t, blk: 0, ip: 0, prev: 0, ret: d, sbase: sb, regs });
                            break;
                        }
                        let r = match callee {
                            Callee::Intr(i, w) => self.intrinsic(st, *i, *w, &vals),
                            Callee::Ext(e) => {
                                let (name, k) = (&prog.exts[*e as usize].0, prog.exts[*e as usize].1);
                                self.external(st, k, name, &vals)
                            }
                            _ => match ext_ind {
                                Some(e) => {
                                    let (name, k) = (&prog.exts[e as usize].0, prog.exts[e as usize].1);
                                    self.external(st, k, name, &vals)
                                }
                                None => Err(E::Err("unresolved callee".into())),
                            },
                        };
                        match r {
                            Ok(v) => {
                                let fr = match st.frames.last_mut() {
                                    Some(f) => f,
                                    None => return Out::Done,
                                };
                                if d != u32::MAX {
                                    fr.regs[d as usize] = v;
                                }
                                fr.ip += 1;
                            }
                            Err(E::Dead) if st.frames.is_empty() => return Out::Done,
                            Err(e) => return self.fail(st, e),
                        }
                    }
                    other => {
                        let o = other.clone();
                        match self.misc(st, cf, &o) {
                            Ok(()) => st.frames.last_mut().unwrap().ip += 1,
                            Err(e) => return self.fail(st, e),
                        }
                    }
                }
            }
        }
    }
    fn fail(&mut self, st: &mut State, e: E) -> Out {
        match e {
            E::Values(t) => Out::Values(t),
            E::Viol(k, m) => {
                if k == "panic" && st.modes[M_PANIC_OK] != 0 {
                    return Out::Done;
                }
                self.report(st, k, m, None)
            }
            E::Err(m) => Out::Err(m),
            E::Dead => Out::Dead,
            E::ForkBr(a) => Out::Fork(a),
        }
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, x: V) -> V {
        match x {
            V::C(c) if tw <= 64 => V::C(match k {
                Cast::Sext => c64(s64(c, fw) as u64, tw),
                _ => c64(c, tw),
            }),
            V::C(c) => {
                let v = if k == Cast::Sext { s64(c, fw) as i128 as u128 } else { c as u128 };
                let t = self.s.konst(v, tw);
                V::T(t)
            }
            V::T(t) => {
                let r = if tw > fw {
                    if k == Cast::Sext {
                        self.s.sext(t, tw)
                    } else {
                        self.s.zext(t, tw)
                    }
                } else {
                    self.s.extract(t, 0, tw)
                };
                self.norm(r)
            }
            v => v,
        }
    }
    fn select(&mut self, st: &State, c: V, a: V, b: V, ty: &Ty) -> X<V> {
        match c {
            V::C(x) => Ok(if x & 1 == 1 { a } else { b }),
            V::T(t) => {
                if let V::C(x) = self.resolve(st, V::T(t)) {
                    return Ok(if x & 1 == 1 { a } else { b });
                }
                self.vite(t, &a, &b, ty)
            }
            V::A(cs) => {
                let (x, y) = match (&a, &b) {
                    (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                    _ => return Err(E::Err("vector select".into())),
                };
                let et = ty.elem(0).clone();
                let mut v = vec![];
                for i in 0..cs.len() {
                    v.push(self.select(st, cs[i].clone(), x[i].clone(), y[i].clone(), &et)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            V::U => Ok(a),
        }
    }
    fn vite(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> X<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.vite(c, &x[i], &y[i], ty.elem(i as u64))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            (V::C(x), V::C(y)) if x == y => Ok(a.clone()),
            (V::U, x) | (x, V::U) => Ok(x.clone()),
            _ => {
                let w = ty.width();
                if w == 0 {
                    return Err(E::Err("ite on non-scalar".into()));
                }
                let (x, y) = (self.term(a, w), self.term(b, w));
                let r = self.s.ite(c, x, y);
                Ok(self.norm(r))
            }
        }
    }
    fn sym_load(&mut self, st: &State, ty: &Ty, p: V) -> X<V> {
        let p = self.resolve(st, p);
        let t = match p {
            V::C(a) => return self.load_ty(st, ty, a),
            V::T(t) => t,
            _ => return Err(E::Viol("ub".into(), "load through undefined pointer".into())),
        };
        if !ty.is_scalar() {
            return Err(E::Values(t));
        }
        let vals = self.values(st, t, 256)?;
        if vals.len() > 256 {
            // report out of bounds if possible, otherwise give up
            return Err(E::Err(format!("symbolic load address with more than 256 values: {}", self.s.show(t, 3))));
        }
        // all in bounds?
        let n = ty.size();
        for a in &vals {
            let ok = matches!(st.mem.get(*a), Some((o, off)) if off + n <= o.size());
            if !ok {
                return Err(E::Values(t));
            }
        }
        let w = ty.width();
        let mut acc: Option<T> = None;
        for a in vals.iter().rev() {
            let v = self.load_ty(st, ty, *a)?;
            let v = self.term(&v, w);
            acc = Some(match acc {
                None => v,
                Some(r) => {
                    let k = self.s.konst(*a as u128, 64);
                    let e = self.s.eq(t, k);
                    self.s.ite(e, v, r)
                }
            });
        }
        Ok(self.norm(acc.ok_or(E::Dead)?))
    }
    fn sym_store(&mut self, st: &mut State, ty: &Ty, p: V, v: &V) -> X<()> {
        let p = self.resolve(st, p);
        let t = match p {
            V::C(a) => return self.store_ty(st, ty, a, v),
            V::T(t) => t,
            _ => return Err(E::Viol("ub".into(), "store through undefined pointer".into())),
        };
        if !ty.is_scalar() {
            return Err(E::Values(t));
        }
        let vals = self.values(st, t, 64)?;
        if vals.len() > 64 {
            return Err(E::Values(t));
        }
        let n = ty.size();
        for a in &vals {
            let ok = matches!(st.mem.get(*a), Some((o, off)) if off + n <= o.size());
            if !ok {
                return Err(E::Values(t));
            }
        }
        let w = ty.width();
        let vt = self.term(v, w);
        for a in &vals {
            let old = self.load_ty(st, ty, *a)?;
            let old = self.term(&old, w);
            let k = self.s.konst(*a as u128, 64);
            let e = self.s.eq(t, k);
            let r = self.s.ite(e, vt, old);
            let nv = self.norm(r);
            self.store_ty(st, ty, *a, &nv)?;
        }
        Ok(())
    }

    // ------------------------------------------------------- merging
    /// Branch over alternatives: Ok(true) if the stop point was reached by merging.
    fn branch(&mut self, st: &mut State, alts: Vec<(T, u32)>, stop: Option<(usize, u32)>) -> X<bool> {
        if st.modes[M_MERGE] == 0 {
            return Err(E::ForkBr(alts));
        }
        let (f, blk) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.blk)
        };
        let bad = self.merge_bad.get(&(f, blk)).cloned().unwrap_or(0);
        if bad >= 3 {
            return Err(E::ForkBr(alts));
        }
        let prog = self.prog.clone();
        let cf = &prog.funcs[f as usize];
        let mut alts = alts;
        let mut case = false;
        if st.modes[M_CASE] != 0 {
            if let Some(a) = self.cases(st, &alts) {
                alts = a;
                case = true;
            }
        }
        let j = match cf.f.blocks[blk as usize].ipdom {
            Some(j) => j,
            None => {
                // merge at function return
                u32::MAX
            }
        };
        if !case && j != u32::MAX && self.quick(st, cf, &alts, j)? {
            self.stats.quick_merges += 1;
            // state is at J with phis evaluated (prev = MAX marks that for an enclosing merge)
            let depth = st.frames.len();
            return Ok(stop == Some((depth, j)));
        }
        match self.try_merge(st, cf, &alts, j) {
            Some(Ok(phis)) => {
                self.stats.merges += 1;
                if j == u32::MAX {
                    return Ok(match stop {
                        Some((d, u32::MAX)) => st.frames.len() < d,
                        _ => false,
                    });
                }
                let depth = st.frames.len();
                let fr = st.frames.last_mut().unwrap();
                fr.blk = j;
                fr.ip = 0;
                for (d, v) in phis {
                    fr.regs[d as usize] = v;
                }
                if stop == Some((depth, j)) {
                    // nested stop at the same join: phis already evaluated; use a marker
                    fr.prev = u32::MAX;
                    return Ok(true);
                }
                Ok(false)
            }
            Some(Err(e)) => Err(e),
            None => {
                self.stats.merge_fail += 1;
                *self.merge_bad.entry((f, blk)).or_insert(0) += 1;
                Err(E::ForkBr(alts))
            }
        }
    }
    /// One alternative per joint value of the variables the alternatives depend on.
    fn cases(&mut self, st: &State, alts: &[(T, u32)]) -> Option<Vec<(T, u32)>> {
        let vars = match self.s.node(alts[0].0) {
            N::Tab(v, _) => v.clone(),
            _ => return None,
        };
        for (c, _) in alts {
            match self.s.node(*c) {
                N::Tab(v, _) if *v == vars => {}
                _ => return None,
            }
        }
        let dims: Vec<usize> = vars.iter().map(|v| self.s.vars[*v as usize].n as usize).collect();
        let total = dims.iter().try_fold(1usize, |a, d| a.checked_mul(*d).filter(|x| *x <= 1024))?;
        let mut out = vec![];
        for i in 0..total {
            let mut r = i;
            let mut ok = true;
            for k in (0..dims.len()).rev() {
                let d = r % dims[k];
                r /= dims[k];
                if let Some(a) = st.dom.get(&vars[k]) {
                    ok &= a[d / 64] >> (d % 64) & 1 == 1;
                }
            }
            if !ok {
                continue;
            }
            let hit = alts.iter().find(|(c, _)| matches!(self.s.node(*c), N::Tab(_, x) if x[i] == 1))?.1;
            let mut ind = vec![0u64; total];
            ind[i] = 1;
            out.push((self.s.mk_tab(vars.to_vec(), ind, 1), hit));
        }
        if out.len() <= 9 || out.len() > 128 {
            return None;
        }
        Some(out)
    }
    /// The same term where every variable with one value left on this path has that value.
    fn project(&mut self, st: &State, t: T) -> T {
        match self.s.node(t).clone() {
            N::Tab(vars, vals) => {
                let one = |v: &u32| -> Option<usize> {
                    let a = st.dom.get(v)?;
                    let n: u32 = a.iter().map(|w| w.count_ones()).sum();
                    if n == 1 {
                        let k = a.iter().position(|w| *w != 0).unwrap();
                        Some(64 * k + a[k].trailing_zeros() as usize)
                    } else {
                        None
                    }
                };
                let fix: Vec<Option<usize>> = vars.iter().map(one).collect();
                if fix.iter().all(|f| f.is_none()) {
                    return t;
                }
                let dims: Vec<usize> = vars.iter().map(|v| self.s.vars[*v as usize].n as usize).collect();
                let mut out = vec![];
                for (i, x) in vals.iter().enumerate() {
                    let mut r = i;
                    let mut ok = true;
                    for k in (0..dims.len()).rev() {
                        let d = r % dims[k];
                        r /= dims[k];
                        ok &= fix[k].map_or(true, |f| f == d);
                    }
                    if ok {
                        out.push(*x);
                    }
                }
                let rest: Vec<u32> = vars.iter().zip(&fix).filter(|x| x.1.is_none()).map(|x| *x.0).collect();
                let w = self.s.w(t);
                self.s.mk_tab(rest, out, w)
            }
            N::Ite(c, a, b) => {
                let k = self.project(st, c);
                match self.s.as_const(k) {
                    Some(1) => self.project(st, a),
                    Some(_) => self.project(st, b),
                    None => t,
                }
            }
            _ => t,
        }
    }
    /// If-conversion of small side blocks with no calls.
    fn quick(&mut self, st: &mut State, cf: &Rc<CFunc>, alts: &[(T, u32)], j: u32) -> X<bool> {
        let blk = st.frames.last().unwrap().blk;
        let mut total = 0;
        for (_, b) in alts {
            if *b == j {
                continue;
            }
            let bb = &cf.f.blocks[*b as usize];
            if !matches!(bb.ins.last(), Some(I::Br(t)) if *t == j) || !bb.phis.is_empty() && bb.phis.len() > 0 && false {
                return Ok(false);
            }
            for i in &bb.ins {
                match i {
                    I::Bin(op, ..) if matches!(op, Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem) => return Ok(false),
                    I::Bin(..) | I::Cmp(..) | I::Cast(..) | I::Gep(..) | I::Load(..) | I::Store(..) | I::Br(_) | I::Select(..) => {}
                    _ => return Ok(false),
                }
                total += 1;
            }
        }
        if total > 60 {
            return Ok(false);
        }
        let mut phiv: Vec<Vec<V>> = vec![];
        let mut stores: Vec<(T, u64, Rc<Ty>, V)> = vec![];
        for (c, b) in alts {
            let mut fr = st.frames.last().unwrap().clone();
            let mut prev = blk;
            if *b != j {
                prev = *b;
                let bb = &cf.f.blocks[*b as usize];
                let vals: Vec<V> = bb.phis.iter().map(|(_, inc)| phi_val(cf, &fr, inc, blk)).collect();
                for ((d, _), v) in bb.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
                let mut mine: Vec<(u64, u64)> = vec![];
                for i in &bb.ins {
                    match i {
                        I::Bin(op, w, a, b, d) => {
                            let (x, y) = (ov(cf, &fr, a).clone(), ov(cf, &fr, b).clone());
                            let (x, y) = (self.term(&x, *w), self.term(&y, *w));
                            let r = self.s.bin(*op, x, y);
                            fr.regs[*d as usize] = self.norm(r);
                        }
                        I::Cmp(p, w, a, b, d) => {
                            let (x, y) = (ov(cf, &fr, a).clone(), ov(cf, &fr, b).clone());
                            let (x, y) = (self.term(&x, *w), self.term(&y, *w));
                            let r = self.s.cmp(*p, x, y);
                            fr.regs[*d as usize] = self.norm(r);
                        }
                        I::Cast(k, fw, tw, a, d) => {
                            let x = ov(cf, &fr, a).clone();
                            fr.regs[*d as usize] = self.cast(*k, *fw, *tw, x);
                        }
                        I::Select(c, a, b, d) => {
                            let (c, a, b) = (ov(cf, &fr, c).clone(), ov(cf, &fr, a).clone(), ov(cf, &fr, b).clone());
                            fr.regs[*d as usize] = self.select(st, c, a, b, &cf.f.regty[*d as usize])?;
                        }
                        I::Gep(base, off, idx, d) => {
                            let mut acc = match ov(cf, &fr, base) {
                                V::C(b) => b.wrapping_add(*off as u64),
                                _ => return Ok(false),
                            };
                            for (o, w, sc) in idx {
                                match ov(cf, &fr, o) {
                                    V::C(i) => acc = acc.wrapping_add((s64(*i, *w) as u64).wrapping_mul(*sc)),
                                    _ => return Ok(false),
                                }
                            }
                            fr.regs[*d as usize] = V::C(acc);
                        }
                        I::Load(ty, a, d) => {
                            let addr = match ov(cf, &fr, a) {
                                V::C(a) => *a,
                                _ => return Ok(false),
                            };
                            let n = ty.size();
                            if !ty.is_scalar() || mine.iter().any(|(x, m)| addr < x + m && *x < addr + n) {
                                return Ok(false);
                            }
                            if !matches!(st.mem.get(addr), Some((o, off)) if off + n <= o.size()) {
                                return Ok(false);
                            }
                            fr.regs[*d as usize] = self.load_ty(st, ty, addr)?;
                        }
                        I::Store(ty, v, a) => {
                            let addr = match ov(cf, &fr, a) {
                                V::C(a) => *a,
                                _ => return Ok(false),
                            };
                            let n = ty.size();
                            if !ty.is_scalar() {
                                return Ok(false);
                            }
                            if !matches!(st.mem.get(addr), Some((o, off)) if off + n <= o.size() && !o.ro) {
                                return Ok(false);
                            }
                            if **ty == Ty::Ptr {
                                return Ok(false);
                            }
                            let v = ov(cf, &fr, v).clone();
                            mine.push((addr, n));
                            stores.push((*c, addr, ty.clone(), v));
                        }
                        I::Br(_) => {}
                        _ => unreachable!(),
                    }
                }
            }
            let pv: Vec<V> = cf.f.blocks[j as usize].phis.iter().map(|(_, inc)| phi_val(cf, &fr, inc, prev)).collect();
            phiv.push(pv);
        }
        // merge phis first: a refusal must leave the state untouched
        let mut merged = vec![];
        for (k, (d, _)) in cf.f.blocks[j as usize].phis.iter().enumerate() {
            let ty = &cf.f.regty[*d as usize];
            let mut acc = phiv[alts.len() - 1][k].clone();
            for i in (0..alts.len() - 1).rev() {
                if *ty == Ty::Ptr && !same_v(&phiv[i][k], &acc) {
                    return Ok(false);
                }
                acc = self.vite(alts[i].0, &phiv[i][k], &acc, ty)?;
            }
            merged.push((*d, acc));
        }
        for (c, addr, ty, v) in stores {
            let old = self.load_ty(st, &ty, addr)?;
            let nv = self.vite(c, &v, &old, &ty)?;
            self.store_ty(st, &ty, addr, &nv)?;
        }
        let fr = st.frames.last_mut().unwrap();
        fr.prev = u32::MAX;
        fr.blk = j;
        fr.ip = 0;
        for (d, v) in merged {
            fr.regs[d as usize] = v;
        }
        Ok(true)
    }
    /// Run every alternative to the join point and merge. None: not mergeable.
    fn mfail(&self, k: u32) {
        if std::env::var("SYMX_MERGE").is_ok() {
            eprintln!("merge failed: {}", k);
        }
    }
    fn try_merge(&mut self, st: &mut State, cf: &Rc<CFunc>, alts: &[(T, u32)], j: u32) -> Option<X<Vec<(u32, V)>>> {
        let depth = st.frames.len();
        let blk = st.frames.last().unwrap().blk;
        let stop = Some((depth, j));
        let mut subs: Vec<State> = vec![];
        for (c, b) in alts {
            let mut s = st.clone();
            if !self.constrain(&mut s, *c, true) {
                return { self.mfail(1); None };
            }
            let ver = s.cver;
            let out = if self.jump(&mut s, blk, *b, stop) { Out::Stop } else { self.run(&mut s, stop, if st.modes[M_CASE] != 0 { 50_000_000 } else { self.merge_steps }) };
            match out {
                Out::Stop => {}
                Out::Viol => return Some(Err(E::Dead)),
                _ => return None,
            }
            if s.cver != ver || s.inputs.len() != st.inputs.len() || s.modes != st.modes {
                return { self.mfail(2); None };
            }
            if s.mem.n != st.mem.n && !s.mem.forget(st.mem.n) {
                return { self.mfail(3); None };
            }
            if s.mem.live != subs.first().map_or(s.mem.live, |x| x.mem.live) {
                return { self.mfail(4); None };
            }
            subs.push(s);
        }
        // phis and live registers
        let fdepth = if j == u32::MAX { depth - 1 } else { depth };
        for s in &subs {
            if s.frames.len() != fdepth || s.mem.stack.len() != subs[0].mem.stack.len() {
                return { self.mfail(5); None };
            }
        }
        let mut phis: Vec<(u32, V)> = vec![];
        let n = subs.len();
        if fdepth == 0 {
            return { self.mfail(6); None };
        }
        let (lives, regty): (Vec<u32>, &Vec<Ty>);
        let callf;
        if j == u32::MAX {
            callf = self.prog.funcs[subs[0].frames[fdepth - 1].f as usize].clone();
            lives = (0..callf.f.nregs as u32).collect();
            regty = &callf.f.regty;
        } else {
            lives = cf.f.blocks[j as usize].live.clone();
            regty = &cf.f.regty;
            for (d, inc) in &cf.f.blocks[j as usize].phis {
                let ty = &regty[*d as usize];
                let get = |s: &State| {
                    let fr = s.frames.last().unwrap();
                    if fr.prev == u32::MAX {
                        fr.regs[*d as usize].clone()
                    } else {
                        phi_val(cf, fr, inc, fr.prev)
                    }
                };
                let mut acc = get(&subs[n - 1]);
                for i in (0..n - 1).rev() {
                    let v = get(&subs[i]);
                    if *ty == Ty::Ptr && !same_v(&v, &acc) {
                        return { self.mfail(7); None };
                    }
                    acc = match self.vite(alts[i].0, &v, &acc, ty) {
                        Ok(v) => v,
                        Err(_) => return None,
                    };
                }
                phis.push((*d, acc));
            }
        }
        let phid: Vec<u32> = phis.iter().map(|p| p.0).collect();
        let mut newregs: Vec<(u32, V)> = vec![];
        for r in lives {
            if phid.contains(&r) {
                continue;
            }
            let ty = &regty[r as usize];
            let mut acc = subs[n - 1].frames[fdepth - 1].regs[r as usize].clone();
            let mut diff = false;
            for i in (0..n - 1).rev() {
                let v = subs[i].frames[fdepth - 1].regs[r as usize].clone();
                if same_v(&v, &acc) {
                    continue;
                }
                diff = true;
                if *ty == Ty::Ptr {
                    return { self.mfail(8); None };
                }
                acc = match self.vite(alts[i].0, &v, &acc, ty) {
                    Ok(v) => v,
                    Err(_) => return None,
                };
            }
            if diff {
                newregs.push((r, acc));
            }
        }
        // memory
        let mut m = subs[n - 1].mem.clone();
        let mut budget = 65536usize;
        for i in (0..n - 1).rev() {
            let c = alts[i].0;
            let other = subs[i].mem.clone();
            for ci in 0..m.chunks.len() {
                if Rc::ptr_eq(&m.chunks[ci], &other.chunks[ci]) {
                    continue;
                }
                for k in 0..m.chunks[ci].len() {
                    let (a, b) = (other.chunks[ci][k].clone(), m.chunks[ci][k].clone());
                    match (a, b) {
                        (None, None) => {}
                        (Some(a), Some(b)) => {
                            if !Rc::ptr_eq(&a, &b) {
                                match self.merge_obj(c, &a, &b, &mut budget) {
                                    Some(Some(o)) => m.set_slot(ci, k, Rc::new(o)),
                                    Some(None) => {}
                                    None => return None,
                                }
                            }
                        }
                        _ => return None,
                    }
                }
            }
            for k in 0..m.stack.len() {
                let (a, b) = (other.stack[k].clone(), m.stack[k].clone());
                if !Rc::ptr_eq(&a, &b) {
                    if a.size() != b.size() {
                        return { self.mfail(9); None };
                    }
                    match self.merge_obj(c, &a, &b, &mut budget) {
                        Some(Some(o)) => m.stack[k] = Rc::new(o),
                        Some(None) => {}
                        None => return None,
                    }
                }
            }
        }
        let mut frames = subs[n - 1].frames.clone();
        {
            let fr = frames.last_mut().unwrap();
            for (r, v) in newregs {
                fr.regs[r as usize] = v;
            }
        }
        st.frames = frames;
        st.mem = m;
        Some(Ok(phis))
    }
    fn merge_obj(&mut self, c: T, a: &Obj, b: &Obj, budget: &mut usize) -> Option<Option<Obj>> {
        let n = a.data.len();
        if n != b.data.len() {
            return None;
        }
        let mut out: Option<Obj> = None;
        let mut i = 0;
        while i < n {
            let (sa, sb) = (a.byte_sym(i), b.byte_sym(i));
            if sa == sb && (sa.0 != 0 || a.data[i] == b.data[i]) {
                i += 1;
                continue;
            }
            if *budget == 0 {
                return None;
            }
            *budget -= 1;
            // a pointer-sized aligned word that holds an address on either side: refuse
            let w0 = i & !7;
            if w0 + 8 <= n {
                for o in [a, b] {
                    if (w0..w0 + 8).all(|k| o.byte_sym(k).0 == 0) {
                        let v = u64::from_le_bytes(o.data[w0..w0 + 8].try_into().unwrap());
                        if v >= SLOT && v < (1 << 46) && v & 0xffff_0000 != 0 && (v >> SLOT_BITS) != 0 && (v & (SLOT - 1)) < 0x10_0000 && v < (1u64 << 40) {
                            return None;
                        }
                        if v >= STACK_BASE && v < STACK_BASE + (1 << 40) {
                            return None;
                        }
                    }
                }
            }
            // widest scalar (8,4,2,1) made of one term each side or concrete
            let mut k = 1;
            for cand in [8usize, 4, 2] {
                if i % cand == 0 && i + cand <= n {
                    let whole = |o: &Obj| {
                        let f = o.byte_sym(i);
                        if f.0 == 0 {
                            (i..i + cand).all(|q| o.byte_sym(q).0 == 0)
                        } else {
                            f.1 == 0 && self.s.w(f.0) == cand as u32 * 8 && (i..i + cand).all(|q| o.byte_sym(q) == (f.0, (q - i) as u8))
                        }
                    };
                    let anysym = a.byte_sym(i).0 != 0 || b.byte_sym(i).0 != 0;
                    if whole(a) && whole(b) && anysym {
                        k = cand;
                        break;
                    }
                }
            }
            let get = |e: &mut Engine, o: &Obj| -> T {
                if k == 1 {
                    return e.byte_term(o, i);
                }
                let f = o.byte_sym(i);
                if f.0 != 0 {
                    f.0
                } else {
                    let mut v = 0u128;
                    for q in 0..k {
                        v |= (o.data[i + q] as u128) << (8 * q);
                    }
                    e.s.konst(v, k as u32 * 8)
                }
            };
            let ta = get(self, a);
            let tb = get(self, b);
            let r = self.s.ite(c, ta, tb);
            let o = out.get_or_insert_with(|| b.clone());
            o.ensure_sym();
            for q in 0..k {
                if let Some(v) = self.s.as_const(r) {
                    o.sym[i + q] = (0, 0);
                    o.data[i + q] = (v >> (8 * q)) as u8;
                } else {
                    o.sym[i + q] = (r, q as u8);
                    o.data[i + q] = 0;
                }
            }
            i += k;
        }
        Some(out)
    }

    // ------------------------------------------------------- vectors, aggregates
    fn misc(&mut self, st: &mut State, cf: &Rc<CFunc>, ins: &I) -> X<()> {
        let fr = st.frames.last().unwrap();
        let get = |o: &O| ov(cf, fr, o).clone();
        let (d, v) = match ins {
            I::Extract(a, ix, d) => {
                let mut v = get(a);
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => V::U,
                    };
                }
                (*d, v)
            }
            I::Insert(a, x, ix, ty, d) => {
                let base = get(a);
                let x = get(x);
                let v = insert(base, &x, ix, ty);
                (*d, v)
            }
            I::VExtract(a, i, d) => {
                let (a, i) = (get(a), get(i));
                match (a, i) {
                    (V::A(x), V::C(i)) => (*d, x[i as usize].clone()),
                    (V::U, _) => (*d, V::U),
                    (_, V::T(t)) => return Err(E::Values(t)),
                    _ => return Err(E::Err("extractelement".into())),
                }
            }
            I::VInsert(a, x, i, n, d) => {
                let (a, x, i) = (get(a), get(x), get(i));
                let mut v = match a {
                    V::A(v) => v.to_vec(),
                    _ => vec![V::U; *n as usize],
                };
                match i {
                    V::C(i) => v[i as usize] = x,
                    V::T(t) => return Err(E::Values(t)),
                    _ => return Err(E::Err("insertelement".into())),
                }
                (*d, V::A(Rc::new(v)))
            }
            I::VShuffle(a, b, m, n, d) => {
                let (a, b) = (get(a), get(b));
                let at = |v: &V, i: usize| match v {
                    V::A(x) => x[i].clone(),
                    _ => V::U,
                };
                let n = *n as i64;
                let v = m
                    .iter()
                    .map(|k| {
                        if *k < 0 {
                            V::U
                        } else if *k < n {
                            at(&a, *k as usize)
                        } else {
                            at(&b, (*k - n) as usize)
                        }
                    })
                    .collect();
                (*d, V::A(Rc::new(v)))
            }
            I::VBin(op, w, a, b, d) => {
                let (a, b) = (get(a), get(b));
                match (a, b) {
                    (V::A(x), V::A(y)) => {
                        let mut v = vec![];
                        for i in 0..x.len() {
                            let (p, q) = (self.term(&x[i], *w), self.term(&y[i], *w));
                            let r = self.s.bin(*op, p, q);
                            v.push(self.norm(r));
                        }
                        (*d, V::A(Rc::new(v)))
                    }
                    _ => return Err(E::Err("vector op on undef".into())),
                }
            }
            I::VCmp(p, w, a, b, d) => {
                let (a, b) = (get(a), get(b));
                match (a, b) {
                    (V::A(x), V::A(y)) => {
                        let mut v = vec![];
                        for i in 0..x.len() {
                            let (q, r) = (self.term(&x[i], *w), self.term(&y[i], *w));
                            let r = self.s.cmp(*p, q, r);
                            v.push(self.norm(r));
                        }
                        (*d, V::A(Rc::new(v)))
                    }
                    _ => return Err(E::Err("vector cmp on undef".into())),
                }
            }
            I::VCast(k, fw, tw, a, d) => match get(a) {
                V::A(x) => {
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(self.cast(*k, *fw, *tw, x[i].clone()));
                    }
                    (*d, V::A(Rc::new(v)))
                }
                _ => return Err(E::Err("vector cast on undef".into())),
            },
            I::BitcastV(from, to, a, d) => {
                let a = get(a);
                if from.is_scalar() && to.is_scalar() {
                    (*d, a)
                } else {
                    // flatten to one term, split again
                    let flat = match (&**from, a) {
                        (Ty::Vec(_, e), V::A(x)) => {
                            let w = e.width();
                            let mut acc = self.term(&x[0], w);
                            for i in 1..x.len() {
                                let t = self.term(&x[i], w);
                                acc = self.s.concat(t, acc);
                            }
                            acc
                        }
                        (_, v) => self.term(&v, from.width()),
                    };
                    match &**to {
                        Ty::Vec(n, e) => {
                            let w = e.width();
                            let mut v = vec![];
                            for i in 0..*n {
                                let t = self.s.extract(flat, i as u32 * w, w);
                                v.push(self.norm(t));
                            }
                            (*d, V::A(Rc::new(v)))
                        }
                        _ => (*d, self.norm(flat)),
                    }
                }
            }
            _ => return Err(E::Err("unhandled instruction".into())),
        };
        st.frames.last_mut().unwrap().regs[d as usize] = v;
        Ok(())
    }

    fn conc(&mut self, st: &State, v: &V) -> X<u64> {
        match self.resolve(st, v.clone()) {
            V::C(c) => Ok(c),
            V::T(t) => {
                if let Some(c) = self.s.as_const(t) {
                    return Ok(c as u64);
                }
                Err(E::Values(t))
            }
            _ => Err(E::Viol("ub".into(), "use of an undefined value".into())),
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, w: u32, a: &[V]) -> X<V> {
        use Intr::*;
        match i {
            Nop | Assume => Ok(V::U),
            Addr => Ok(a[0].clone()),
            Memcpy | Memmove => {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                self.copy(st, d, s, n)?;
                Ok(V::U)
            }
            Memset => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                if n == 0 {
                    return Ok(V::U);
                }
                let ok = matches!(st.mem.get(d), Some((o, off)) if off + n <= o.size());
                if !ok {
                    return Err(self.oob(st, d, n, "fill"));
                }
                match &a[1] {
                    V::C(c) => {
                        let (o, off) = st.mem.get_mut(d).unwrap();
                        let (off, n) = (off as usize, n as usize);
                        for x in &mut o.data[off..off + n] {
                            *x = *c as u8;
                        }
                        if !o.sym.is_empty() {
                            for x in &mut o.sym[off..off + n] {
                                *x = (0, 0);
                            }
                        }
                    }
                    v => {
                        for k in 0..n {
                            self.store_bytes(st, d + k, 1, v)?;
                        }
                    }
                }
                Ok(V::U)
            }
            Trap => Err(E::Viol("panic".into(), "abort".into())),
            VMoveMask | VReduceAdd | VReduceOr | VReduceAnd | VReduceXor => {
                let x = match &a[0] {
                    V::A(x) => x.clone(),
                    _ => return Err(E::Err("vector intrinsic".into())),
                };
                if i == VMoveMask {
                    let mut acc: Option<T> = None;
                    for v in x.iter() {
                        let t = self.term(v, 8);
                        let b = self.s.extract(t, 7, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(r) => self.s.concat(b, r),
                        });
                    }
                    let r = self.s.zext(acc.unwrap(), 32);
                    return Ok(self.norm(r));
                }
                let op = match i {
                    VReduceAdd => Bop::Add,
                    VReduceOr => Bop::Or,
                    VReduceAnd => Bop::And,
                    _ => Bop::Xor,
                };
                let mut acc = self.term(&x[0], w);
                for v in x.iter().skip(1) {
                    let t = self.term(v, w);
                    acc = self.s.bin(op, acc, t);
                }
                Ok(self.norm(acc))
            }
            _ => {
                if let V::A(x) = &a[0] {
                    // elementwise
                    let mut out = vec![];
                    for k in 0..x.len() {
                        let args: Vec<V> = a
                            .iter()
                            .map(|v| match v {
                                V::A(y) => y[k].clone(),
                                v => v.clone(),
                            })
                            .collect();
                        out.push(self.intrinsic(st, i, w, &args)?);
                    }
                    return Ok(V::A(Rc::new(out)));
                }
                self.scalar_intr(st, i, w, a)
            }
        }
    }
    fn scalar_intr(&mut self, _st: &mut State, i: Intr, w: u32, a: &[V]) -> X<V> {
        use Intr::*;
        let x = self.term(&a[0], w);
        let s = &mut self.s;
        macro_rules! arg {
            ($i:expr) => {
                match &a[$i] {
                    V::C(c) => s.konst(*c as u128, w),
                    V::T(t) => *t,
                    _ => s.konst(0, w),
                }
            };
        }
        let pair = |s: &mut Store, r: T, o: T| {
            let f = |s: &Store, t: T| match s.as_const(t) {
                Some(c) if s.w(t) <= 64 => V::C(c as u64),
                _ => V::T(t),
            };
            V::A(Rc::new(vec![f(s, r), f(s, o)]))
        };
        let r = match i {
            Expect => x,
            UMin | UMax | SMin | SMax => {
                let y = arg!(1);
                let p = match i {
                    UMin => Pred::Ult,
                    UMax => Pred::Ugt,
                    SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = s.cmp(p, x, y);
                s.ite(c, x, y)
            }
            UAddO => {
                let y = arg!(1);
                let r = s.bin(Bop::Add, x, y);
                let o = s.cmp(Pred::Ult, r, x);
                return Ok(pair(s, r, o));
            }
            USubO => {
                let y = arg!(1);
                let r = s.bin(Bop::Sub, x, y);
                let o = s.cmp(Pred::Ult, x, y);
                return Ok(pair(s, r, o));
            }
            SAddO | SSubO | SMulO | UMulO => {
                let y = arg!(1);
                let op = match i {
                    SAddO => Bop::Add,
                    SSubO => Bop::Sub,
                    _ => Bop::Mul,
                };
                let r = s.bin(op, x, y);
                if i == UMulO {
                    // interval shortcut
                    if let Some(m) = s.iv(x).1.checked_mul(s.iv(y).1) {
                        if m <= mask(u128::MAX, w) {
                            let o = s.boolc(false);
                            return Ok(pair(s, r, o));
                        }
                    }
                }
                if i != UMulO && w <= 64 {
                    let (p, q) = (s.siv(x), s.siv(y));
                    let lim = 1i128 << (w - 1);
                    let safe = match op {
                        Bop::Add => p.0 + q.0 >= -lim && p.1 + q.1 < lim,
                        Bop::Sub => p.0 - q.1 >= -lim && p.1 - q.0 < lim,
                        _ => {
                            let m = [p.0.checked_mul(q.0), p.0.checked_mul(q.1), p.1.checked_mul(q.0), p.1.checked_mul(q.1)];
                            m.iter().all(|v| matches!(v, Some(v) if *v >= -lim && *v < lim))
                        }
                    };
                    if safe {
                        let o = s.boolc(false);
                        return Ok(pair(s, r, o));
                    }
                }
                let ww = if matches!(i, SMulO | UMulO) { 2 * w } else { w + 1 };
                // exact result in a wider type, kept tabular when possible
                if ww > 128 {
                    return Err(E::Err("wide overflow intrinsic".into()));
                }
                let ov = if let Some(t) = s.overflow_tab(i == UMulO, op, x, y, w) {
                    t
                } else {
                    let (ex, ey) = if i == UMulO { (s.zext(x, ww), s.zext(y, ww)) } else { (s.sext(x, ww), s.sext(y, ww)) };
                    let er = s.bin(op, ex, ey);
                    let back = if i == UMulO { s.zext(r, ww) } else { s.sext(r, ww) };
                    s.cmp(Pred::Ne, er, back)
                };
                return Ok(pair(s, r, ov));
            }
            UAddSat => {
                let y = arg!(1);
                let r = s.bin(Bop::Add, x, y);
                let o = s.cmp(Pred::Ult, r, x);
                let m = s.konst(u128::MAX, w);
                s.ite(o, m, r)
            }
            USubSat => {
                let y = arg!(1);
                let r = s.bin(Bop::Sub, x, y);
                let o = s.cmp(Pred::Ult, x, y);
                let z = s.konst(0, w);
                s.ite(o, z, r)
            }
            Abs => {
                let z = s.konst(0, w);
                let n = s.bin(Bop::Sub, z, x);
                let c = s.cmp(Pred::Slt, x, z);
                s.ite(c, n, x)
            }
            Ctpop => {
                let mut acc = s.konst(0, w);
                for k in 0..w {
                    let b = s.bit(x, k);
                    let z = s.zext(b, w);
                    acc = s.bin(Bop::Add, acc, z);
                }
                acc
            }
            Ctlz | Cttz => {
                let mut acc = s.konst(w as u128, w);
                for k in 0..w {
                    let idx = if i == Ctlz { k } else { w - 1 - k };
                    let val = if i == Ctlz { w - 1 - k } else { w - 1 - k };
                    let b = s.bit(x, idx);
                    let kt = s.konst(val as u128, w);
                    acc = s.ite(b, kt, acc);
                }
                acc
            }
            Bswap => {
                let n = w / 8;
                let mut acc = s.extract(x, 0, 8);
                for k in 1..n {
                    let b = s.extract(x, 8 * k, 8);
                    acc = s.concat(acc, b);
                }
                acc
            }
            Bitreverse => {
                let v: Vec<T> = (0..w).rev().map(|k| s.bit(x, k)).collect();
                s.mk_bits(v)
            }
            Fshl | Fshr => {
                let y = arg!(1);
                let z = arg!(2);
                match s.as_const(z) {
                    Some(k) => {
                        let k = (k % w as u128) as u32;
                        if k == 0 {
                            if i == Fshl {
                                x
                            } else {
                                y
                            }
                        } else {
                            let l = if i == Fshl { k } else { w - k };
                            let hi = s.extract(x, 0, w - l);
                            let lo = s.extract(y, w - l, l);
                            s.concat(hi, lo)
                        }
                    }
                    None => return Err(E::Values(z)),
                }
            }
            Scmp | Ucmp => {
                return Err(E::Err("scmp/ucmp".into()));
            }
            _ => return Err(E::Err(format!("intrinsic {:?}", i))),
        };
        Ok(self.norm(r))
    }

    // ------------------------------------------------------- externals
    pub fn push_input(&mut self, st: &mut State, t: T) {
        Rc::make_mut(&mut st.inputs).push(t);
    }
    pub fn read_terms(&mut self, st: &State, addr: u64, n: u64) -> X<Vec<T>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = match st.mem.get(addr) {
            Some((o, off)) if off + n <= o.size() => (o.clone(), off as usize),
            _ => return Err(self.oob(st, addr, n, "read")),
        };
        Ok((0..n as usize).map(|i| self.byte_term(&o.0, o.1 + i)).collect())
    }
    fn external(&mut self, st: &mut State, k: Ext, name: &str, a: &[V]) -> X<V> {
        match k {
            Ext::Nop => Ok(V::U),
            Ext::Alloc | Ext::AllocZeroed => {
                let n = self.alloc_size(st, &a[0])?;
                let p = st.mem.alloc(Obj::new(n, if k == Ext::Alloc { 0xA5 } else { 0 }));
                Ok(V::C(p))
            }
            Ext::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.alloc_size(st, &a[3])?;
                let old = match st.mem.get(p) {
                    Some((o, 0)) => o.clone(),
                    _ => return Err(E::Viol("memory".into(), "realloc of an invalid pointer".into())),
                };
                let mut o = Obj::new(n, 0xA5);
                let m = old.data.len().min(n as usize);
                o.data[..m].copy_from_slice(&old.data[..m]);
                if !old.sym.is_empty() {
                    o.ensure_sym();
                    o.sym[..m].copy_from_slice(&old.sym[..m]);
                }
                if let Err(e) = st.mem.free(p) {
                    return Err(E::Viol("memory".into(), e.into()));
                }
                Ok(V::C(st.mem.alloc(o)))
            }
            Ext::GrowOne(es) => {
                let rv = self.conc(st, &a[0])?;
                let cap = match self.load_bytes(st, rv, 8)? {
                    V::C(c) => c,
                    _ => return Err(E::Err("symbolic capacity".into())),
                };
                let min = if es == 1 { 8 } else if es <= 1024 { 4 } else { 1 };
                let n = (cap * 2).max(cap + 1).max(min);
                let p = if cap == 0 {
                    st.mem.alloc(Obj::new(n * es, 0xA5))
                } else {
                    let old = self.load_bytes(st, rv + 8, 8)?;
                    let args = [old, V::C(cap * es), V::C(1), V::C(n * es)];
                    match self.external(st, Ext::Realloc, name, &args)? {
                        V::C(p) => p,
                        _ => unreachable!(),
                    }
                };
                self.store_bytes(st, rv, 8, &V::C(n))?;
                self.store_bytes(st, rv + 8, 8, &V::C(p))?;
                Ok(V::U)
            }
            Ext::Dealloc => {
                let p = self.conc(st, &a[0])?;
                match st.mem.free(p) {
                    Ok(_) => Ok(V::U),
                    Err(e) => Err(E::Viol("memory".into(), e.into())),
                }
            }
            Ext::Bcmp | Ext::Memcmp => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let x = self.read_terms(st, p, n)?;
                let y = self.read_terms(st, q, n)?;
                if k == Ext::Bcmp {
                    let e = self.all_eq(&x, &y);
                    let ne = self.s.not(e);
                    let r = self.s.zext(ne, 32);
                    return Ok(self.norm(r));
                }
                let mut r = self.s.konst(0, 32);
                for i in (0..n as usize).rev() {
                    let lt = self.s.cmp(Pred::Ult, x[i], y[i]);
                    let e = self.s.eq(x[i], y[i]);
                    let m1 = self.s.konst(u32::MAX as u128, 32);
                    let p1 = self.s.konst(1, 32);
                    let d = self.s.ite(lt, m1, p1);
                    r = self.s.ite(e, r, d);
                }
                Ok(self.norm(r))
            }
            Ext::MapKeys => Ok(V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba987654321)]))),
            Ext::Panic => Err(E::Viol("panic".into(), crate::short_name(name))),
            Ext::Unknown => Err(E::Err(format!("call to unmodelled external function {}", name))),
            Ext::SxTrits | Ext::SxRange => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let (lo, cnt) = if k == Ext::SxTrits { (0, 3) } else { (self.conc(st, &a[2])?, self.conc(st, &a[3])?) };
                for i in 0..n {
                    let (_, t) = self.s.var(8, lo, cnt as u32, None);
                    self.push_input(st, t);
                    let v = self.norm(t);
                    self.store_bytes(st, p + i, 1, &v)?;
                }
                Ok(V::U)
            }
            Ext::SxInt => {
                let lo = self.conc(st, &a[0])? as i64;
                let hi = self.conc(st, &a[1])? as i64;
                let span = (hi as i128 - lo as i128) as u128;
                if span < 256 {
                    let (_, t) = self.s.var(64, lo as u64, span as u32 + 1, None);
                    self.push_input(st, t);
                    return Ok(self.norm(t));
                }
                let bits = 128 - span.leading_zeros();
                let (_, x) = self.s.var(bits, 0, 0, None);
                if bits < 64 {
                    self.s.set_iv(x, 0, span);
                }
                let z = self.s.zext_to(x, 64);
                let k = self.s.konst(lo as i128 as u128, 64);
                let t = self.s.bin(Bop::Add, z, k);
                self.push_input(st, t);
                if span != mask(u128::MAX, bits) {
                    // built directly: the interval would fold it
                    let m = self.s.konst(span, bits);
                    let c = self.s.raw_ule(x, m);
                    st.cver += 1;
                    Rc::make_mut(&mut st.pc).push(c);
                    let v = self.s.support1(x);
                    Rc::make_mut(&mut st.ent).extend(v.iter());
                }
                Ok(self.norm(t))
            }
            Ext::SxChoose => {
                let n = self.conc(st, &a[0])?;
                // an input whose value is fixed by forking at once
                let key = st.inputs.len();
                let t = self.choose_var(st, key, n);
                match self.resolve(st, t.clone()) {
                    V::C(v) => {
                        let tt = self.s.konst(v as u128, 64);
                        self.push_input(st, tt);
                        Ok(V::C(v))
                    }
                    V::T(t) => Err(E::Values(t)),
                    _ => Err(E::Err("choose".into())),
                }
            }
            Ext::SxConcrete => {
                let v = self.conc(st, &a[0])?;
                Ok(V::C(v))
            }
            Ext::SxAssume => {
                let v = self.resolve(st, a[0].clone());
                match v {
                    V::C(c) => {
                        if c & 1 == 1 {
                            Ok(V::U)
                        } else {
                            Err(E::Dead)
                        }
                    }
                    V::T(t) => {
                        let b = self.s.extract(t, 0, 1);
                        let (y, _) = self.feas(st, b)?;
                        if !y || !self.constrain(st, b, true) {
                            return Err(E::Dead);
                        }
                        Ok(V::U)
                    }
                    _ => Err(E::Err("assume".into())),
                }
            }
            Ext::SxFeasible => {
                let v = self.resolve(st, a[0].clone());
                match v {
                    V::C(c) => Ok(V::C(c & 1)),
                    V::T(t) => {
                        let b = self.s.extract(t, 0, 1);
                        let (y, _) = self.feas(st, b)?;
                        Ok(V::C(y as u64))
                    }
                    _ => Err(E::Err("feasible".into())),
                }
            }
            Ext::SxAssert => {
                let id = self.conc(st, &a[1])?;
                let c = match &a[0] {
                    V::C(c) => self.s.boolc(c & 1 == 1),
                    V::T(t) => self.s.extract(*t, 0, 1),
                    _ => return Err(E::Err("assert".into())),
                };
                self.assert_(st, c, id)?;
                Ok(V::U)
            }
            Ext::SxAssertEq => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let id = self.conc(st, &a[3])?;
                let x = self.read_terms(st, p, n)?;
                let y = self.read_terms(st, q, n)?;
                for i in 0..n as usize {
                    let e = self.s.eq(x[i], y[i]);
                    self.assert_(st, e, id)?;
                }
                Ok(V::U)
            }
            Ext::SxEq => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let x = self.read_terms(st, p, n)?;
                let y = self.read_terms(st, q, n)?;
                let e = self.all_eq(&x, &y);
                Ok(self.norm(e))
            }
            Ext::SxCover => {
                let id = self.conc(st, &a[0])?;
                if !self.covers.contains_key(&id) {
                    let l = self.all_lits(st);
                    match self.query(&l, false, st.modes[M_CF] != 0) {
                        Res::Sat => {
                            self.covers.insert(id, 1);
                        }
                        Res::Unsat => return Err(E::Dead),
                        Res::Unknown => {}
                    }
                } else {
                    *self.covers.get_mut(&id).unwrap() += 1;
                }
                Ok(V::U)
            }
            Ext::SxMode => {
                let k = self.conc(st, &a[0])? as usize;
                let v = self.conc(st, &a[1])?;
                st.modes[k] = v;
                Ok(V::U)
            }
            Ext::SxUf => {
                let fid = self.conc(st, &a[0])? + 1000;
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let q = self.conc(st, &a[3])?;
                let m = self.conc(st, &a[4])?;
                let args = self.read_terms(st, p, n)?;
                let outs = self.apply_uf(fid, args, m as usize, 3);
                for (i, t) in outs.iter().enumerate() {
                    let v = self.norm(*t);
                    self.store_bytes(st, q + i as u64, 1, &v)?;
                }
                Ok(V::U)
            }
            Ext::SxDump => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let x = self.read_terms(st, p, n)?;
                let mut s = String::new();
                for t in x {
                    // running digest of concrete bytes, used by the self-check
                    let b = self.s.as_const(t).unwrap_or(0xEE) as u64;
                    self.digest = (self.digest ^ b).wrapping_mul(0x100000001b3);
                    s.push_str(&self.s.show(t, 2));
                    s.push(' ');
                }
                if self.trace {
                    eprintln!("DUMP {}", s);
                }
                Ok(V::U)
            }
            Ext::SxProbe => {
                let i = self.conc(st, &a[0])?;
                let v = self.conc(st, &a[1])?;
                let p = self.conc(st, &a[2])?;
                let n = self.conc(st, &a[3])?;
                let x = self.read_terms(st, p, n)?;
                let b: Vec<u8> = x.iter().map(|t| self.s.as_const(*t).unwrap_or(0) as u8).collect();
                self.probe_raw.insert((i, v), b);
                Ok(V::U)
            }
            Ext::SxSnapshot => Ok(V::U),
            Ext::SxParam => {
                let i = self.conc(st, &a[0])? as usize;
                Ok(V::C(self.params.get(i).cloned().unwrap_or(0)))
            }
        }
    }
    fn choose_var(&mut self, st: &mut State, key: usize, n: u64) -> V {
        // one choice variable per (input position, size): re-execution after the fork finds it again
        let id = 0x1_0000_0000u64 * n + key as u64;
        if let Some(t) = self.ideal.choose.get(&id) {
            return V::T(*t);
        }
        let _ = st;
        let (_, t) = self.s.var(64, 0, n as u32, None);
        self.ideal.choose.insert(id, t);
        self.norm(t)
    }
    fn alloc_size(&mut self, st: &mut State, v: &V) -> X<u64> {
        let max = st.modes[M_MAXALLOC];
        if let V::T(t) = self.resolve(st, v.clone()) {
            let m = self.s.konst(max as u128, 64);
            let big = self.s.cmp(Pred::Ugt, t, m);
            let (y, _) = self.feas(st, big)?;
            if y {
                let mut s2 = st.clone();
                if self.constrain(&mut s2, big, true) {
                    *st = s2;
                    return Err(E::Viol("alloc".into(), format!("allocation larger than {} bytes", max)));
                }
            }
        }
        let n = self.conc(st, v)?;
        if n > max || n > MAX_OBJ {
            return Err(E::Viol("alloc".into(), format!("allocation of {} bytes (limit {})", n, max)));
        }
        Ok(n)
    }
    pub fn assert_(&mut self, st: &mut State, c: T, id: u64) -> X<()> {
        self.stats.asserts += 1;
        let c = match self.resolve(st, V::T(c)) {
            V::C(1) => {
                self.stats.asserts_simpl += 1;
                return Ok(());
            }
            V::C(_) => return Err(E::Viol("assert".into(), format!("assertion {} fails", id))),
            V::T(t) => t,
            _ => unreachable!(),
        };
        let n = self.s.not(c);
        let l = self.lits(st, &[n]);
        self.stats.asserts_smt += 1;
        match self.query(&l, false, st.modes[M_CF] != 0) {
            Res::Unsat => {
                Rc::make_mut(&mut st.known).insert(c, 1);
                Ok(())
            }
            Res::Sat => {
                // the slice may leave out facts linked through function applications
                if !self.apps.is_empty() || self.s.ndefs > 0 {
                    let mut l = self.all_lits(st);
                    l.push(n);
                    match self.query(&l, false, st.modes[M_CF] != 0) {
                        Res::Unsat => {
                            Rc::make_mut(&mut st.known).insert(c, 1);
                            return Ok(());
                        }
                        Res::Unknown => return Err(E::Err(format!("solver gave no answer on assertion {} ({:?})", id, self.smt.last_error))),
                        Res::Sat => {}
                    }
                }
                if !self.constrain(st, n, true) {
                    return Err(E::Err("inconsistent model".into()));
                }
                Err(E::Viol("assert".into(), format!("assertion {} fails", id)))
            }
            Res::Unknown => Err(E::Err(format!("solver gave no answer on assertion {} ({:?})", id, self.smt.last_error))),
        }
    }
    pub fn apply_uf(&mut self, fid: u64, args: Vec<T>, n: usize, dom: u32) -> Vec<T> {
        if let Some(i) = self.appmap.get(&(fid, args.clone())) {
            return self.apps[*i as usize].outs.clone();
        }
        let id = self.apps.len() as u32;
        let outs: Vec<T> = (0..n).map(|_| self.s.var(8, 0, dom, Some(id)).1).collect();
        self.apps.push(App { fid, args: args.clone(), outs: outs.clone() });
        self.appmap.insert((fid, args), id);
        self.stats.apps += 1;
        outs
    }
    fn intercepted(&mut self, st: &mut State, which: u32, a: &[V]) -> X<Option<V>> {
        match which {
            1 => {
                if st.modes[M_UF] == 0 {
                    return Ok(None);
                }
                if !self.probe.ok {
                    return Err(E::Err("permutation state layout unknown".into()));
                }
                let p = self.conc(st, &a[0])?;
                let size = self.probe.size;
                let words = size / 4;
                let mut args = vec![];
                let mut all_conc = true;
                for i in 0..words {
                    let v = self.load_bytes(st, p + 4 * i as u64, 4)?;
                    all_conc &= matches!(v, V::C(_));
                    args.push(self.term(&v, 32));
                }
                if st.modes[M_UF] == 2 && all_conc {
                    return Ok(None);
                }
                let outs = self.apply_uf(0, args, 729, 3);
                // write back the encoding of the output trits
                let z = self.s.boolc(false);
                let mut bits: Vec<T> = vec![z; size * 8];
                for i in 0..729 {
                    let v = match self.s.node(outs[i]) {
                        N::Tab(v, _) => v[0],
                        _ => return Err(E::Err("uf output".into())),
                    };
                    for val in 1..3usize {
                        let mut ind = vec![0u64; 3];
                        ind[val] = 1;
                        for (byte, m) in self.probe.pat[i][val].clone() {
                            for b in 0..8 {
                                if m >> b & 1 == 1 {
                                    let t = self.s.mk_tab(vec![v], ind.clone(), 1);
                                    let k = byte * 8 + b;
                                    bits[k] = self.s.or(bits[k], t);
                                }
                            }
                        }
                    }
                }
                for i in 0..words {
                    let w = self.s.mk_bits(bits[i * 32..i * 32 + 32].to_vec());
                    let v = self.norm(w);
                    self.store_bytes(st, p + 4 * i as u64, 4, &v)?;
                }
                Ok(Some(V::U))
            }
            _ => crate::ideal::intercept(self, st, which, a),
        }
    }
    pub fn finish_probe(&mut self) {
        let base = match self.probe_raw.get(&(0, 0)) {
            Some(b) => b.clone(),
            None => return,
        };
        let n = base.len();
        let mut pr = Probe { size: n, pat: vec![], ok: n % 4 == 0 && base.iter().all(|b| *b == 0) };
        let mut seen = vec![0u8; n];
        for i in 0..729u64 {
            let mut e: [Vec<(usize, u8)>; 3] = Default::default();
            for v in 1..3u64 {
                match self.probe_raw.get(&(i, v)) {
                    Some(b) if b.len() == n => {
                        for k in 0..n {
                            if b[k] != 0 {
                                e[v as usize].push((k, b[k]));
                            }
                        }
                    }
                    _ => pr.ok = false,
                }
            }
            // cells must use disjoint bits
            let mut mine: BTreeMap<usize, u8> = BTreeMap::new();
            for v in 1..3 {
                if e[v].is_empty() {
                    pr.ok = false;
                }
                for (k, m) in &e[v] {
                    *mine.entry(*k).or_insert(0) |= m;
                }
            }
            for (k, m) in mine {
                if seen[k] & m != 0 {
                    pr.ok = false;
                }
                seen[k] |= m;
            }
            pr.pat.push(e);
        }
        self.probe = pr;
    }
}

fn insert(base: V, x: &V, ix: &[u32], ty: &Ty) -> V {
    if ix.is_empty() {
        return x.clone();
    }
    let n = ty.nelem() as usize;
    let mut v = match base {
        V::A(v) => v.to_vec(),
        _ => vec![V::U; n],
    };
    let i = ix[0] as usize;
    v[i] = insert(v[i].clone(), x, &ix[1..], ty.elem(i as u64));
    V::A(Rc::new(v))
}

pub fn same_v(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::T(x), V::T(y)) => x == y,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_v(p, q))),
        (V::U, V::U) => true,
        _ => false,
    }
}

#[inline]
fn ov<'a>(cf: &'a CFunc, fr: &'a Frame, o: &O) -> &'a V {
    match o {
        O::R(r) => &fr.regs[*r as usize],
        O::K(k) => &cf.consts[*k as usize],
    }
}
fn phi_val(cf: &CFunc, fr: &Frame, inc: &[(u32, O)], from: u32) -> V {
    for (b, o) in inc {
        if *b == from {
            return ov(cf, fr, o).clone();
        }
    }
    V::U
}
