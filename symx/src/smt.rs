//! SMT-LIB back end: a persistent incremental solver plus one-shot queries.
use crate::ll::{mask, Bop, Pred};
use crate::term::*;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: FxSet<T>,
    vars: FxSet<u32>,
    lits: FxSet<T>,
    naxioms: usize,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub oneshot: u64,
    pub cache_hits: u64,
    pub cross: u64,
}

pub struct Smt {
    proc: Option<Proc>,
    pub axioms: Vec<T>,
    pub stats: Stats,
    cache: FxMap<Vec<T>, Res>,
    pub inc_timeout_ms: u64,
    pub one_timeout_s: u64,
    pub model: FxMap<u32, u128>,
    pub crosscheck: bool,
    pub log: Option<String>,
    pub solver: String,
    pub last_error: Option<String>,
}

fn bvc(v: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

fn op_name(op: Bop) -> &'static str {
    match op {
        Bop::Add => "bvadd",
        Bop::Sub => "bvsub",
        Bop::Mul => "bvmul",
        Bop::UDiv => "bvudiv",
        Bop::SDiv => "bvsdiv",
        Bop::URem => "bvurem",
        Bop::SRem => "bvsrem",
        Bop::Shl => "bvshl",
        Bop::LShr => "bvlshr",
        Bop::AShr => "bvashr",
        Bop::And => "bvand",
        Bop::Or => "bvor",
        Bop::Xor => "bvxor",
    }
}

/// Bit-vector rendering of a term (1-bit terms are kept as Bool definitions).
pub fn atom(s: &Store, t: T) -> String {
    if s.w(t) == 1 {
        return match s.node(t) {
            N::Const(c) => bvc(*c, 1),
            _ => format!("(ite {} #b1 #b0)", batom(s, t)),
        };
    }
    match s.node(t) {
        N::Const(c) => bvc(*c, s.w(t)),
        N::Var(v) => format!("v{}", v),
        N::Tab(vs, vals) if vs.len() == 1 && ident(s, vs[0], vals, s.w(t)) => format!("v{}", vs[0]),
        _ => format!("t{}", t),
    }
}
/// Bool rendering of a 1-bit term.
pub fn batom(s: &Store, t: T) -> String {
    match s.node(t) {
        N::Const(c) => (if *c == 1 { "true" } else { "false" }).to_string(),
        N::Var(v) => format!("(= v{} #b1)", v),
        N::Tab(vs, vals) if vs.len() == 1 && ident(s, vs[0], vals, 1) => format!("(= v{} #b1)", vs[0]),
        _ => format!("t{}", t),
    }
}
/// Bool body of a 1-bit node.
pub fn bbody(s: &Store, n: &N) -> String {
    match n {
        N::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), a, b) => {
            if *op == Bop::Xor && s.as_const(*b) == Some(1) {
                return format!("(not {})", batom(s, *a));
            }
            format!("({} {} {})", match op { Bop::And => "and", Bop::Or => "or", _ => "xor" }, batom(s, *a), batom(s, *b))
        }
        N::Ite(c, a, b) => format!("(ite {} {} {})", batom(s, *c), batom(s, *a), batom(s, *b)),
        N::Cmp(p, a, b) => {
            let (o, neg) = match p {
                Pred::Eq => ("=", false),
                Pred::Ne => ("=", true),
                Pred::Ult => ("bvult", false),
                Pred::Ule => ("bvule", false),
                Pred::Ugt => ("bvugt", false),
                Pred::Uge => ("bvuge", false),
                Pred::Slt => ("bvslt", false),
                Pred::Sle => ("bvsle", false),
                Pred::Sgt => ("bvsgt", false),
                Pred::Sge => ("bvsge", false),
            };
            let r = if o == "=" && s.w(*a) == 1 { format!("(= {} {})", batom(s, *a), batom(s, *b)) } else { format!("({} {} {})", o, atom(s, *a), atom(s, *b)) };
            if neg {
                format!("(not {})", r)
            } else {
                r
            }
        }
        N::Tab(vs, vals) => {
            // equality of two variables of one domain
            if vs.len() == 2 {
                let (x, y) = (&s.vars[vs[0] as usize], &s.vars[vs[1] as usize]);
                if x.w == y.w && x.lo == y.lo && x.n == y.n {
                    let k = x.n as usize;
                    if (0..k * k).all(|i| (vals[i] == 1) == (i / k == i % k)) {
                        return format!("(= v{} v{})", vs[0], vs[1]);
                    }
                    if (0..k * k).all(|i| (vals[i] == 0) == (i / k == i % k)) {
                        return format!("(not (= v{} v{}))", vs[0], vs[1]);
                    }
                }
            }
            tab_body(s, vs, vals, 0)
        }
        _ => format!("(= {} #b1)", body(s, n, 1)),
    }
}
fn ident(s: &Store, v: u32, vals: &[u64], w: u32) -> bool {
    let vi = &s.vars[v as usize];
    vi.w == w && vals.iter().enumerate().all(|(i, x)| *x == mask((vi.lo.wrapping_add(i as u64)) as u128, w) as u64)
}

/// Body of a node in terms of its children.
pub fn body(s: &Store, n: &N, w: u32) -> String {
    match n {
        N::Const(c) => bvc(*c, w),
        N::Var(v) => format!("v{}", v),
        N::Bin(op, a, b) => format!("({} {} {})", op_name(*op), atom(s, *a), atom(s, *b)),
        N::Cmp(p, a, b) => {
            let (o, neg) = match p {
                Pred::Eq => ("=", false),
                Pred::Ne => ("=", true),
                Pred::Ult => ("bvult", false),
                Pred::Ule => ("bvule", false),
                Pred::Ugt => ("bvugt", false),
                Pred::Uge => ("bvuge", false),
                Pred::Slt => ("bvslt", false),
                Pred::Sle => ("bvsle", false),
                Pred::Sgt => ("bvsgt", false),
                Pred::Sge => ("bvsge", false),
            };
            let (x, y) = if neg { ("#b0", "#b1") } else { ("#b1", "#b0") };
            format!("(ite ({} {} {}) {} {})", o, atom(s, *a), atom(s, *b), x, y)
        }
        N::Ite(c, a, b) => format!("(ite {} {} {})", batom(s, *c), atom(s, *a), atom(s, *b)),
        N::Zext(a) => format!("((_ zero_extend {}) {})", w - s.w(*a), atom(s, *a)),
        N::Sext(a) => format!("((_ sign_extend {}) {})", w - s.w(*a), atom(s, *a)),
        N::Extract(a, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, atom(s, *a)),
        N::Concat(a, b) => format!("(concat {} {})", atom(s, *a), atom(s, *b)),
        N::Bits(v) => {
            let mut r = String::from("(concat");
            for x in v.iter().rev() {
                r.push(' ');
                r.push_str(&atom(s, *x));
            }
            r.push(')');
            r
        }
        N::Tab(vs, vals) => tab_body(s, vs, vals, w),
    }
}

fn tab_body(s: &Store, vs: &[u32], vals: &[u64], w: u32) -> String {
    // width 0: Bool
    if vals.iter().all(|x| *x == vals[0]) {
        if w == 0 {
            return (if vals[0] == 1 { "true" } else { "false" }).to_string();
        }
        return bvc(vals[0] as u128, w);
    }
    let v = vs[0];
    let vi = &s.vars[v as usize];
    let inner = vals.len() / vi.n as usize;
    let parts: Vec<&[u64]> = vals.chunks(inner).collect();
    // most frequent part is the default
    let mut best = 0;
    let mut bc = 0;
    for i in 0..parts.len() {
        let c = parts.iter().filter(|p| **p == parts[i]).count();
        if c > bc {
            bc = c;
            best = i;
        }
    }
    let mut r = String::new();
    let mut close = 0;
    for (i, p) in parts.iter().enumerate() {
        if *p == parts[best] {
            continue;
        }
        let lo = mask((vi.lo.wrapping_add(i as u64)) as u128, vi.w);
        write!(r, "(ite (= v{} {}) {} ", v, bvc(lo, vi.w), tab_body(s, &vs[1..], p, w)).unwrap();
        close += 1;
    }
    r.push_str(&tab_body(s, &vs[1..], parts[best], w));
    for _ in 0..close {
        r.push(')');
    }
    r
}

fn emit(s: &Store, ts: &[T], defined: &mut FxSet<T>, vars: &mut FxSet<u32>, out: &mut String) {
    let mut st: Vec<(T, bool)> = ts.iter().map(|t| (*t, false)).collect();
    while let Some((t, done)) = st.pop() {
        if defined.contains(&t) {
            continue;
        }
        if !done {
            st.push((t, true));
            s.children(t, &mut |c| {
                if !defined.contains(&c) {
                    st.push((c, false))
                }
            });
            continue;
        }
        defined.insert(t);
        let mut decl = |v: u32, out: &mut String| {
            if vars.insert(v) {
                let vi = &s.vars[v as usize];
                writeln!(out, "(declare-const v{} (_ BitVec {}))", v, vi.w).unwrap();
                if vi.n != 0 && !(vi.w < 32 && vi.n as u64 == 1 << vi.w) {
                    let lo = mask(vi.lo as u128, vi.w);
                    if lo == 0 {
                        writeln!(out, "(assert (bvult v{} {}))", v, bvc(vi.n as u128, vi.w)).unwrap();
                    } else {
                        writeln!(out, "(assert (bvult (bvsub v{} {}) {}))", v, bvc(lo, vi.w), bvc(vi.n as u128, vi.w)).unwrap();
                    }
                }
            }
        };
        match s.node(t) {
            N::Const(_) => {}
            N::Var(v) => decl(*v, out),
            N::Tab(vs, vals) => {
                for v in vs.iter() {
                    decl(*v, out);
                }
                if !(vs.len() == 1 && ident(s, vs[0], vals, s.w(t))) {
                    if s.w(t) == 1 {
                        writeln!(out, "(define-fun t{} () Bool {})", t, bbody(s, s.node(t))).unwrap();
                    } else {
                        writeln!(out, "(define-fun t{} () (_ BitVec {}) {})", t, s.w(t), body(s, s.node(t), s.w(t))).unwrap();
                    }
                }
            }
            n if s.w(t) == 1 => writeln!(out, "(define-fun t{} () Bool {})", t, bbody(s, n)).unwrap(),
            n => writeln!(out, "(define-fun t{} () (_ BitVec {}) {})", t, s.w(t), body(s, n, s.w(t))).unwrap(),
        }
    }
}

fn spawn(solver: &str) -> Proc {
    let mut it = solver.split(' ');
    let mut child = Command::new(it.next().unwrap())
        .args(it)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start solver");
    let inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Proc { child, inp, out, defined: Default::default(), vars: Default::default(), lits: Default::default(), naxioms: 0 }
}

impl Proc {
    fn send(&mut self, s: &str) {
        let _ = self.inp.write_all(s.as_bytes());
        let _ = self.inp.flush();
    }
    fn line(&mut self) -> Option<String> {
        let mut l = String::new();
        match self.out.read_line(&mut l) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(l.trim().to_string()),
        }
    }
    fn verdict(&mut self) -> (Res, Option<String>) {
        loop {
            match self.line() {
                None => return (Res::Unknown, Some("solver died".into())),
                Some(l) if l == "sat" => return (Res::Sat, None),
                Some(l) if l == "unsat" => return (Res::Unsat, None),
                Some(l) if l.is_empty() => {}
                Some(l) => return (Res::Unknown, Some(l)),
            }
        }
    }
    fn values(&mut self, s: &Store, vs: &[u32]) -> FxMap<u32, u128> {
        let mut m: FxMap<u32, u128> = Default::default();
        for ch in vs.chunks(500) {
            let mut q = String::from("(get-value (");
            for v in ch {
                write!(q, "v{} ", v).unwrap();
            }
            q.push_str("))\n");
            self.send(&q);
            let mut txt = String::new();
            let mut depth = 0i32;
            loop {
                let l = match self.line() {
                    Some(l) => l,
                    None => return m,
                };
                for c in l.chars() {
                    if c == '(' {
                        depth += 1
                    } else if c == ')' {
                        depth -= 1
                    }
                }
                txt.push_str(&l);
                txt.push(' ');
                if depth <= 0 {
                    break;
                }
            }
            let toks: Vec<&str> = txt.split(|c: char| c == '(' || c == ')' || c == ' ').filter(|x| !x.is_empty()).collect();
            let mut i = 0;
            while i + 1 < toks.len() {
                if let Some(id) = toks[i].strip_prefix('v') {
                    let v = toks[i + 1];
                    let val = if let Some(h) = v.strip_prefix("#x") {
                        u128::from_str_radix(h, 16).unwrap_or(0)
                    } else if let Some(b) = v.strip_prefix("#b") {
                        u128::from_str_radix(b, 2).unwrap_or(0)
                    } else {
                        0
                    };
                    if let Ok(id) = id.parse() {
                        m.insert(id, val);
                    }
                }
                i += 2;
            }
        }
        let _ = s;
        m
    }
}

impl Smt {
    pub fn new(solver: &str) -> Smt {
        Smt {
            proc: None,
            axioms: vec![],
            stats: Default::default(),
            cache: Default::default(),
            inc_timeout_ms: 3000,
            one_timeout_s: 120,
            model: Default::default(),
            crosscheck: false,
            log: None,
            solver: solver.to_string(),
            last_error: None,
        }
    }
    pub fn add_axiom(&mut self, t: T) {
        self.axioms.push(t);
        self.cache.clear();
    }
    /// Is the conjunction of the 1-bit terms satisfiable (with axioms)?
    /// On Sat, with `want_model`, `self.model` holds the values of all variables in the cone.
    pub fn check(&mut self, s: &Store, lits: &[T], want_model: bool) -> Res {
        let mut key: Vec<T> = lits.iter().cloned().filter(|t| s.as_const(*t) != Some(1)).collect();
        if key.iter().any(|t| s.as_const(*t) == Some(0)) {
            return Res::Unsat;
        }
        key.sort();
        key.dedup();
        if key.is_empty() && self.axioms.is_empty() {
            self.model.clear();
            return Res::Sat;
        }
        if let Some(r) = self.cache.get(&key) {
            if !want_model || *r == Res::Unsat {
                self.stats.cache_hits += 1;
                return r.clone();
            }
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mut r = self.check_inc(s, &key, want_model);
        if r == Res::Unknown && self.solver.starts_with("z3") {
            let t = self.one_timeout_s;
            self.one_timeout_s = (t / 2).max(1);
            r = self.check_one(s, &key, want_model, None, "(check-sat-using (then simplify propagate-values bit-blast sat))\n");
            self.one_timeout_s = t;
        }
        if r == Res::Unknown {
            r = self.check_one(s, &key, want_model, None, "(check-sat)\n");
        }
        if self.crosscheck && r != Res::Unknown {
            self.stats.cross += 1;
            let r2 = self.check_one(s, &key, false, Some("cvc5 --lang smt2 --incremental"), "(check-sat)\n");
            if r2 != Res::Unknown && r2 != r {
                self.last_error = Some(format!("solver disagreement: {:?} vs cvc5 {:?}", r, r2));
                r = Res::Unknown;
            }
        }
        match r {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.stats.time += t0.elapsed().as_secs_f64();
        if r != Res::Unknown {
            self.cache.insert(key, r.clone());
        }
        r
    }
    fn check_inc(&mut self, s: &Store, key: &[T], want_model: bool) -> Res {
        if self.proc.is_none() {
            let mut p = spawn(&self.solver);
            let ms = if self.axioms.is_empty() { self.inc_timeout_ms } else { self.inc_timeout_ms.min(1000) };
            p.send(&format!("(set-option :produce-models true)\n(set-option :timeout {})\n", ms));
            self.proc = Some(p);
        }
        let axioms = self.axioms.clone();
        let p = self.proc.as_mut().unwrap();
        let mut out = String::new();
        if p.naxioms < axioms.len() {
            let new = &axioms[p.naxioms..];
            emit(s, new, &mut p.defined, &mut p.vars, &mut out);
            for a in new {
                writeln!(out, "(assert {})", batom(s, *a)).unwrap();
            }
            p.naxioms = axioms.len();
        }
        emit(s, key, &mut p.defined, &mut p.vars, &mut out);
        for t in key {
            if p.lits.insert(*t) {
                writeln!(out, "(declare-const b{} Bool)\n(assert (= b{} {}))", t, t, batom(s, *t)).unwrap();
            }
        }
        out.push_str("(check-sat-assuming (");
        for t in key {
            write!(out, "b{} ", t).unwrap();
        }
        out.push_str("))\n");
        if let Some(l) = &self.log {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(l).unwrap();
            let _ = f.write_all(out.as_bytes());
        }
        p.send(&out);
        let (r, err) = p.verdict();
        if let Some(e) = err {
            if e != "unknown" && e != "timeout" {
                self.last_error = Some(e);
                self.proc = None;
                return Res::Unknown;
            }
        }
        if r == Res::Sat && want_model {
            let mut all = key.to_vec();
            all.extend(axioms.iter());
            let vs = s.support(&all);
            let p = self.proc.as_mut().unwrap();
            self.model = p.values(s, &vs);
        }
        r
    }
    fn check_one(&mut self, s: &Store, key: &[T], want_model: bool, other: Option<&str>, cmd_check: &str) -> Res {
        self.stats.oneshot += 1;
        let cmd = match other {
            Some(o) => o.to_string(),
            None => self.solver.clone(),
        };
        let mut p = spawn(&cmd);
        let mut out = String::new();
        if other.is_some() {
            writeln!(out, "(set-option :tlimit-per {})\n(set-logic QF_BV)", self.one_timeout_s * 1000).unwrap();
        } else {
            writeln!(out, "(set-option :produce-models true)\n(set-option :timeout {})\n(set-logic QF_BV)", self.one_timeout_s * 1000).unwrap();
        }
        let mut all = self.axioms.clone();
        all.extend(key.iter());
        let mut def: FxSet<T> = Default::default();
        let mut vars: FxSet<u32> = Default::default();
        emit(s, &all, &mut def, &mut vars, &mut out);
        for a in &all {
            writeln!(out, "(assert {})", batom(s, *a)).unwrap();
        }
        out.push_str(cmd_check);
        if let Some(l) = &self.log {
            let _ = std::fs::write(format!("{}.one{}.smt2", l, self.stats.oneshot), &out);
        }
        p.send(&out);
        let (r, err) = p.verdict();
        if let Some(e) = err {
            if e != "unknown" && e != "timeout" {
                self.last_error = Some(e);
            }
        }
        if r == Res::Sat && want_model {
            let vs = s.support(&all);
            self.model = p.values(s, &vs);
        }
        r
    }
    /// Re-prove recorded table rewrites. Returns (proved, failed, unknown).
    pub fn validate(&mut self, s: &Store, max_entries: usize, budget: f64) -> (u64, u64, u64, u64) {
        let (mut ok, mut bad, mut unk, mut skipped) = (0, 0, 0, 0);
        let t0 = Instant::now();
        let mut p = spawn(&self.solver);
        p.send("(set-option :timeout 4000)\n");
        let mut batch: Vec<usize> = vec![];
        let mut out = String::new();
        let mut flush = |p: &mut Proc, out: &mut String, batch: &mut Vec<usize>, ok: &mut u64, bad: &mut u64, unk: &mut u64| {
            if batch.is_empty() {
                return;
            }
            p.send(out);
            for i in batch.iter() {
                match p.verdict() {
                    (Res::Unsat, _) => *ok += 1,
                    (Res::Sat, _) => {
                        *bad += 1;
                        eprintln!("REWRITE REFUTED: {:?}", s.templates[*i]);
                    }
                    (Res::Unknown, e) => {
                        *unk += 1;
                        eprintln!("rewrite undecided: {:?} {:?}", s.templates[*i].n, e);
                    }
                }
            }
            out.clear();
            batch.clear();
        };
        // spread evenly, until the time is used up
        let n = s.templates.len();
        let mut step = n * 618 / 1000 + 1;
        while n > 0 && (gcd(step, n) != 1) {
            step += 1;
        }
        for k in 0..n {
            let i = k * step % n;
            let t = &s.templates[i];
            if t0.elapsed().as_secs_f64() > budget {
                skipped += 1;
                continue;
            }
            let mut kids = vec![t.res];
            match &t.n {
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => kids.extend([*a, *b]),
                N::Ite(a, b, c) => kids.extend([*a, *b, *c]),
                N::Zext(a) | N::Sext(a) | N::Extract(a, _) => kids.push(*a),
                N::Bits(v) => kids.extend(v.iter()),
                _ => {}
            }
            let sz = s.support(&kids).iter().fold(1usize, |a, v| a.saturating_mul(s.vars[*v as usize].n as usize));
            if sz > max_entries {
                skipped += 1;
                continue;
            }
            let mut defs: FxSet<T> = std::mem::take(&mut p.defined);
            let mut vars: FxSet<u32> = std::mem::take(&mut p.vars);
            emit(s, &kids, &mut defs, &mut vars, &mut out);
            p.defined = defs;
            p.vars = vars;
            let (l, r) = if t.w == 1 { (bbody(s, &t.n), batom(s, t.res)) } else { (body(s, &t.n, t.w), atom(s, t.res)) };
            writeln!(out, "(push 1)\n(assert (not (= {} {})))\n(check-sat)\n(pop 1)", l, r).unwrap();
            batch.push(i);
            if batch.len() >= 8 {
                flush(&mut p, &mut out, &mut batch, &mut ok, &mut bad, &mut unk);
            }
        }
        flush(&mut p, &mut out, &mut batch, &mut ok, &mut bad, &mut unk);
        self.stats.time += t0.elapsed().as_secs_f64();
        (ok, bad, unk, skipped)
    }
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
