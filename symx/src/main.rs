mod exec;
mod ideal;
mod ll;
mod mem;
mod smt;
mod term;
use exec::*;
use ll::*;
use mem::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::Instant;

/// Readable path of a v0-mangled symbol: the length-prefixed identifiers in order.
pub fn short_name(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 14 {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 5 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + k <= b.len() {
                out.push(&n[j..j + k]);
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

struct Loader {
    mods: Vec<Module>,
    fidx: HashMap<String, u32>,
    fmod: HashMap<(usize, String), u32>,
    gaddr: HashMap<(usize, String), u64>,
    gglob: HashMap<String, u64>,
    alias: HashMap<String, String>,
    exts: Vec<(String, Ext)>,
    extidx: HashMap<String, u32>,
    noret: HashMap<String, bool>,
}

fn classify(n: &str, noreturn: bool) -> Ext {
    let has = |s: &str| n.ends_with(s);
    if has("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
        return Ext::AllocZeroed;
    }
    if has("___rust_alloc") || n == "__rust_alloc" {
        return Ext::Alloc;
    }
    if has("___rust_realloc") || n == "__rust_realloc" {
        return Ext::Realloc;
    }
    if has("___rust_dealloc") || n == "__rust_dealloc" {
        return Ext::Dealloc;
    }
    if n.contains("__rust_no_alloc_shim_is_unstable") {
        return Ext::Nop;
    }
    if n.contains("5alloc7raw_vecINtB5_6RawVec") && n.contains("E8grow_one") {
        let c = n.split("6RawVec").nth(1).unwrap().chars().next().unwrap();
        let es = match c {
            'h' | 'a' | 'b' => 1,
            't' | 's' => 2,
            'm' | 'l' | 'c' => 4,
            'j' | 'y' | 'x' | 'i' => 8,
            _ => 0,
        };
        if es != 0 {
            return Ext::GrowOne(es);
        }
    }
    if n.contains("hashmap_random_keys") {
        return Ext::MapKeys;
    }
    match n {
        "bcmp" => return Ext::Bcmp,
        "memcmp" => return Ext::Memcmp,
        "sx_trits" => return Ext::SxTrits,
        "sx_range" => return Ext::SxRange,
        "sx_int" => return Ext::SxInt,
        "sx_choose" => return Ext::SxChoose,
        "sx_assume" => return Ext::SxAssume,
        "sx_assert" => return Ext::SxAssert,
        "sx_assert_eq" => return Ext::SxAssertEq,
        "sx_cover" => return Ext::SxCover,
        "sx_uf" => return Ext::SxUf,
        "sx_mode" => return Ext::SxMode,
        "sx_concrete" => return Ext::SxConcrete,
        "sx_eq" => return Ext::SxEq,
        "sx_dump" => return Ext::SxDump,
        "sx_probe" => return Ext::SxProbe,
        "sx_feasible" => return Ext::SxFeasible,
        "sx_param" => return Ext::SxParam,
        _ => {}
    }
    if noreturn {
        return Ext::Panic;
    }
    Ext::Unknown
}

impl Loader {
    fn sym(&mut self, m: usize, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(&(m, n.to_string())) {
            return *a;
        }
        if let Some(f) = self.func(m, n) {
            return FUNC_BASE + ((f as u64) << 4);
        }
        if let Some(a) = self.gglob.get(n) {
            return *a;
        }
        let e = self.ext(n);
        EXT_BASE + ((e as u64) << 4)
    }
    fn func(&self, m: usize, n: &str) -> Option<u32> {
        if let Some(f) = self.fmod.get(&(m, n.to_string())) {
            return Some(*f);
        }
        if let Some(f) = self.fidx.get(n) {
            return Some(*f);
        }
        if let Some(t) = self.alias.get(n) {
            let t = t.clone();
            return self.func(m, &t);
        }
        None
    }
    fn ext(&mut self, n: &str) -> u32 {
        if let Some(e) = self.extidx.get(n) {
            return *e;
        }
        let k = classify(n, *self.noret.get(n).unwrap_or(&false));
        let e = self.exts.len() as u32;
        self.exts.push((n.to_string(), k));
        self.extidx.insert(n.to_string(), e);
        e
    }
    fn konst(&mut self, m: usize, c: &C, ty: &Ty) -> Result<V, String> {
        Ok(match c {
            C::Int(v) => {
                let w = ty.width();
                if w > 64 {
                    if *v >> 64 != 0 {
                        return Err("wide constant".into());
                    }
                }
                V::C(mask(*v, w.min(64)) as u64)
            }
            C::Null => V::C(0),
            C::Zero => match ty {
                t if t.is_scalar() => V::C(0),
                t => {
                    let n = t.nelem();
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(self.konst(m, &C::Zero, t.elem(i))?);
                    }
                    V::A(Rc::new(v))
                }
            },
            C::Undef => V::U,
            C::Sym(n, off) => V::C(self.sym(m, n).wrapping_add(*off as u64)),
            C::Agg(v) => {
                let mut out = vec![];
                for (i, x) in v.iter().enumerate() {
                    out.push(self.konst(m, x, ty.elem(i as u64))?);
                }
                V::A(Rc::new(out))
            }
            C::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
            C::PtrToInt(x) => self.konst(m, x, &Ty::Ptr)?,
            C::SubC(a, b) => {
                let (x, y) = (self.konst(m, a, ty)?, self.konst(m, b, ty)?);
                match (x, y) {
                    (V::C(x), V::C(y)) => V::C(x.wrapping_sub(y)),
                    _ => return Err("constant sub".into()),
                }
            }
        })
    }
    fn bytes(&mut self, m: usize, c: &C, ty: &Ty, out: &mut [u8]) -> Result<(), String> {
        match c {
            C::Zero | C::Null => {
                for b in out.iter_mut() {
                    *b = 0
                }
            }
            C::Undef => {}
            C::Bytes(b) => out[..b.len()].copy_from_slice(b),
            C::Agg(v) => {
                let (offs, _) = ty.layout();
                for (i, x) in v.iter().enumerate() {
                    let e = ty.elem(i as u64).clone();
                    let o = offs[i] as usize;
                    let n = e.size() as usize;
                    self.bytes(m, x, &e, &mut out[o..o + n])?;
                }
            }
            C::Int(v) => {
                let n = out.len();
                out.copy_from_slice(&v.to_le_bytes()[..n]);
            }
            _ => match self.konst(m, c, ty)? {
                V::C(v) => {
                    let n = out.len();
                    out.copy_from_slice(&v.to_le_bytes()[..n]);
                }
                _ => return Err("global initializer".into()),
            },
        }
        Ok(())
    }
}

fn load(files: &[String]) -> Result<Prog, String> {
    let mut l = Loader {
        mods: vec![],
        fidx: Default::default(),
        fmod: Default::default(),
        gaddr: Default::default(),
        gglob: Default::default(),
        alias: Default::default(),
        exts: vec![],
        extidx: Default::default(),
        noret: Default::default(),
    };
    for (i, f) in files.iter().enumerate() {
        let src = std::fs::read_to_string(f).map_err(|e| format!("{}: {}", f, e))?;
        l.mods.push(parse(&src, i).map_err(|e| format!("{}: {}", f, e))?);
    }
    let mut mem = Mem::default();
    let mut n = 0u32;
    for m in 0..l.mods.len() {
        for f in &l.mods[m].funcs {
            l.fmod.insert((m, f.name.clone()), n);
            l.fidx.entry(f.name.clone()).or_insert(n);
            n += 1;
        }
        for g in &l.mods[m].globals {
            if g.init.is_some() {
                let mut o = Obj::new(g.ty.size(), 0);
                o.ro = g.constant;
                let a = mem.alloc(o);
                l.gaddr.insert((m, g.name.clone()), a);
                l.gglob.entry(g.name.clone()).or_insert(a);
            }
        }
        for (a, b) in &l.mods[m].aliases {
            l.alias.insert(a.clone(), b.clone());
        }
        for (d, nr) in &l.mods[m].declares {
            *l.noret.entry(d.clone()).or_insert(false) |= *nr;
        }
    }
    let mods = std::mem::take(&mut l.mods);
    let mut poison = std::collections::HashSet::new();
    for (m, md) in mods.iter().enumerate() {
        for g in &md.globals {
            if let Some(c) = &g.init {
                let mut b = vec![0u8; g.ty.size() as usize];
                let a = l.gaddr[&(m, g.name.clone())];
                if l.bytes(m, c, &g.ty, &mut b).is_err() {
                    b.clear();
                    poison.insert(a);
                }
                mem.get_mut(a).unwrap().0.data = b;
            }
        }
    }
    let mut funcs = vec![];
    for (m, md) in mods.into_iter().enumerate() {
        for mut f in md.funcs {
            let mut consts = vec![];
            let mut bad = None;
            for (c, ty) in &f.consts {
                match l.konst(m, c, ty) {
                    Ok(v) => consts.push(v),
                    Err(e) => {
                        bad = Some(e);
                        break;
                    }
                }
            }
            if let Some(e) = bad {
                f = stub(f.name, f.module, f.lines, e);
                consts.clear();
            }
            for b in &mut f.blocks {
                for i in &mut b.ins {
                    if let I::Call(c, ..) = i {
                        if let Callee::Direct(n) = c {
                            let n = n.clone();
                            *c = match l.func(m, &n) {
                                Some(i) => Callee::Fn(i),
                                None => Callee::Ext(l.ext(&n)),
                            };
                        }
                    }
                }
            }
            let intercept = match f.name.as_str() {
                "iota_mam_verif_troika_permutation" => 1,
                _ => 0,
            };
            funcs.push(Rc::new(CFunc { f, consts, intercept }));
        }
    }
    Ok(Prog { funcs, byname: l.fidx, exts: l.exts, base_mem: mem, poison })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<A>(v: &[A], f: impl Fn(&A) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut files = vec![];
    let mut harness = String::new();
    let mut out = None;
    let mut solver = "z3-new -in".to_string();
    let mut timeout = 800.0;
    let mut max_paths = u64::MAX;
    let mut trace = false;
    let mut validate = 0usize;
    let mut validate_s = 3.0f64;
    let mut probe = None;
    let mut params = vec![];
    let mut cross = false;
    let mut log = None;
    let mut stats_at_end = false;
    let mut tab_cap = 0usize;
    let mut one = 120u64;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--ll" => files.push(v()),
            "--harness" => harness = v(),
            "--out" => out = Some(v()),
            "--solver" => solver = v(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--one" => one = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--validate-s" => validate_s = v().parse().unwrap(),
            "--validate" => validate = v().parse().unwrap(),
            "--tab-cap" => tab_cap = v().parse().unwrap(),
            "--probe" => probe = Some(v()),
            "--param" => params.push(v().parse().unwrap()),
            "--trace" => trace = true,
            "--stats" => stats_at_end = true,
            "--cross" => cross = true,
            "--log" => log = Some(v()),
            x => panic!("unknown option {}", x),
        }
    }
    let t0 = Instant::now();
    let files2 = files.clone();
    let th = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || {
            let prog = match load(&files2) {
                Ok(p) => Rc::new(p),
                Err(e) => {
                    let r = format!("{{\"result\":\"error\",\"error\":{}}}", js(&format!("load: {}", e)));
                    match &out {
                        Some(o) => std::fs::write(o, r).unwrap(),
                        None => println!("{}", r),
                    }
                    return 3;
                }
            };
            let load_s = t0.elapsed().as_secs_f64();
            let mut e = Engine::new(prog.clone(), &solver);
            e.trace = trace;
            e.max_paths = max_paths;
            e.params = params;
            e.smt.crosscheck = cross;
            e.smt.log = log;
            e.smt.one_timeout_s = one;
            if tab_cap > 0 {
                e.s.tab_cap = tab_cap;
            }
            e.deadline = Instant::now() + std::time::Duration::from_secs_f64(timeout);
            let mut err: Option<String> = None;
            if let Some(p) = probe {
                match e.initial(&p).and_then(|st| e.explore(st)) {
                    Ok(()) => e.finish_probe(),
                    Err(x) => err = Some(format!("probe: {}", x)),
                }
                if !e.probe.ok && err.is_none() {
                    err = Some("permutation state layout could not be determined".into());
                }
                e.violation = None;
                e.stats = Default::default();
                for x in e.executed.iter_mut() {
                    *x = false
                }
                e.fork_sites.clear();
                e.sampled.clear();
            }
            if err.is_none() {
                match e.initial(&harness).and_then(|st| e.explore(st)) {
                    Ok(()) => {}
                    Err(x) => err = Some(x),
                }
            }
            let val = if validate > 0 && err.is_none() { e.smt.validate(&e.s, validate, validate_s) } else { (0, 0, 0, 0) };
            if val.1 > 0 {
                err = Some(format!("{} table rewrites refuted by the solver", val.1));
            }
            let mut r = String::from("{");
            let res = if e.violation.is_some() {
                "violation"
            } else if err.is_some() {
                "error"
            } else {
                "ok"
            };
            write!(r, "\"result\":{}", js(res)).unwrap();
            if let Some(x) = &err {
                write!(r, ",\"error\":{}", js(x)).unwrap();
            }
            if let Some(v) = &e.violation {
                write!(
                    r,
                    ",\"violation\":{{\"kind\":{},\"msg\":{},\"uf\":{},\"inputs\":{},\"trace\":{}}}",
                    js(&v.kind),
                    js(&v.msg),
                    v.uf,
                    jl(&v.inputs, |x| format!("{}", *x as u64 as i64)),
                    jl(&v.trace, |x| js(x))
                )
                .unwrap();
            }
            let st = &e.stats;
            write!(
                r,
                ",\"paths\":{},\"dead\":{},\"instrs\":{},\"forks\":{},\"merges\":{},\"quick_merges\":{},\"merge_fail\":{},\"asserts\":{},\"asserts_simplified\":{},\"asserts_smt\":{},\"uf_apps\":{},\"axioms\":{}",
                st.paths, st.dead, st.instrs, st.forks, st.merges, st.quick_merges, st.merge_fail, st.asserts, st.asserts_simpl, st.asserts_smt, st.apps, st.axioms
            )
            .unwrap();
            let q = &e.smt.stats;
            write!(
                r,
                ",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"oneshot\":{},\"cache_hits\":{},\"crosschecked\":{}",
                q.queries, q.sat, q.unsat, q.unknown, q.time, q.oneshot, q.cache_hits, q.cross
            )
            .unwrap();
            write!(
                r,
                ",\"terms\":{},\"vars\":{},\"table_ops\":{},\"templates\":{},\"validated\":{},\"validate_unknown\":{},\"validate_skipped\":{}",
                e.s.nodes.len(),
                e.s.vars.len(),
                e.s.tab_ops,
                e.s.templates.len(),
                val.0,
                val.2,
                val.3
            )
            .unwrap();
            write!(r, ",\"covers\":{}", jl(&e.covers.iter().collect::<Vec<_>>(), |c| format!("[{},{}]", c.0, c.1))).unwrap();
            let mut fns: Vec<String> = e
                .executed
                .iter()
                .enumerate()
                .filter(|(_, x)| **x)
                .map(|(i, _)| short_name(&prog.funcs[i].f.name))
                .collect();
            fns.sort();
            fns.dedup();
            write!(r, ",\"functions\":{}", jl(&fns, |x| js(x))).unwrap();
            write!(r, ",\"samples\":{}", jl(&e.sampled, |s| jl(s, |x| format!("{}", *x as u64 as i64)))).unwrap();
            write!(r, ",\"digest\":\"{:016x}\"", e.digest).unwrap();
            let mut sites: Vec<_> = e.fork_sites.iter().collect();
            sites.sort_by(|a, b| b.1.cmp(a.1));
            if stats_at_end {
                for (s, n) in sites.iter().take(20) {
                    eprintln!("fork site {} {}", s, n);
                }
            }
            write!(r, ",\"load_s\":{:.2},\"wall_s\":{:.2}}}", load_s, t0.elapsed().as_secs_f64()).unwrap();
            match &out {
                Some(o) => std::fs::write(o, &r).unwrap(),
                None => println!("{}", r),
            }
            match res {
                "ok" => 0,
                "violation" => 1,
                _ => 3,
            }
        })
        .unwrap();
    let code = th.join().unwrap_or(4);
    std::process::exit(code);
}
