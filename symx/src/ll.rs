//! Parser for the textual LLVM IR emitted by rustc (opaque pointers), into a
//! compact executable form. Anything not understood is an error: nothing is
//! silently skipped except attributes and metadata.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Float(u32),
    Meta,
    Label,
    Func,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(_, _) => self.size().next_power_of_two(),
            Ty::Float(w) => *w as u64 / 8,
            _ => 1,
        }
    }
    /// Allocation size (padded).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label | Ty::Func => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => (n * *w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(..) => {
                let (offs, sz) = self.layout();
                let _ = offs;
                sz
            }
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                let mut offs = vec![];
                for t in ts.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    offs.push(o);
                    o += t.size();
                }
                let a = self.align();
                (offs, (o + a - 1) / a * a)
            }
            Ty::Arr(n, t) => {
                let s = t.size();
                ((0..*n).map(|i| i * s).collect(), n * s)
            }
            Ty::Vec(n, t) => {
                let s = t.size();
                ((0..*n).map(|i| i * s).collect(), n * s)
            }
            _ => (vec![0], self.size()),
        }
    }
    /// Bit width of a first-class scalar.
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
    pub fn elem(&self, i: u64) -> &Ty {
        match self {
            Ty::Struct(ts, _) => &ts[i as usize],
            Ty::Arr(_, t) => t,
            Ty::Vec(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn nelem(&self) -> u64 {
        match self {
            Ty::Struct(ts, _) => ts.len() as u64,
            Ty::Arr(n, _) => *n,
            Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
}

/// Constant expression.
#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Null,
    Zero,
    Undef,
    Sym(String, i64), // global + byte offset
    Agg(Vec<C>),
    Bytes(Vec<u8>),
    PtrToInt(Box<C>),
    SubC(Box<C>, Box<C>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Same, // ptrtoint, inttoptr, bitcast, freeze (same width or adjusted by zext/trunc)
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bop, u32, O, O, u32),
    Cmp(Pred, u32, O, O, u32),
    Cast(Cast, u32, u32, O, u32),
    Select(O, O, O, u32),
    Load(Rc<Ty>, O, u32),
    Store(Rc<Ty>, O, O),
    Gep(O, i64, Vec<(O, u32, u64)>, u32), // base, const offset, (index, width, scale)
    Alloca(u64, u32),
    Call(Callee, Vec<O>, u32, Rc<Ty>),
    Extract(O, Vec<u32>, u32),
    Insert(O, O, Vec<u32>, Rc<Ty>, u32),
    VExtract(O, O, u32),
    VInsert(O, O, O, u64, u32),
    VShuffle(O, O, Vec<i64>, u64, u32),
    VBin(Bop, u32, O, O, u32),
    VCmp(Pred, u32, O, O, u32),
    VCast(Cast, u32, u32, O, u32),
    BitcastV(Rc<Ty>, Rc<Ty>, O, u32),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(O, u32, Vec<(u128, u32)>, u32),
    Ret(Option<O>),
    Unreachable,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(O),
    Fn(u32),
    Ext(u32),
    Intr(Intr, u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memmove,
    Memset,
    UMin,
    UMax,
    SMin,
    SMax,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Fshl,
    Fshr,
    Expect,
    Addr,
    Trap,
    Bitreverse,
    Scmp,
    Ucmp,
    VMoveMask,
    VReduceAdd,
    VReduceOr,
    VReduceAnd,
    VReduceXor,
    MaskedLoad,
    Assume,
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<I>,
    /// Registers live on entry (after phis), for state merging.
    pub live: Vec<u32>,
    pub ipdom: Option<u32>,
    pub succ: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub module: usize,
    pub nparams: usize,
    pub nregs: usize,
    pub regty: Vec<Ty>,
    pub consts: Vec<(C, Ty)>,
    pub blocks: Vec<Block>,
    pub ret: Ty,
    pub lines: usize,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
}

#[derive(Default, Debug)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, String)>,
    pub declares: HashMap<String, bool>, // name -> noreturn
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),
    L(String),
    G(String),
    M(&'a str),
    S(Vec<u8>),
    H(&'a str),
    P(char),
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(s: &str) -> Result<Vec<T<'_>>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' | b'!' | b'#' => {
                let st = i + 1;
                if st < b.len() && b[st] == b'"' {
                    let mut j = st + 1;
                    while j < b.len() && b[j] != b'"' {
                        j += 1;
                    }
                    let n = s[st + 1..j].to_string();
                    out.push(match c {
                        b'%' => T::L(n),
                        b'@' => T::G(n),
                        b'!' => T::M(&s[st..j]),
                        _ => T::H(&s[st..j]),
                    });
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    let n = &s[st..j];
                    out.push(match c {
                        b'%' => T::L(n.to_string()),
                        b'@' => T::G(n.to_string()),
                        b'!' => T::M(n),
                        _ => T::H(n),
                    });
                    i = j;
                }
            }
            b'"' => {
                let (v, j) = lex_str(b, i + 1)?;
                out.push(T::S(v));
                i = j;
            }
            _ if is_id(c) => {
                if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
                    let (v, j) = lex_str(b, i + 2)?;
                    out.push(T::S(v));
                    i = j;
                    continue;
                }
                let mut j = i;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                out.push(T::W(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    Ok(out)
}

fn lex_str(b: &[u8], mut i: usize) -> Result<(Vec<u8>, usize), String> {
    let mut v = vec![];
    while i < b.len() && b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).map_err(|e| e.to_string())?;
            v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    Ok((v, i + 1))
}

struct P<'a> {
    t: Vec<T<'a>>,
    i: usize,
    types: &'a HashMap<String, Ty>,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn new(s: &'a str, types: &'a HashMap<String, Ty>) -> R<P<'a>> {
        Ok(P { t: lex(s)?, i: 0, types })
    }
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T<'a>> {
        let r = self.t.get(self.i).cloned().ok_or("unexpected end of line")?;
        self.i += 1;
        Ok(r)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.peek() == Some(&T::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if let Some(T::W(x)) = self.peek() {
            if *x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn expp(&mut self, c: char) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at token {} got {:?}", c, self.i, self.peek()))
        }
    }
    fn expw(&mut self, w: &str) -> R<()> {
        if self.eatw(w) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", w, self.peek()))
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => {
                *w == "void"
                    || *w == "ptr"
                    || *w == "float"
                    || *w == "double"
                    || *w == "half"
                    || *w == "metadata"
                    || *w == "label"
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::L(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        let r = match t {
            T::W("void") => Ty::Void,
            T::W("ptr") => Ty::Ptr,
            T::W("float") => Ty::Float(32),
            T::W("double") => Ty::Float(64),
            T::W("half") => Ty::Float(16),
            T::W("metadata") => Ty::Meta,
            T::W("label") => Ty::Label,
            T::W(w) if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("bad type {}", w))?),
            T::P('[') => {
                let n = self.num()? as u64;
                self.expw("x")?;
                let e = self.ty()?;
                self.expp(']')?;
                Ty::Arr(n, Rc::new(e))
            }
            T::P('{') => {
                let mut v = vec![];
                if !self.eatp('}') {
                    loop {
                        v.push(self.ty()?);
                        if self.eatp('}') {
                            break;
                        }
                        self.expp(',')?;
                    }
                }
                Ty::Struct(Rc::new(v), false)
            }
            T::P('<') => {
                if self.eatp('{') {
                    let mut v = vec![];
                    if !self.eatp('}') {
                        loop {
                            v.push(self.ty()?);
                            if self.eatp('}') {
                                break;
                            }
                            self.expp(',')?;
                        }
                    }
                    self.expp('>')?;
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num()? as u64;
                    self.expw("x")?;
                    let e = self.ty()?;
                    self.expp('>')?;
                    Ty::Vec(n, Rc::new(e))
                }
            }
            T::L(n) => self.types.get(&n).cloned().ok_or(format!("unknown type %{}", n))?,
            t => return Err(format!("bad type token {:?}", t)),
        };
        // function type "void (ptr)" only in aliases/indirect calls with varargs
        if self.peek() == Some(&T::P('(')) && !matches!(r, Ty::Label) {
            // lookahead: is it a function type? only when followed by type or ')'
            let save = self.i;
            self.i += 1;
            if self.is_type_start() || self.peek() == Some(&T::P(')')) {
                let mut depth = 1;
                while depth > 0 {
                    match self.next()? {
                        T::P('(') => depth += 1,
                        T::P(')') => depth -= 1,
                        _ => {}
                    }
                }
                return Ok(Ty::Func);
            }
            self.i = save;
        }
        Ok(r)
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            T::W(w) => w.parse().map_err(|_| format!("bad number {}", w)),
            t => Err(format!("bad number {:?}", t)),
        }
    }
    /// Skip parameter/return attributes up to a value or type.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    let w = *w;
                    if self.is_type_start() {
                        return;
                    }
                    if w.starts_with(|c: char| c.is_ascii_digit() || c == '-')
                        || matches!(
                            w,
                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "sub" | "trunc" | "add" | "asm"
                        )
                    {
                        return;
                    }
                    self.i += 1;
                    if w == "align" && matches!(self.peek(), Some(T::W(_))) {
                        self.i += 1;
                        continue;
                    }
                    if self.peek() == Some(&T::P('(')) {
                        let mut d = 0;
                        loop {
                            match self.peek() {
                                Some(T::P('(')) => d += 1,
                                Some(T::P(')')) => d -= 1,
                                None => return,
                                _ => {}
                            }
                            self.i += 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                }
                Some(T::S(_)) => {
                    // "attr"="value"
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<C> {
        let t = self.next()?;
        Ok(match t {
            T::W("true") => C::Int(1),
            T::W("false") => C::Int(0),
            T::W("null") => C::Null,
            T::W("undef") | T::W("poison") => C::Undef,
            T::W("zeroinitializer") => C::Zero,
            T::W("splat") => {
                self.expp('(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                self.expp(')')?;
                C::Agg((0..ty.nelem()).map(|_| c.clone()).collect())
            }
            T::W("getelementptr") => {
                while let Some(T::W(w)) = self.peek() {
                    if *w == "inbounds" || *w == "nuw" || *w == "nusw" {
                        self.i += 1;
                    } else if *w == "inrange" {
                        self.skip_attrs();
                    } else {
                        break;
                    }
                }
                self.expp('(')?;
                let bt = self.ty()?;
                self.expp(',')?;
                let pt = self.ty()?;
                let base = self.konst(&pt)?;
                let mut off: i64 = 0;
                let mut cur = bt;
                let mut first = true;
                while self.eatp(',') {
                    let it = self.ty()?;
                    let k = self.konst(&it)?;
                    let k = match k {
                        C::Int(v) => sx(v, it.width()) as i64,
                        C::Zero | C::Null => 0,
                        _ => return Err("gep const index".into()),
                    };
                    if first {
                        off += k * cur.size() as i64;
                        first = false;
                    } else {
                        let (offs, _) = cur.layout();
                        if let Ty::Struct(..) = cur {
                            off += offs[k as usize] as i64;
                        } else {
                            off += k * cur.elem(0).size() as i64;
                        }
                        cur = cur.elem(k as u64).clone();
                    }
                }
                self.expp(')')?;
                match base {
                    C::Sym(n, o) => C::Sym(n, o + off),
                    C::Null => C::Int(off as u64 as u128),
                    C::Int(v) => C::Int((v as u64).wrapping_add(off as u64) as u128),
                    b => return Err(format!("gep base {:?}", b)),
                }
            }
            T::W("ptrtoint") => {
                self.expp('(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                self.expw("to")?;
                self.ty()?;
                self.expp(')')?;
                C::PtrToInt(Box::new(c))
            }
            T::W("inttoptr") => {
                self.expp('(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                self.expw("to")?;
                self.ty()?;
                self.expp(')')?;
                c
            }
            T::W("trunc") => {
                self.expp('(')?;
                let t = self.ty()?;
                let c = self.konst(&t)?;
                self.expw("to")?;
                self.ty()?;
                self.expp(')')?;
                c
            }
            T::W("sub") | T::W("add") => {
                while self.eatw("nuw") || self.eatw("nsw") {}
                self.expp('(')?;
                let t = self.ty()?;
                let a = self.konst(&t)?;
                self.expp(',')?;
                let t = self.ty()?;
                let b = self.konst(&t)?;
                self.expp(')')?;
                C::SubC(Box::new(a), Box::new(b))
            }
            T::W(w) => {
                let v: i128 = w.parse().map_err(|_| format!("bad const {}", w))?;
                C::Int(mask(v as u128, ty.width().max(1)))
            }
            T::G(n) => C::Sym(n, 0),
            T::S(b) => C::Bytes(b),
            T::P('<') => {
                if self.eatp('{') {
                    let v = self.klist('}')?;
                    self.expp('>')?;
                    C::Agg(v)
                } else {
                    let v = self.klist('>')?;
                    C::Agg(v)
                }
            }
            T::P('[') => C::Agg(self.klist(']')?),
            T::P('{') => C::Agg(self.klist('}')?),
            t => return Err(format!("bad const {:?}", t)),
        })
    }
    fn klist(&mut self, end: char) -> R<Vec<C>> {
        let mut v = vec![];
        if self.eatp(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eatp(end) {
                return Ok(v);
            }
            self.expp(',')?;
        }
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

struct FB<'a> {
    regs: HashMap<String, u32>,
    regty: Vec<Ty>,
    consts: Vec<(C, Ty)>,
    blocks: HashMap<String, u32>,
    types: &'a HashMap<String, Ty>,
}

impl<'a> FB<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regty.len() as u32;
        self.regs.insert(n.to_string(), r);
        self.regty.push(Ty::Void);
        r
    }
    fn def(&mut self, n: &str, t: Ty) -> u32 {
        let r = self.reg(n);
        self.regty[r as usize] = t;
        r
    }
    fn val(&mut self, p: &mut P, ty: &Ty) -> R<O> {
        if let Some(T::L(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Ok(O::R(self.reg(&n)));
        }
        if *ty == Ty::Meta {
            // metadata operand: skip a metadata node or literal
            p.next()?;
            while let Some(T::P(c)) = p.peek() {
                if *c == ',' || *c == ')' {
                    break;
                }
                p.i += 1;
            }
            return Ok(self.k(C::Int(0), Ty::Int(64)));
        }
        let c = p.konst(ty)?;
        Ok(self.k(c, ty.clone()))
    }
    fn k(&mut self, c: C, t: Ty) -> O {
        let i = self.consts.len() as u32;
        self.consts.push((c, t));
        O::K(i)
    }
    fn tval(&mut self, p: &mut P) -> R<(Ty, O)> {
        let t = p.ty()?;
        p.skip_attrs();
        let v = self.val(p, &t)?;
        Ok((t, v))
    }
    fn label(&mut self, p: &mut P) -> R<u32> {
        p.expw("label")?;
        match p.next()? {
            T::L(n) => self.blocks.get(&n).cloned().ok_or(format!("no block {}", n)),
            t => Err(format!("bad label {:?}", t)),
        }
    }
}

fn intr(n: &str) -> Option<Intr> {
    use Intr::*;
    let n = n.strip_prefix("llvm.")?;
    let table: &[(&str, Intr)] = &[
        ("lifetime.", Nop),
        ("experimental.noalias.scope.decl", Nop),
        ("dbg.", Nop),
        ("prefetch", Nop),
        ("donothing", Nop),
        ("assume", Assume),
        ("memcpy.", Memcpy),
        ("memmove.", Memmove),
        ("memset.", Memset),
        ("umin.", UMin),
        ("umax.", UMax),
        ("smin.", SMin),
        ("smax.", SMax),
        ("uadd.with.overflow.", UAddO),
        ("usub.with.overflow.", USubO),
        ("umul.with.overflow.", UMulO),
        ("sadd.with.overflow.", SAddO),
        ("ssub.with.overflow.", SSubO),
        ("smul.with.overflow.", SMulO),
        ("uadd.sat.", UAddSat),
        ("usub.sat.", USubSat),
        ("sadd.sat.", SAddSat),
        ("ssub.sat.", SSubSat),
        ("abs.", Abs),
        ("ctlz.", Ctlz),
        ("cttz.", Cttz),
        ("ctpop.", Ctpop),
        ("bswap.", Bswap),
        ("bitreverse.", Bitreverse),
        ("fshl.", Fshl),
        ("fshr.", Fshr),
        ("expect.", Expect),
        ("threadlocal.address.", Addr),
        ("trap", Trap),
        ("scmp.", Scmp),
        ("ucmp.", Ucmp),
        ("x86.sse2.pmovmskb", VMoveMask),
        ("vector.reduce.add.", VReduceAdd),
        ("vector.reduce.or.", VReduceOr),
        ("vector.reduce.and.", VReduceAnd),
        ("vector.reduce.xor.", VReduceXor),
    ];
    for (p, i) in table {
        if n.starts_with(p) {
            return Some(*i);
        }
    }
    None
}

fn bop(w: &str) -> Option<Bop> {
    Some(match w {
        "add" => Bop::Add,
        "sub" => Bop::Sub,
        "mul" => Bop::Mul,
        "udiv" => Bop::UDiv,
        "sdiv" => Bop::SDiv,
        "urem" => Bop::URem,
        "srem" => Bop::SRem,
        "shl" => Bop::Shl,
        "lshr" => Bop::LShr,
        "ashr" => Bop::AShr,
        "and" => Bop::And,
        "or" => Bop::Or,
        "xor" => Bop::Xor,
        _ => return None,
    })
}

fn pred(w: &str) -> Option<Pred> {
    Some(match w {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        _ => return None,
    })
}

enum Parsed {
    Phi(u32, Vec<(u32, O)>),
    Ins(I),
    None,
}

fn instr(f: &mut FB, line: &str) -> R<Parsed> {
    let types = f.types;
    let mut p = P::new(line, types)?;
    let mut dst: Option<String> = None;
    if let Some(T::L(n)) = p.peek() {
        dst = Some(n.clone());
        p.i += 1;
        p.expp('=')?;
    }
    let d = dst.clone();
    let dname = move || d.clone().ok_or("no destination".to_string());
    let w = match p.next()? {
        T::W(w) => w,
        T::H(_) => return Ok(Parsed::None), // debug record
        t => return Err(format!("bad opcode {:?}", t)),
    };
    if let Some(op) = bop(w) {
        while p.eatw("nuw") || p.eatw("nsw") || p.eatw("exact") || p.eatw("disjoint") {}
        let (t, a) = f.tval(&mut p)?;
        p.expp(',')?;
        let b = f.val(&mut p, &t)?;
        let d = f.def(&dname()?, t.clone());
        return Ok(Parsed::Ins(match &t {
            Ty::Vec(_, e) => I::VBin(op, e.width(), a, b, d),
            _ => I::Bin(op, t.width(), a, b, d),
        }));
    }
    match w {
        "icmp" => {
            p.eatw("samesign");
            let pr = match p.next()? {
                T::W(w) => pred(w).ok_or(format!("bad icmp {}", w))?,
                _ => return Err("icmp".into()),
            };
            let (t, a) = f.tval(&mut p)?;
            p.expp(',')?;
            let b = f.val(&mut p, &t)?;
            Ok(Parsed::Ins(match &t {
                Ty::Vec(n, e) => {
                    let d = f.def(&dname()?, Ty::Vec(*n, Rc::new(Ty::Int(1))));
                    I::VCmp(pr, e.width(), a, b, d)
                }
                _ => {
                    let d = f.def(&dname()?, Ty::Int(1));
                    I::Cmp(pr, t.width(), a, b, d)
                }
            }))
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            while p.eatw("nneg") || p.eatw("nuw") || p.eatw("nsw") {}
            let (t, a) = f.tval(&mut p)?;
            p.expw("to")?;
            let to = p.ty()?;
            let d = f.def(&dname()?, to.clone());
            if w == "bitcast" {
                return Ok(Parsed::Ins(I::BitcastV(Rc::new(t), Rc::new(to), a, d)));
            }
            let k = match w {
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "trunc" => Cast::Trunc,
                _ => Cast::Same,
            };
            Ok(Parsed::Ins(match (&t, &to) {
                (Ty::Vec(_, a1), Ty::Vec(_, b1)) => I::VCast(k, a1.width(), b1.width(), a, d),
                _ => I::Cast(k, t.width(), to.width(), a, d),
            }))
        }
        "freeze" => {
            let (t, a) = f.tval(&mut p)?;
            let d = f.def(&dname()?, t.clone());
            Ok(Parsed::Ins(I::Cast(Cast::Same, t.width(), t.width(), a, d)))
        }
        "select" => {
            let (_, c) = f.tval(&mut p)?;
            p.expp(',')?;
            let (t, a) = f.tval(&mut p)?;
            p.expp(',')?;
            let (_, b) = f.tval(&mut p)?;
            let d = f.def(&dname()?, t);
            Ok(Parsed::Ins(I::Select(c, a, b, d)))
        }
        "load" => {
            if p.eatw("atomic") {}
            p.eatw("volatile");
            let t = p.ty()?;
            p.expp(',')?;
            let (_, a) = f.tval(&mut p)?;
            let d = f.def(&dname()?, t.clone());
            Ok(Parsed::Ins(I::Load(Rc::new(t), a, d)))
        }
        "store" => {
            if p.eatw("atomic") {}
            p.eatw("volatile");
            let (t, v) = f.tval(&mut p)?;
            p.expp(',')?;
            let (_, a) = f.tval(&mut p)?;
            Ok(Parsed::Ins(I::Store(Rc::new(t), v, a)))
        }
        "getelementptr" => {
            loop {
                if p.eatw("inbounds") || p.eatw("nuw") || p.eatw("nusw") {
                    continue;
                }
                if let Some(T::W("inrange")) = p.peek() {
                    p.skip_attrs();
                    continue;
                }
                break;
            }
            let bt = p.ty()?;
            p.expp(',')?;
            let (pt, base) = f.tval(&mut p)?;
            if pt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = bt;
            let mut first = true;
            while p.eatp(',') {
                if let Some(T::M(_)) = p.peek() {
                    break;
                }
                let it = p.ty()?;
                let o = f.val(&mut p, &it)?;
                let kc = match &o {
                    O::K(k) => match &f.consts[*k as usize].0 {
                        C::Int(v) => Some(sx(*v, it.width()) as i64),
                        C::Zero | C::Null => Some(0),
                        _ => None,
                    },
                    _ => None,
                };
                if first {
                    first = false;
                    match kc {
                        Some(k) => off += k * cur.size() as i64,
                        None => idx.push((o, it.width(), cur.size())),
                    }
                } else if let Ty::Struct(..) = cur {
                    let k = kc.ok_or("struct gep index")?;
                    off += cur.layout().0[k as usize] as i64;
                    cur = cur.elem(k as u64).clone();
                } else {
                    let e = cur.elem(0).clone();
                    match kc {
                        Some(k) => off += k * e.size() as i64,
                        None => idx.push((o, it.width(), e.size())),
                    }
                    cur = e;
                }
            }
            let d = f.def(&dname()?, Ty::Ptr);
            Ok(Parsed::Ins(I::Gep(base, off, idx, d)))
        }
        "alloca" => {
            let t = p.ty()?;
            let mut n = 1;
            if p.eatp(',') {
                if p.is_type_start() {
                    let (_, c) = f.tval(&mut p)?;
                    n = match c {
                        O::K(k) => match f.consts[k as usize].0 {
                            C::Int(v) => v as u64,
                            _ => return Err("alloca count".into()),
                        },
                        _ => return Err("dynamic alloca".into()),
                    };
                }
            }
            let d = f.def(&dname()?, Ty::Ptr);
            Ok(Parsed::Ins(I::Alloca(t.size() * n, d)))
        }
        "tail" | "musttail" | "notail" | "call" => {
            if w != "call" {
                p.expw("call")?;
            }
            // calling convention and return attributes
            p.skip_attrs();
            let rt = p.ty()?;
            let callee = match p.next()? {
                T::G(n) => Callee::Direct(n),
                T::L(n) => Callee::Indirect(O::R(f.reg(&n))),
                T::W("asm") => return parse_asm(&mut p),
                t => return Err(format!("callee {:?}", t)),
            };
            p.expp('(')?;
            let mut args = vec![];
            let mut meta = false;
            if !p.eatp(')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Meta {
                        meta = true;
                        let mut dep = 1;
                        while dep > 0 {
                            match p.next()? {
                                T::P('(') => dep += 1,
                                T::P(')') => dep -= 1,
                                _ => {}
                            }
                        }
                        break;
                    }
                    p.skip_attrs();
                    args.push(f.val(&mut p, &t)?);
                    if p.eatp(')') {
                        break;
                    }
                    p.expp(',')?;
                }
            }
            if meta {
                return Ok(Parsed::None);
            }
            let d = match dname() {
                Ok(n) => f.def(&n, rt.clone()),
                Err(_) => u32::MAX,
            };
            let callee = match callee {
                Callee::Direct(n) if n.starts_with("llvm.") => {
                    let i = match intr(&n) {
                        Some(i) => i,
                        None => return Err(format!("unknown intrinsic {}", n)),
                    };
                    // operand width from the result/first-argument suffix
                    let suffix = n.rsplit('.').next().unwrap_or("");
                    let wd = if suffix.starts_with('i') {
                        suffix[1..].parse().unwrap_or(0)
                    } else if suffix.starts_with('v') {
                        suffix.split('i').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0)
                    } else {
                        0
                    };
                    Callee::Intr(i, wd)
                }
                c => c,
            };
            Ok(Parsed::Ins(I::Call(callee, args, d, Rc::new(rt))))
        }
        "extractvalue" => {
            let (t, a) = f.tval(&mut p)?;
            let mut ix = vec![];
            let mut cur = t;
            while p.eatp(',') {
                if let Some(T::M(_)) = p.peek() {
                    break;
                }
                let k = p.num()? as u32;
                ix.push(k);
                cur = cur.elem(k as u64).clone();
            }
            let d = f.def(&dname()?, cur);
            Ok(Parsed::Ins(I::Extract(a, ix, d)))
        }
        "insertvalue" => {
            let (t, a) = f.tval(&mut p)?;
            p.expp(',')?;
            let (_, v) = f.tval(&mut p)?;
            let mut ix = vec![];
            while p.eatp(',') {
                if let Some(T::M(_)) = p.peek() {
                    break;
                }
                ix.push(p.num()? as u32);
            }
            let d = f.def(&dname()?, t.clone());
            Ok(Parsed::Ins(I::Insert(a, v, ix, Rc::new(t), d)))
        }
        "extractelement" => {
            let (t, a) = f.tval(&mut p)?;
            p.expp(',')?;
            let (_, i) = f.tval(&mut p)?;
            let d = f.def(&dname()?, t.elem(0).clone());
            Ok(Parsed::Ins(I::VExtract(a, i, d)))
        }
        "insertelement" => {
            let (t, a) = f.tval(&mut p)?;
            p.expp(',')?;
            let (_, v) = f.tval(&mut p)?;
            p.expp(',')?;
            let (_, i) = f.tval(&mut p)?;
            let d = f.def(&dname()?, t.clone());
            Ok(Parsed::Ins(I::VInsert(a, v, i, t.nelem(), d)))
        }
        "shufflevector" => {
            let (t, a) = f.tval(&mut p)?;
            p.expp(',')?;
            let (_, b) = f.tval(&mut p)?;
            p.expp(',')?;
            let mt = p.ty()?;
            let m = p.konst(&mt)?;
            let n = mt.nelem();
            let mv: Vec<i64> = match m {
                C::Zero => vec![0; n as usize],
                C::Undef => vec![-1; n as usize],
                C::Agg(v) => v
                    .iter()
                    .map(|c| match c {
                        C::Int(k) => *k as i64,
                        _ => -1,
                    })
                    .collect(),
                _ => return Err("shuffle mask".into()),
            };
            let d = f.def(&dname()?, Ty::Vec(n, Rc::new(t.elem(0).clone())));
            Ok(Parsed::Ins(I::VShuffle(a, b, mv, t.nelem(), d)))
        }
        "phi" => {
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.expp('[')?;
                let o = f.val(&mut p, &t)?;
                p.expp(',')?;
                let b = match p.next()? {
                    T::L(n) => *f.blocks.get(&n).ok_or(format!("no block {}", n))?,
                    t => return Err(format!("phi {:?}", t)),
                };
                p.expp(']')?;
                v.push((b, o));
                if !p.eatp(',') {
                    break;
                }
                if let Some(T::M(_)) = p.peek() {
                    break;
                }
            }
            let d = f.def(&dname()?, t);
            Ok(Parsed::Phi(d, v))
        }
        "br" => {
            if let Some(T::W("label")) = p.peek() {
                return Ok(Parsed::Ins(I::Br(f.label(&mut p)?)));
            }
            let (_, c) = f.tval(&mut p)?;
            p.expp(',')?;
            let a = f.label(&mut p)?;
            p.expp(',')?;
            let b = f.label(&mut p)?;
            Ok(Parsed::Ins(I::CondBr(c, a, b)))
        }
        "switch" => {
            let (t, v) = f.tval(&mut p)?;
            p.expp(',')?;
            let def = f.label(&mut p)?;
            p.expp('[')?;
            let mut cs = vec![];
            while !p.eatp(']') {
                let ct = p.ty()?;
                let c = p.konst(&ct)?;
                let c = match c {
                    C::Int(v) => v,
                    _ => return Err("switch case".into()),
                };
                p.expp(',')?;
                cs.push((c, f.label(&mut p)?));
            }
            Ok(Parsed::Ins(I::Switch(v, t.width(), cs, def)))
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                return Ok(Parsed::Ins(I::Ret(None)));
            }
            let v = f.val(&mut p, &t)?;
            Ok(Parsed::Ins(I::Ret(Some(v))))
        }
        "unreachable" => Ok(Parsed::Ins(I::Unreachable)),
        w => Err(format!("unsupported instruction {}", w)),
    }
}

fn parse_asm(p: &mut P) -> R<Parsed> {
    // Only empty inline asm (optimisation barrier) is accepted.
    let _ = p;
    Err("inline asm".into())
}

fn succs(i: &I) -> Vec<u32> {
    match i {
        I::Br(b) => vec![*b],
        I::CondBr(_, a, b) => vec![*a, *b],
        I::Switch(_, _, cs, d) => {
            let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect();
            v.push(*d);
            v
        }
        _ => vec![],
    }
}

fn uses(i: &I, f: &mut dyn FnMut(&O)) {
    match i {
        I::Bin(_, _, a, b, _) | I::Cmp(_, _, a, b, _) | I::VBin(_, _, a, b, _) | I::VCmp(_, _, a, b, _) => {
            f(a);
            f(b)
        }
        I::Cast(_, _, _, a, _) | I::VCast(_, _, _, a, _) | I::BitcastV(_, _, a, _) => f(a),
        I::Select(a, b, c, _) => {
            f(a);
            f(b);
            f(c)
        }
        I::Load(_, a, _) => f(a),
        I::Store(_, a, b) => {
            f(a);
            f(b)
        }
        I::Gep(a, _, ix, _) => {
            f(a);
            for (o, _, _) in ix {
                f(o)
            }
        }
        I::Alloca(..) => {}
        I::Call(c, args, _, _) => {
            if let Callee::Indirect(o) = c {
                f(o)
            }
            for a in args {
                f(a)
            }
        }
        I::Extract(a, _, _) => f(a),
        I::Insert(a, b, _, _, _) => {
            f(a);
            f(b)
        }
        I::VExtract(a, b, _) => {
            f(a);
            f(b)
        }
        I::VInsert(a, b, c, _, _) => {
            f(a);
            f(b);
            f(c)
        }
        I::VShuffle(a, b, _, _, _) => {
            f(a);
            f(b)
        }
        I::CondBr(a, _, _) | I::Switch(a, _, _, _) => f(a),
        I::Ret(Some(a)) => f(a),
        I::Br(_) | I::Ret(None) | I::Unreachable => {}
    }
}

pub fn dest(i: &I) -> Option<u32> {
    match i {
        I::Bin(_, _, _, _, d)
        | I::Cmp(_, _, _, _, d)
        | I::VBin(_, _, _, _, d)
        | I::VCmp(_, _, _, _, d)
        | I::Cast(_, _, _, _, d)
        | I::VCast(_, _, _, _, d)
        | I::BitcastV(_, _, _, d)
        | I::Select(_, _, _, d)
        | I::Load(_, _, d)
        | I::Gep(_, _, _, d)
        | I::Alloca(_, d)
        | I::Extract(_, _, d)
        | I::Insert(_, _, _, _, d)
        | I::VExtract(_, _, d)
        | I::VInsert(_, _, _, _, d)
        | I::VShuffle(_, _, _, _, d) => Some(*d),
        I::Call(_, _, d, _) if *d != u32::MAX => Some(*d),
        _ => None,
    }
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    for b in f.blocks.iter_mut() {
        b.succ = b.ins.last().map(succs).unwrap_or_default();
        b.succ.sort();
        b.succ.dedup();
    }
    // Post-dominators over blocks that can reach a return; `unreachable` ends are ignored.
    let mut good = vec![false; n];
    loop {
        let mut ch = false;
        for i in 0..n {
            if !good[i] {
                let g = matches!(f.blocks[i].ins.last(), Some(I::Ret(_))) || f.blocks[i].succ.iter().any(|s| good[*s as usize]);
                if g {
                    good[i] = true;
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    // set-based postdominance (functions are small)
    let words = (n + 63) / 64;
    let mut pd: Vec<Vec<u64>> = vec![vec![!0u64; words]; n];
    for i in 0..n {
        if matches!(f.blocks[i].ins.last(), Some(I::Ret(_))) {
            pd[i] = vec![0; words];
            pd[i][i / 64] |= 1 << (i % 64);
        }
    }
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            if !good[i] || matches!(f.blocks[i].ins.last(), Some(I::Ret(_))) {
                continue;
            }
            let mut s = vec![!0u64; words];
            for t in &f.blocks[i].succ {
                if good[*t as usize] {
                    for k in 0..words {
                        s[k] &= pd[*t as usize][k];
                    }
                }
            }
            s[i / 64] |= 1 << (i % 64);
            if s != pd[i] {
                pd[i] = s;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    for i in 0..n {
        if !good[i] {
            continue;
        }
        // immediate: the postdominator (other than i) with the largest own pd set
        let mut best: Option<(u32, u32)> = None;
        for j in 0..n {
            if j != i && pd[i][j / 64] >> (j % 64) & 1 == 1 && good[j] {
                let c: u32 = pd[j].iter().map(|w| w.count_ones()).sum();
                if best.map_or(true, |(_, bc)| c > bc) {
                    best = Some((j as u32, c));
                }
            }
        }
        f.blocks[i].ipdom = best.map(|b| b.0);
    }
    // liveness
    let nr = f.nregs;
    let rw = (nr + 63) / 64;
    let mut livein: Vec<Vec<u64>> = vec![vec![0; rw]; n];
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            let b = &f.blocks[i];
            let mut s = vec![0u64; rw];
            for t in &b.succ {
                let tb = &f.blocks[*t as usize];
                let mut l = livein[*t as usize].clone();
                for (d, _) in &tb.phis {
                    l[*d as usize / 64] &= !(1 << (*d % 64));
                }
                for k in 0..rw {
                    s[k] |= l[k];
                }
                for (_, inc) in &tb.phis {
                    for (pb, o) in inc {
                        if *pb == i as u32 {
                            if let O::R(r) = o {
                                s[*r as usize / 64] |= 1 << (*r % 64);
                            }
                        }
                    }
                }
            }
            for ins in b.ins.iter().rev() {
                if let Some(d) = dest(ins) {
                    s[d as usize / 64] &= !(1 << (d % 64));
                }
                uses(ins, &mut |o| {
                    if let O::R(r) = o {
                        s[*r as usize / 64] |= 1 << (*r % 64);
                    }
                });
            }
            if s != livein[i] {
                livein[i] = s;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    for i in 0..n {
        let l = &livein[i];
        f.blocks[i].live = (0..nr as u32).filter(|r| l[*r as usize / 64] >> (*r % 64) & 1 == 1).collect();
    }
}

pub fn parse(src: &str, module: usize) -> R<Module> {
    let mut m = Module::default();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let lines: Vec<&str> = src.lines().collect();
    // named types first; a definition may refer to a later one
    let mut todo: Vec<&str> = lines.iter().filter(|l| l.starts_with('%') && l.contains(" = type ")).cloned().collect();
    while !todo.is_empty() {
        let mut rest = vec![];
        for l in &todo {
            let t2 = types.clone();
            let mut p = P::new(l, &t2)?;
            if let T::L(n) = p.next()? {
                p.expp('=')?;
                p.expw("type")?;
                match p.ty() {
                    Ok(t) => {
                        types.insert(n, t);
                    }
                    Err(_) => rest.push(*l),
                }
            }
        }
        if rest.len() == todo.len() {
            return Err(format!("type {}", rest[0]));
        }
        todo = rest;
    }
    // attribute groups that carry noreturn
    let mut noret: Vec<&str> = vec![];
    for l in &lines {
        if l.starts_with("attributes #") {
            let id = l["attributes ".len()..].split(' ').next().unwrap();
            if l.contains("noreturn") {
                noret.push(id);
            }
        }
    }
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        i += 1;
        if l.starts_with('@') {
            let mut p = P::new(l, &types)?;
            let name = match p.next()? {
                T::G(n) => n,
                _ => return Err("global".into()),
            };
            p.expp('=')?;
            let mut constant = false;
            let mut external = false;
            let thread = l.contains(" thread_local ");
            let mut alias = false;
            loop {
                match p.peek() {
                    Some(T::W("alias")) => {
                        alias = true;
                        p.i += 1;
                        break;
                    }
                    Some(T::W("constant")) => {
                        constant = true;
                        p.i += 1;
                        break;
                    }
                    Some(T::W("global")) => {
                        p.i += 1;
                        break;
                    }
                    Some(T::W("external")) => {
                        external = true;
                        p.i += 1;
                    }
                    Some(T::W("thread_local")) | Some(T::W(_)) => {
                        p.i += 1;
                        if p.peek() == Some(&T::P('(')) {
                            while !p.eatp(')') {
                                p.i += 1;
                            }
                        }
                    }
                    t => return Err(format!("global {} {:?}", name, t)),
                }
            }
            if alias {
                let _ = p.ty()?;
                p.expp(',')?;
                p.ty()?;
                match p.next()? {
                    T::G(t) => m.aliases.push((name, t)),
                    t => return Err(format!("alias {:?}", t)),
                }
                continue;
            }
            let ty = p.ty()?;
            // std's per-thread state (the hash map keys) starts out uninitialised
            let init = if external && !thread { None } else if external { Some(C::Zero) } else { Some(p.konst(&ty)?) };
            m.globals.push(Global { name, ty, init, constant });
        } else if l.starts_with("declare") {
            let noreturn = l.rsplit(' ').next().map_or(false, |a| noret.contains(&a)) || noret.iter().any(|a| l.ends_with(a) || l.contains(&format!("{} ", a)));
            if let Some(at) = l.find('@') {
                let r = &l[at + 1..];
                let n = if r.starts_with('"') { r[1..].split('"').next().unwrap() } else { r.split('(').next().unwrap() };
                m.declares.insert(n.to_string(), noreturn);
            }
        } else if l.starts_with("define") {
            let mut p = P::new(l, &types)?;
            p.i = 1;
            p.skip_attrs();
            let ret = p.ty()?;
            let name = match p.next()? {
                T::G(n) => n,
                t => return Err(format!("define {:?}", t)),
            };
            let start = i;
            let mut end = i;
            while lines[end] != "}" {
                end += 1;
            }
            i = end + 1;
            // A function outside the encoded subset is kept as a stub that stops the run if executed.
            let f = match parse_fn(&lines, start, end, p, &types, name.clone(), ret, module) {
                Ok(f) => f,
                Err(e) => stub(name, module, end - start, e),
            };
            m.funcs.push(f);
        }
    }
    Ok(m)
}

fn parse_fn(lines: &[&str], start: usize, end: usize, mut p: P, types: &HashMap<String, Ty>, name: String, ret: Ty, module: usize) -> R<Func> {
    let mut fb = FB { regs: HashMap::new(), regty: vec![], consts: vec![], blocks: HashMap::new(), types };
    p.expp('(')?;
    let mut np = 0;
    if !p.eatp(')') {
        loop {
            let t = p.ty()?;
            p.skip_attrs();
            match p.next()? {
                T::L(n) => {
                    fb.def(&n, t);
                    np += 1;
                }
                t => return Err(format!("param {:?} in {}", t, name)),
            }
            if p.eatp(')') {
                break;
            }
            p.expp(',')?;
        }
    }
    // block labels
    let mut names = vec![];
    for (k, bl) in lines[start..end].iter().enumerate() {
        if !bl.starts_with(' ') && !bl.is_empty() && !bl.starts_with(';') {
            let n = bl.split(':').next().unwrap().trim_matches('"').to_string();
            fb.blocks.insert(n.clone(), names.len() as u32);
            names.push(n);
        } else if k == 0 {
            return Err(format!("unnamed entry block in {}", name));
        }
    }
    let mut blocks: Vec<Block> = vec![];
    let mut k = start;
    while k < end {
        let bl = lines[k];
        k += 1;
        if bl.is_empty() || bl.trim_start().starts_with(';') {
            continue;
        }
        if !bl.starts_with(' ') {
            let n = names[blocks.len()].clone();
            blocks.push(Block { name: n, phis: vec![], ins: vec![], live: vec![], ipdom: None, succ: vec![] });
            continue;
        }
        let joined;
        let mut text = bl;
        if bl.trim_start().starts_with("switch ") {
            let mut s = bl.to_string();
            while !s.contains(']') {
                s.push(' ');
                s.push_str(lines[k].trim());
                k += 1;
            }
            joined = s;
            text = &joined;
        }
        let b = blocks.last_mut().unwrap();
        match instr(&mut fb, text).map_err(|e| format!("{}: {} in: {}", name, e, text))? {
            Parsed::Phi(d, v) => b.phis.push((d, v)),
            Parsed::Ins(x) => b.ins.push(x),
            Parsed::None => {}
        }
    }
    let mut f = Func { name, module, nparams: np, nregs: fb.regty.len(), regty: fb.regty, consts: fb.consts, blocks, ret, lines: end - start };
    analyse(&mut f);
    Ok(f)
}

pub fn stub(name: String, module: usize, lines: usize, e: String) -> Func {
    Func {
        name,
        module,
        nparams: 0,
        nregs: 0,
        regty: vec![],
        consts: vec![],
        blocks: vec![Block {
            name: "start".into(),
            phis: vec![],
            ins: vec![I::Call(Callee::Direct(format!("[not encoded: {}]", e)), vec![], u32::MAX, Rc::new(Ty::Void)), I::Unreachable],
            live: vec![],
            ipdom: None,
            succ: vec![],
        }],
        ret: Ty::Void,
        lines,
    }
}
