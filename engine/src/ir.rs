//! Lazy parser for textual LLVM IR (the subset rustc emits).
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(u64, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => align_up((*n as u64 + 7) / 8, self.align()),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(ts, _) => &ts[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn n_elems(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Runtime values. `C` holds a constant of width <= 64, `W` a wider one, `S` a symbolic expression,
/// `A` an aggregate or vector.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}

pub fn mkc(v: u128, w: u32) -> V {
    let v = if w >= 128 { v } else { v & ((1u128 << w) - 1) };
    if w <= 64 {
        V::C(v as u64)
    } else {
        V::W(Rc::new(v))
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ICmp {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FCmp {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    Bit,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    UMax,
    UMin,
    Max,
    Min,
    Nand,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Builtin(Rc<str>),
    Indirect(Opd),
    Asm(Rc<str>),
}

#[derive(Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub normal: Option<Edge>, // for invoke
}

#[derive(Debug)]
pub enum Ins {
    Bin(Bin, u32, u32 /*width*/, Opd, Opd),
    VBin(Bin, u32, Ty, Opd, Opd),
    ICmp(ICmp, u32, u32, Opd, Opd),
    VICmp(ICmp, u32, Ty, Opd, Opd),
    FCmp(FCmp, u32, u32, Opd, Opd),
    FNeg(u32, u32, Opd),
    Cast(Cast, u32, Ty, Ty, Opd),
    Select(u32, Ty, Ty, Opd, Opd, Opd),
    Alloca(u32, u64),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    /// dst, base, const offset, [(index, idx width, scale)]
    Gep(u32, Opd, u64, Vec<(Opd, u32, u64)>),
    Call(Box<CallI>),
    Br(Box<Edge>),
    CondBr(Opd, Box<Edge>, Box<Edge>),
    Switch(Opd, u32, Vec<(u128, Edge)>, Box<Edge>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    ExtractV(u32, Opd, Vec<u32>),
    InsertV(u32, Opd, Opd, Vec<u32>),
    ExtractE(u32, Opd, Opd),
    InsertE(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i64>, u64),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    AtomicRmw(Rmw, u32, Ty, Opd, Opd),
    Freeze(u32, Opd),
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub idx: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Vec<Ins>>,
    pub reg_names: Vec<String>,
    /// blocks entered during the exploration, and the debug locations of each block
    pub cov: Vec<std::cell::Cell<bool>>,
    pub dbg: Vec<Vec<u32>>,
}

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Label(&'a str),
    Num(&'a str),
    CStr(&'a str),
    Str(&'a str),
    P(char),
    Meta(&'a str),
    Attr(&'a str),
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    src: &'a str,
    pos: usize,
    pub tok: Tok<'a>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(src: &'a str) -> Self {
        let mut l = Lex { s: src.as_bytes(), src, pos: 0, tok: Tok::Eof };
        l.bump();
        l
    }
    pub fn skip_line(&mut self) {
        while self.pos < self.s.len() && self.s[self.pos] != b'\n' {
            self.pos += 1;
        }
        self.bump();
    }
    pub fn context(&self) -> String {
        let a = self.pos.saturating_sub(120);
        let b = (self.pos + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).to_string()
    }
    pub fn bump(&mut self) -> Tok<'a> {
        let old = std::mem::replace(&mut self.tok, Tok::Eof);
        let s = self.s;
        loop {
            while self.pos < s.len() && (s[self.pos] as char).is_ascii_whitespace() {
                self.pos += 1;
            }
            if self.pos < s.len() && s[self.pos] == b';' {
                while self.pos < s.len() && s[self.pos] != b'\n' {
                    self.pos += 1;
                }
                continue;
            }
            if s[self.pos..].starts_with(b"/*") {
                while self.pos < s.len() && !s[self.pos..].starts_with(b"*/") {
                    self.pos += 1;
                }
                self.pos += 2;
                continue;
            }
            break;
        }
        if self.pos >= s.len() {
            return old;
        }
        let st = self.pos;
        let c = s[st];
        let t = match c {
            b'%' | b'@' => {
                self.pos += 1;
                let name;
                if self.pos < s.len() && s[self.pos] == b'"' {
                    let q = self.pos + 1;
                    self.pos = q;
                    while s[self.pos] != b'"' {
                        self.pos += 1;
                    }
                    name = &self.src[q..self.pos];
                    self.pos += 1;
                } else {
                    let q = self.pos;
                    while self.pos < s.len() && is_id(s[self.pos]) {
                        self.pos += 1;
                    }
                    name = &self.src[q..self.pos];
                }
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'!' | b'#' => {
                self.pos += 1;
                let q = self.pos;
                while self.pos < s.len() && is_id(s[self.pos]) {
                    self.pos += 1;
                }
                if c == b'!' {
                    Tok::Meta(&self.src[q..self.pos])
                } else {
                    Tok::Attr(&self.src[q..self.pos])
                }
            }
            b'"' => {
                let q = st + 1;
                self.pos = q;
                while s[self.pos] != b'"' {
                    self.pos += 1;
                }
                let w = &self.src[q..self.pos];
                self.pos += 1;
                if self.pos < s.len() && s[self.pos] == b':' {
                    self.pos += 1;
                    Tok::Label(w)
                } else {
                    Tok::Str(w)
                }
            }
            b'c' if st + 1 < s.len() && s[st + 1] == b'"' => {
                let q = st + 2;
                self.pos = q;
                while s[self.pos] != b'"' {
                    self.pos += 1;
                }
                let w = &self.src[q..self.pos];
                self.pos += 1;
                Tok::CStr(w)
            }
            _ if c.is_ascii_digit() || c == b'-' || c == b'+' || self.src[st..].starts_with("f0x") || self.src[st..].starts_with("u0x") => {
                self.pos += 1;
                while self.pos < s.len() && (is_id(s[self.pos]) || s[self.pos] == b'+') {
                    self.pos += 1;
                }
                let w = &self.src[st..self.pos];
                if self.pos < s.len() && s[self.pos] == b':' {
                    self.pos += 1;
                    Tok::Label(w)
                } else {
                    Tok::Num(w)
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                if self.src[st..].starts_with("...") {
                    self.pos += 3;
                    Tok::Word("...")
                } else {
                    while self.pos < s.len() && is_id(s[self.pos]) {
                        self.pos += 1;
                    }
                    let w = &self.src[st..self.pos];
                    if self.pos < s.len() && s[self.pos] == b':' {
                        self.pos += 1;
                        Tok::Label(w)
                    } else {
                        Tok::Word(w)
                    }
                }
            }
            _ => {
                self.pos += 1;
                Tok::P(c as char)
            }
        };
        self.tok = t;
        old
    }
    pub fn is_p(&self, c: char) -> bool {
        self.tok == Tok::P(c)
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.tok, Tok::Word(x) if x == w)
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.bump();
            true
        } else {
            false
        }
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.bump();
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("IR parse: expected '{}' got {:?} near {}", c, self.tok, self.context());
        }
    }
    pub fn skip_parens(&mut self) {
        // at '('
        self.exp_p('(');
        let mut d = 1;
        while d > 0 {
            match self.bump() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn type_start(t: &Tok) -> bool {
    match t {
        Tok::Word(w) => {
            matches!(*w, "void" | "ptr" | "double" | "float" | "label" | "metadata")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        Tok::P('<') | Tok::P('[') | Tok::P('{') => true,
        _ => false,
    }
}

pub fn parse_ty(l: &mut Lex) -> Ty {
    match l.bump() {
        Tok::Word("void") => Ty::Void,
        Tok::Word("ptr") => {
            if l.is_w("addrspace") {
                l.bump();
                l.skip_parens();
            }
            Ty::Ptr
        }
        Tok::Word("double") => Ty::F64,
        Tok::Word("float") => Ty::F32,
        Tok::Word("label") => Ty::Label,
        Tok::Word("metadata") => Ty::Meta,
        Tok::Word(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
        Tok::P('<') => {
            if l.eat_p('{') {
                let ts = parse_ty_list(l, '}');
                l.exp_p('>');
                return Ty::Struct(ts, true);
            }
            let n = num(l);
            assert!(l.eat_w("x"));
            let t = parse_ty(l);
            l.exp_p('>');
            Ty::Vec(n, Box::new(t))
        }
        Tok::P('[') => {
            let n = num(l);
            assert!(l.eat_w("x"));
            let t = parse_ty(l);
            l.exp_p(']');
            Ty::Arr(n, Box::new(t))
        }
        Tok::P('{') => Ty::Struct(parse_ty_list(l, '}'), false),
        t => panic!("type? {:?} near {}", t, l.context()),
    }
}

fn parse_ty_list(l: &mut Lex, end: char) -> Vec<Ty> {
    let mut v = vec![];
    while !l.eat_p(end) {
        v.push(parse_ty(l));
        l.eat_p(',');
    }
    v
}

fn num(l: &mut Lex) -> u64 {
    match l.bump() {
        Tok::Num(s) => s.parse().unwrap(),
        t => panic!("num? {:?}", t),
    }
}

fn skip_attrs(l: &mut Lex) {
    // skips parameter / return / calling-convention attribute words until a type or value starts
    loop {
        if type_start(&l.tok) {
            return;
        }
        match l.tok {
            Tok::Word(w) => {
                l.bump();
                if w == "align" {
                    if let Tok::Num(_) = l.tok {
                        l.bump();
                    } else if l.is_p('(') {
                        l.skip_parens();
                    }
                } else if l.is_p('(') {
                    l.skip_parens();
                }
            }
            Tok::Attr(_) | Tok::Str(_) => {
                l.bump();
            }
            _ => return,
        }
    }
}

/// attributes between a parameter type and its value
fn skip_arg_attrs(l: &mut Lex) {
    loop {
        match l.tok {
            Tok::Word(w) => {
                if matches!(
                    w,
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr"
                        | "ptrtoint" | "inttoptr" | "bitcast" | "splat" | "trunc" | "sub" | "add" | "xor"
                        | "ptrtoaddr"
                ) {
                    return;
                }
                l.bump();
                if w == "align" {
                    if let Tok::Num(_) = l.tok {
                        l.bump();
                    } else if l.is_p('(') {
                        l.skip_parens();
                    }
                } else if l.is_p('(') {
                    l.skip_parens();
                }
            }
            Tok::Attr(_) | Tok::Str(_) => {
                l.bump();
            }
            _ => return,
        }
    }
}

// ------------------------------------------------------------------ module
pub enum Sym {
    Func(u32),
    Global(u32),
    Alias(String),
    Weak,
}

pub struct GlobalDef {
    pub name: String,
    pub text: (usize, usize),
    pub constant: bool,
}

pub struct Module {
    pub src: &'static str,
    pub syms: HashMap<&'static str, Sym>,
    pub globals: Vec<GlobalDef>,
    /// name, body range (None for declarations), header
    pub funcs: Vec<(&'static str, Option<(usize, usize)>, (usize, usize))>,
    pub decoded: std::cell::RefCell<HashMap<u32, &'static Func>>,
    pub ginit: std::cell::RefCell<HashMap<u32, (Ty, Rc<Vec<u8>>)>>,
}

pub const FUNC_ID0: u64 = 0x0080_0000;
pub const HEAP_ID0: u64 = 0x0010_0000;

impl Module {
    pub fn load(path: &str) -> Module {
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("read {path}: {e}"));
        let src: &'static str = Box::leak(s.into_boxed_str());
        let mut m = Module {
            src,
            syms: HashMap::new(),
            globals: vec![],
            funcs: vec![],
            decoded: Default::default(),
            ginit: Default::default(),
        };
        let b = src.as_bytes();
        let mut i = 0;
        let n = b.len();
        while i < n {
            let mut e = i;
            while e < n && b[e] != b'\n' {
                e += 1;
            }
            match b[i] {
                b'@' => {
                    let line = &src[i..e];
                    let (name, rest_off) = gname(line);
                    let rest = &line[rest_off..];
                    let rest = rest.trim_start().strip_prefix('=').unwrap_or(rest);
                    if rest.contains(" alias ") && rest.trim_start().split(' ').take(6).any(|w| w == "alias") {
                        let k = rest.rfind('@').unwrap();
                        let (t, _) = gname(&rest[k..]);
                        m.syms.insert(name, Sym::Alias(t.to_string()));
                    } else {
                        let words: Vec<&str> = rest.split_whitespace().take(8).collect();
                        if words.contains(&"extern_weak") {
                            m.syms.insert(name, Sym::Weak);
                        } else {
                            let constant = words.contains(&"constant");
                            m.syms.insert(name, Sym::Global(m.globals.len() as u32));
                            m.globals.push(GlobalDef { name: name.to_string(), text: (i, e), constant });
                        }
                    }
                }
                b'd' if src[i..].starts_with("define") => {
                    let line = &src[i..e];
                    let k = line.find('@').unwrap();
                    let (name, _) = gname(&line[k..]);
                    // body ends at "\n}"
                    let mut q = e;
                    loop {
                        if b[q] == b'\n' && b[q + 1] == b'}' {
                            break;
                        }
                        q += 1;
                    }
                    m.syms.insert(name, Sym::Func(m.funcs.len() as u32));
                    m.funcs.push((name, Some((e, q + 1)), (i, e)));
                    i = q + 2;
                    continue;
                }
                b'd' if src[i..].starts_with("declare") => {
                    let line = &src[i..e];
                    if let Some(k) = line.find('@') {
                        let (name, _) = gname(&line[k..]);
                        if line.contains(" extern_weak ") {
                            m.syms.insert(name, Sym::Weak);
                        } else {
                            m.syms.insert(name, Sym::Func(m.funcs.len() as u32));
                        }
                        m.funcs.push((name, None, (i, e)));
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        m
    }

    pub fn sym_addr(&self, name: &str) -> u64 {
        match self.syms.get(name) {
            Some(Sym::Func(i)) => (FUNC_ID0 + *i as u64) << 32,
            Some(Sym::Global(i)) => ((*i as u64) + 1) << 32,
            Some(Sym::Alias(t)) => self.sym_addr(t),
            Some(Sym::Weak) => 0,
            None => panic!("unknown symbol @{name}"),
        }
    }

    pub fn global_init(&self, gi: u32) -> (Ty, Rc<Vec<u8>>) {
        if let Some(x) = self.ginit.borrow().get(&gi) {
            return x.clone();
        }
        let g = &self.globals[gi as usize];
        let line = &self.src[g.text.0..g.text.1];
        let (_, off) = gname(line);
        let mut l = Lex::new(&line[off..]);
        l.exp_p('=');
        loop {
            match l.tok {
                Tok::Word("global") | Tok::Word("constant") => {
                    l.bump();
                    break;
                }
                Tok::Word(_) => {
                    l.bump();
                    if l.is_p('(') {
                        l.skip_parens();
                    }
                }
                _ => panic!("global? {}", line),
            }
        }
        let ty = parse_ty(&mut l);
        let mut bytes = vec![0u8; ty.size() as usize];
        let external = line[off..].trim_start_matches([' ', '=']).starts_with("external ");
        if !external && l.tok != Tok::Eof && !l.is_p(',') {
            let v = self.parse_const(&mut l, &ty);
            put_const(&ty, &v, &mut bytes);
        }
        let r = (ty, Rc::new(bytes));
        self.ginit.borrow_mut().insert(gi, r.clone());
        r
    }

    pub fn parse_const(&self, l: &mut Lex, ty: &Ty) -> V {
        match l.bump() {
            Tok::Num(s) => match ty {
                Ty::F64 => V::C(parse_f64(s).to_bits()),
                Ty::F32 => V::C((parse_f64(s) as f32).to_bits() as u64),
                _ => {
                    let w = ty.bits();
                    if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("0x")) {
                        return mkc(u128::from_str_radix(h, 16).unwrap(), w);
                    }
                    if let Some(r) = s.strip_prefix('-') {
                        mkc((r.parse::<u128>().unwrap()).wrapping_neg(), w)
                    } else {
                        mkc(s.parse::<u128>().unwrap(), w)
                    }
                }
            },
            Tok::Word("true") => V::C(1),
            Tok::Word("false") => V::C(0),
            Tok::Word("null") => V::C(0),
            Tok::Word("none") => V::C(0),
            Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") => zero_of(ty),
            Tok::Word("splat") => {
                l.exp_p('(');
                let t = parse_ty(l);
                let v = self.parse_const(l, &t);
                l.exp_p(')');
                V::A(Rc::new(vec![v; ty.n_elems()]))
            }
            Tok::Word("ptrtoint") | Tok::Word("inttoptr") | Tok::Word("bitcast") | Tok::Word("trunc")
            | Tok::Word("ptrtoaddr") => {
                l.exp_p('(');
                let t = parse_ty(l);
                let v = self.parse_const(l, &t);
                assert!(l.eat_w("to"));
                let t2 = parse_ty(l);
                l.exp_p(')');
                match v {
                    V::C(x) => mkc(x as u128, t2.bits()),
                    v => v,
                }
            }
            Tok::Word(op @ ("sub" | "add" | "xor")) => {
                let op = op.to_string();
                while let Tok::Word(_) = l.tok {
                    l.bump();
                }
                l.exp_p('(');
                let t = parse_ty(l);
                let a = self.parse_const(l, &t);
                l.exp_p(',');
                let t = parse_ty(l);
                let b = self.parse_const(l, &t);
                l.exp_p(')');
                let (V::C(a), V::C(b)) = (a, b) else { panic!("constexpr") };
                let r = match op.as_str() {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                };
                mkc(r as u128, t.bits())
            }
            Tok::Word("getelementptr") => {
                loop {
                    match l.tok {
                        Tok::Word(_) => {
                            l.bump();
                            if l.is_p('(') && !type_start(&l.tok) {
                                // inrange(...) or start of operands: decide by lookahead
                                // operands start with a type
                                break;
                            }
                        }
                        _ => break,
                    }
                }
                l.exp_p('(');
                // possible inrange(a, b) was consumed as '(' : detect number
                if let Tok::Num(_) = l.tok {
                    l.bump();
                    l.exp_p(',');
                    l.bump();
                    l.exp_p(')');
                    l.exp_p('(');
                }
                let st = parse_ty(l);
                l.exp_p(',');
                let pt = parse_ty(l);
                let base = self.parse_const(l, &pt);
                let mut addr = match base {
                    V::C(x) => x,
                    _ => panic!(),
                };
                let mut cur = st.clone();
                let mut first = true;
                while l.eat_p(',') {
                    let it = parse_ty(l);
                    let iv = self.parse_const(l, &it);
                    let V::C(i) = iv else { panic!() };
                    let i = sext64(i, it.bits());
                    if first {
                        addr = addr.wrapping_add((i as u64).wrapping_mul(st.size()));
                        first = false;
                    } else {
                        addr = addr.wrapping_add(cur.field_off(i as usize));
                        cur = cur.elem(i as usize).clone();
                    }
                }
                l.exp_p(')');
                V::C(addr)
            }
            Tok::Global(n) => V::C(self.sym_addr(n)),
            Tok::CStr(s) => V::A(Rc::new(unescape(s).into_iter().map(|b| V::C(b as u64)).collect())),
            Tok::P('[') => self.const_list(l, "]"),
            Tok::P('{') => self.const_list(l, "}"),
            Tok::P('<') => {
                if l.eat_p('{') {
                    let v = self.const_list(l, "}");
                    l.exp_p('>');
                    v
                } else {
                    self.const_list(l, ">")
                }
            }
            t => panic!("const? {:?} near {}", t, l.context()),
        }
    }

    fn const_list(&self, l: &mut Lex, end: &str) -> V {
        let e = end.chars().next().unwrap();
        let mut v = vec![];
        while !l.eat_p(e) {
            let t = parse_ty(l);
            v.push(self.parse_const(l, &t));
            l.eat_p(',');
        }
        V::A(Rc::new(v))
    }

    /// The source functions and lines whose code was executed: file -> function -> lines.
    pub fn coverage(&self, keep: &dyn Fn(&str) -> bool) -> BTreeMap<String, BTreeMap<String, BTreeSet<u32>>> {
        let mut todo: Vec<u32> = vec![];
        let mut seen: HashSet<u32> = HashSet::new();
        for f in self.decoded.borrow().values() {
            for (b, c) in f.cov.iter().enumerate() {
                if c.get() {
                    for n in &f.dbg[b] {
                        if seen.insert(*n) {
                            todo.push(*n);
                        }
                    }
                }
            }
        }
        let mut out: BTreeMap<String, BTreeMap<String, BTreeSet<u32>>> = BTreeMap::new();
        if todo.is_empty() {
            return out;
        }
        let mut md: HashMap<u32, &str> = HashMap::new();
        for line in self.src.lines() {
            if let Some(r) = line.strip_prefix('!') {
                if let Some((n, v)) = r.split_once(" = ") {
                    if let Ok(n) = n.parse::<u32>() {
                        md.insert(n, v);
                    }
                }
            }
        }
        let fld = |n: u32, key: &str| -> Option<String> {
            let v = md.get(&n)?;
            let k = v.find(&format!("{key}: "))?;
            // the key must start a field
            let k = if v[..k].ends_with('(') || v[..k].ends_with(", ") { k } else { v.find(&format!(", {key}: "))? + 2 };
            let r = &v[k + key.len() + 2..];
            if let Some(q) = r.strip_prefix('"') {
                return Some(q[..q.find('"')?].to_string());
            }
            Some(r.chars().take_while(|c| *c != ',' && *c != ')').collect())
        };
        let refn = |n: u32, key: &str| fld(n, key).and_then(|x| x.strip_prefix('!').and_then(|y| y.parse::<u32>().ok()));
        while let Some(n) = todo.pop() {
            if let Some(i) = refn(n, "inlinedAt") {
                if seen.insert(i) {
                    todo.push(i);
                }
            }
            let line: u32 = fld(n, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let Some(mut sc) = refn(n, "scope") else { continue };
            while md.get(&sc).map_or(false, |v| v.contains("DILexicalBlock")) {
                match refn(sc, "scope") {
                    Some(x) => sc = x,
                    None => break,
                }
            }
            let Some(file) = refn(sc, "file") else { continue };
            let dir = fld(file, "directory").unwrap_or_default();
            let mut path = fld(file, "filename").unwrap_or_default();
            if !path.starts_with('/') {
                path = format!("{dir}/{path}");
            }
            if !keep(&path) {
                continue;
            }
            let mut name = fld(sc, "name").unwrap_or_default();
            let mut up = refn(sc, "scope");
            while let Some(u) = up {
                if !md.get(&u).map_or(false, |v| v.contains("DINamespace") || v.contains("DICompositeType")) {
                    break;
                }
                name = format!("{}::{name}", fld(u, "name").unwrap_or_default());
                up = refn(u, "scope");
            }
            out.entry(path).or_default().entry(name).or_default().insert(line);
        }
        out
    }

    pub fn func(&self, idx: u32) -> &'static Func {
        if let Some(f) = self.decoded.borrow().get(&idx) {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.decode(idx)));
        self.decoded.borrow_mut().insert(idx, f);
        f
    }

    fn decode(&self, idx: u32) -> Func {
        let (name, body, hdr) = &self.funcs[idx as usize];
        let body = body.unwrap_or_else(|| panic!("no body for {name}"));
        // header: parameters
        let h = &self.src[hdr.0..hdr.1];
        let k = h.find('@').unwrap();
        let (_, off) = gname(&h[k..]);
        let mut l = Lex::new(&h[k + off..]);
        let mut fd = FD { m: self, regs: HashMap::new(), names: vec![], blocks: HashMap::new(), nb: 0, edges: vec![] };
        l.exp_p('(');
        let mut np = 0;
        let mut unnamed = 0u32;
        while !l.eat_p(')') {
            if l.eat_w("...") {
                continue;
            }
            let _t = parse_ty(&mut l);
            skip_arg_attrs(&mut l);
            match l.tok {
                Tok::Local(n) => {
                    l.bump();
                    fd.reg(n);
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                }
                _ => {
                    // unnamed parameter: implicit numbering
                    let s: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                    fd.reg(s);
                    unnamed += 1;
                }
            }
            np += 1;
            l.eat_p(',');
        }
        let text: &'static str = &self.src[body.0..body.1];
        fd.run(text, name, idx, np, unnamed)
    }
}

fn parse_f64(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("f0x")) {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else if s.contains("nan") {
        f64::NAN
    } else {
        s.parse().unwrap_or_else(|_| panic!("float literal {s}"))
    }
}

pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Int(n) if *n > 64 => V::W(Rc::new(0)),
        Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
            V::A(Rc::new((0..ty.n_elems()).map(|i| zero_of(ty.elem(i))).collect()))
        }
        _ => V::C(0),
    }
}

fn put_const(ty: &Ty, v: &V, out: &mut [u8]) {
    match v {
        V::C(x) => {
            let n = ty.size().min(8) as usize;
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        V::W(x) => out[..16].copy_from_slice(&x.to_le_bytes()),
        V::A(xs) => {
            for (i, x) in xs.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                put_const(ty.elem(i), x, &mut out[o..]);
            }
        }
        V::S(_) => unreachable!(),
    }
}

fn gname(line: &str) -> (&str, usize) {
    // line starts with '@'
    let b = line.as_bytes();
    if b[1] == b'"' {
        let e = line[2..].find('"').unwrap() + 2;
        (&line[2..e], e + 1)
    } else {
        let mut e = 1;
        while e < b.len() && is_id(b[e]) {
            e += 1;
        }
        (&line[1..e], e)
    }
}

type PhiList<'a> = Vec<(u32, Vec<(Opd, u32 /*pred block*/)>)>;

struct FD<'m> {
    m: &'m Module,
    regs: HashMap<&'static str, u32>,
    names: Vec<String>,
    blocks: HashMap<&'static str, u32>,
    nb: u32,
    edges: Vec<()>,
}

impl<'m> FD<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.names.len() as u32;
        self.regs.insert(n, r);
        self.names.push(n.to_string());
        r
    }
    fn block(&mut self, n: &'static str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.nb;
        self.nb += 1;
        self.blocks.insert(n, r);
        r
    }
    fn opd(&mut self, l: &mut Lex<'static>, ty: &Ty) -> Opd {
        if let Tok::Local(n) = l.tok {
            l.bump();
            return Opd::Reg(self.reg(n));
        }
        if *ty == Ty::Meta {
            // skip a metadata operand
            let mut d = 0;
            loop {
                match l.tok {
                    Tok::P(',') | Tok::P(')') if d == 0 => break,
                    Tok::P('(') | Tok::P('{') => d += 1,
                    Tok::P(')') | Tok::P('}') => d -= 1,
                    _ => {}
                }
                l.bump();
            }
            return Opd::K(V::C(0));
        }
        Opd::K(self.m.parse_const(l, ty))
    }
    fn tyopd(&mut self, l: &mut Lex<'static>) -> (Ty, Opd) {
        let t = parse_ty(l);
        let o = self.opd(l, &t);
        (t, o)
    }
    fn label(&mut self, l: &mut Lex<'static>) -> u32 {
        assert!(l.eat_w("label"), "label near {}", l.context());
        match l.bump() {
            Tok::Local(n) => self.block(n),
            t => panic!("label? {:?}", t),
        }
    }
    fn edge(&mut self, t: u32) -> Edge {
        Edge { target: t, moves: vec![] }
    }

    fn run(mut self, text: &'static str, name: &str, idx: u32, np: u32, entry: u32) -> Func {
        // The entry label may be implicit: text starts after the '{' of the define line.
        let mut l = Lex::new(text);
        let mut blocks: Vec<(u32, Vec<Ins>)> = vec![];
        let mut dbg: HashMap<u32, Vec<u32>> = HashMap::new();
        let mut phis: HashMap<u32, PhiList> = HashMap::new();
        let mut cur: Option<u32> = None;
        loop {
            match l.tok {
                Tok::Eof => break,
                Tok::P('}') => break,
                Tok::Label(n) => {
                    l.bump();
                    let b = self.block(n);
                    cur = Some(b);
                    blocks.push((b, vec![]));
                    continue;
                }
                Tok::Attr(a) if a.starts_with("dbg_") => {
                    l.skip_line();
                    continue;
                }
                _ => {}
            }
            if cur.is_none() {
                let nm: &'static str = Box::leak(entry.to_string().into_boxed_str());
                let b = self.block(nm);
                cur = Some(b);
                blocks.push((b, vec![]));
            }
            let mut dst = None;
            let start = l.pos;
            if let Tok::Local(n) = l.tok {
                l.bump();
                l.exp_p('=');
                dst = Some(self.reg(n));
            }
            if l.is_w("phi") {
                l.bump();
                while matches!(l.tok, Tok::Word(w) if matches!(w, "nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc"|"fast"))
                {
                    l.bump();
                }
                let ty = parse_ty(&mut l);
                let mut ins = vec![];
                loop {
                    l.exp_p('[');
                    let o = self.opd(&mut l, &ty);
                    l.exp_p(',');
                    let b = match l.bump() {
                        Tok::Local(n) => self.block(n),
                        t => panic!("phi block {:?}", t),
                    };
                    l.exp_p(']');
                    ins.push((o, b));
                    if !l.is_p(',') {
                        break;
                    }
                    // either another incoming or metadata
                    l.bump();
                    if let Tok::Meta(_) = l.tok {
                        l.bump();
                        l.bump();
                        break;
                    }
                }
                self.trailing(&mut l);
                phis.entry(cur.unwrap()).or_default().push((dst.unwrap(), ins));
                continue;
            }
            let i = self.ins(&mut l, dst);
            self.trailing(&mut l);
            if let Some(k) = text[start..l.pos].rfind("!dbg !") {
                let n: String = text[start + k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                let v = dbg.entry(cur.unwrap()).or_default();
                if let Ok(n) = n.parse() {
                    if v.last() != Some(&n) {
                        v.push(n);
                    }
                }
            }
            blocks.last_mut().unwrap().1.push(i);
        }
        let nb = self.nb as usize;
        let mut out: Vec<Vec<Ins>> = (0..nb).map(|_| vec![]).collect();
        for (b, mut is) in blocks {
            // fill phi moves into edges
            let fill = |e: &mut Edge| {
                if let Some(ps) = phis.get(&e.target) {
                    for (d, ins) in ps {
                        let o = ins.iter().find(|(_, p)| *p == b).unwrap_or_else(|| panic!("phi pred {b} of {}: {ins:?} {:?}", e.target, self.blocks));
                        e.moves.push((*d, o.0.clone()));
                    }
                }
            };
            if let Some(t) = is.last_mut() {
                match t {
                    Ins::Br(e) => fill(e),
                    Ins::CondBr(_, a, c) => {
                        fill(a);
                        fill(c)
                    }
                    Ins::Switch(_, _, cs, d) => {
                        for (_, e) in cs.iter_mut() {
                            fill(e)
                        }
                        fill(d)
                    }
                    Ins::Call(c) => {
                        if let Some(e) = &mut c.normal {
                            fill(e)
                        }
                    }
                    _ => {}
                }
            }
            out[b as usize] = is;
        }
        // entry block must be index 0: it is the first block() created unless referenced earlier
        let _ = &self.edges;
        let cov = (0..nb).map(|_| std::cell::Cell::new(false)).collect();
        let dbg = (0..nb).map(|b| dbg.remove(&(b as u32)).unwrap_or_default()).collect();
        Func { name: name.to_string(), idx, nregs: self.names.len() as u32, nparams: np, blocks: out, reg_names: self.names, cov, dbg }
    }

    fn trailing(&mut self, l: &mut Lex<'static>) {
        loop {
            match l.tok {
                Tok::P(',') => {
                    l.bump();
                    match l.tok {
                        Tok::Meta(_) => {
                            l.bump();
                            // value of the attachment
                            match l.tok {
                                Tok::Meta("") => {
                                    // inline node !{...}
                                    l.bump();
                                    if l.is_p('{') {
                                        let mut d = 0;
                                        loop {
                                            match l.bump() {
                                                Tok::P('{') => d += 1,
                                                Tok::P('}') => {
                                                    d -= 1;
                                                    if d == 0 {
                                                        break;
                                                    }
                                                }
                                                _ => {}
                                            }
                                        }
                                    }
                                }
                                Tok::Meta(_) => {
                                    l.bump();
                                    if l.is_p('(') {
                                        l.skip_parens();
                                    }
                                }
                                _ => {}
                            }
                        }
                        Tok::Word("align") => {
                            l.bump();
                            l.bump();
                        }
                        _ => panic!("trailing {:?} near {}", l.tok, l.context()),
                    }
                }
                Tok::Attr(a) if !a.starts_with("dbg_") => {
                    l.bump();
                }
                _ => return,
            }
        }
    }

    fn flags(&mut self, l: &mut Lex<'static>) {
        while let Tok::Word(w) = l.tok {
            if matches!(
                w,
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "nnan" | "ninf"
                    | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "volatile" | "atomic" | "weak"
            ) {
                l.bump();
            } else if w == "inrange" {
                l.bump();
                l.skip_parens();
            } else {
                return;
            }
        }
    }

    fn ins(&mut self, l: &mut Lex<'static>, dst: Option<u32>) -> Ins {
        let Tok::Word(mut w) = l.bump() else { panic!("ins? near {}", l.context()) };
        if matches!(w, "tail" | "musttail" | "notail") {
            let Tok::Word(x) = l.bump() else { panic!() };
            w = x;
        }
        let d = dst.unwrap_or(u32::MAX);
        let bin = match w {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            "frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags(l);
            let (t, x) = self.tyopd(l);
            l.exp_p(',');
            let y = self.opd(l, &t);
            return match t {
                Ty::Vec(..) => Ins::VBin(b, d, t, x, y),
                _ => Ins::Bin(b, d, t.bits(), x, y),
            };
        }
        let cast = match w {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::Zext),
            "sext" => Some(Cast::Sext),
            "fptrunc" => Some(Cast::FpTrunc),
            "fpext" => Some(Cast::FpExt),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => Some(Cast::Bit),
            _ => None,
        };
        if let Some(c) = cast {
            self.flags(l);
            let (t, x) = self.tyopd(l);
            assert!(l.eat_w("to"));
            let t2 = parse_ty(l);
            let c = if c == Cast::Bit && matches!((&t, &t2), (Ty::Int(_), Ty::Ptr) | (Ty::Ptr, Ty::Int(_))) {
                if t.bits() < t2.bits() {
                    Cast::Zext
                } else if t.bits() > t2.bits() {
                    Cast::Trunc
                } else {
                    Cast::Bit
                }
            } else {
                c
            };
            return Ins::Cast(c, d, t, t2, x);
        }
        match w {
            "icmp" => {
                self.flags(l);
                let Tok::Word(p) = l.bump() else { panic!() };
                let p = match p {
                    "eq" => ICmp::Eq,
                    "ne" => ICmp::Ne,
                    "ugt" => ICmp::Ugt,
                    "uge" => ICmp::Uge,
                    "ult" => ICmp::Ult,
                    "ule" => ICmp::Ule,
                    "sgt" => ICmp::Sgt,
                    "sge" => ICmp::Sge,
                    "slt" => ICmp::Slt,
                    "sle" => ICmp::Sle,
                    _ => panic!(),
                };
                let (t, x) = self.tyopd(l);
                l.exp_p(',');
                let y = self.opd(l, &t);
                match t {
                    Ty::Vec(..) => Ins::VICmp(p, d, t, x, y),
                    _ => Ins::ICmp(p, d, t.bits(), x, y),
                }
            }
            "fcmp" => {
                self.flags(l);
                let Tok::Word(p) = l.bump() else { panic!() };
                let p = match p {
                    "false" => FCmp::False,
                    "oeq" => FCmp::Oeq,
                    "ogt" => FCmp::Ogt,
                    "oge" => FCmp::Oge,
                    "olt" => FCmp::Olt,
                    "ole" => FCmp::Ole,
                    "one" => FCmp::One,
                    "ord" => FCmp::Ord,
                    "ueq" => FCmp::Ueq,
                    "ugt" => FCmp::Ugt,
                    "uge" => FCmp::Uge,
                    "ult" => FCmp::Ult,
                    "ule" => FCmp::Ule,
                    "une" => FCmp::Une,
                    "uno" => FCmp::Uno,
                    "true" => FCmp::True,
                    _ => panic!(),
                };
                let (t, x) = self.tyopd(l);
                l.exp_p(',');
                let y = self.opd(l, &t);
                if let Ty::Vec(..) = t {
                    return Ins::Unsupported("vector fcmp".into());
                }
                Ins::FCmp(p, d, t.bits(), x, y)
            }
            "fneg" => {
                self.flags(l);
                let (t, x) = self.tyopd(l);
                Ins::FNeg(d, t.bits(), x)
            }
            "select" => {
                self.flags(l);
                let (ct, c) = self.tyopd(l);
                l.exp_p(',');
                let (t, x) = self.tyopd(l);
                l.exp_p(',');
                let (_, y) = self.tyopd(l);
                Ins::Select(d, ct, t, c, x, y)
            }
            "alloca" => {
                let t = parse_ty(l);
                let mut n = 1;
                while l.is_p(',') {
                    // ", align N" or ", i64 N"
                    l.bump();
                    if l.eat_w("align") {
                        l.bump();
                    } else if let Tok::Meta(_) = l.tok {
                        l.bump();
                        l.bump();
                    } else {
                        let (_, o) = self.tyopd(l);
                        if let Opd::K(V::C(c)) = o {
                            n = c;
                        } else {
                            return Ins::Unsupported("dynamic alloca".into());
                        }
                    }
                }
                Ins::Alloca(d, t.size() * n)
            }
            "load" => {
                self.flags(l);
                let t = parse_ty(l);
                l.exp_p(',');
                let (_, p) = self.tyopd(l);
                self.order(l);
                Ins::Load(d, t, p)
            }
            "store" => {
                self.flags(l);
                let (t, v) = self.tyopd(l);
                l.exp_p(',');
                let (_, p) = self.tyopd(l);
                self.order(l);
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags(l);
                let st = parse_ty(l);
                l.exp_p(',');
                let (_, base) = self.tyopd(l);
                let mut off = 0u64;
                let mut dynamic = vec![];
                let mut cur = st.clone();
                let mut first = true;
                while l.is_p(',') {
                    l.bump();
                    if let Tok::Meta(_) = l.tok {
                        l.bump();
                        l.bump();
                        continue;
                    }
                    let (it, o) = self.tyopd(l);
                    let scale;
                    if first {
                        scale = st.size();
                        first = false;
                    } else if let Ty::Struct(..) = cur {
                        let Opd::K(V::C(i)) = o else { panic!("struct gep") };
                        off = off.wrapping_add(cur.field_off(i as usize));
                        cur = cur.elem(i as usize).clone();
                        continue;
                    } else {
                        let e = cur.elem(0).clone();
                        scale = e.size();
                        cur = e;
                    }
                    match o {
                        Opd::K(V::C(i)) => {
                            off = off.wrapping_add((sext64(i, it.bits()) as u64).wrapping_mul(scale))
                        }
                        o => dynamic.push((o, it.bits(), scale)),
                    }
                }
                Ins::Gep(d, base, off, dynamic)
            }
            "call" | "invoke" => {
                self.flags(l);
                skip_attrs(l);
                let ret = parse_ty(l);
                if l.is_p('(') {
                    l.skip_parens();
                }
                let callee = match l.tok {
                    Tok::Global(n) => {
                        l.bump();
                        self.callee(n)
                    }
                    Tok::Local(n) => {
                        l.bump();
                        Callee::Indirect(Opd::Reg(self.reg(n)))
                    }
                    Tok::Word("asm") => {
                        l.bump();
                        while let Tok::Word(_) = l.tok {
                            l.bump();
                        }
                        let Tok::Str(s) = l.bump() else { panic!("asm") };
                        l.exp_p(',');
                        l.bump();
                        Callee::Asm(s.into())
                    }
                    _ => Callee::Indirect(Opd::K(self.m.parse_const(l, &Ty::Ptr))),
                };
                l.exp_p('(');
                let mut args = vec![];
                while !l.eat_p(')') {
                    let t = parse_ty(l);
                    skip_arg_attrs(l);
                    let o = self.opd(l, &t);
                    args.push((t, o));
                    l.eat_p(',');
                }
                // function attributes and operand bundles
                loop {
                    match l.tok {
                        Tok::Attr(a) if !a.starts_with("dbg_") => {
                            l.bump();
                        }
                        Tok::Word("to") => break,
                        Tok::Word(x)
                            if matches!(
                                x,
                                "nounwind" | "noreturn" | "readonly" | "readnone" | "memory" | "noinline" | "alwaysinline" | "cold"
                            ) =>
                        {
                            l.bump();
                            if l.is_p('(') {
                                l.skip_parens();
                            }
                        }
                        Tok::P('[') => {
                            // operand bundle
                            let mut dd = 0;
                            loop {
                                match l.bump() {
                                    Tok::P('[') => dd += 1,
                                    Tok::P(']') => {
                                        dd -= 1;
                                        if dd == 0 {
                                            break;
                                        }
                                    }
                                    _ => {}
                                }
                            }
                        }
                        _ => break,
                    }
                }
                if w == "call" {
                    if let Callee::Builtin(n) = &callee {
                        const NOPS: &[&str] = &[
                            "llvm.lifetime.", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg.", "llvm.donothing",
                            "llvm.prefetch", "llvm.invariant.", "llvm.var.annotation", "llvm.pseudoprobe",
                        ];
                        if NOPS.iter().any(|p| n.starts_with(p)) {
                            return Ins::Nop;
                        }
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    assert!(l.eat_w("to"));
                    let b = self.label(l);
                    assert!(l.eat_w("unwind"));
                    let _ = self.label(l);
                    normal = Some(self.edge(b));
                }
                Ins::Call(Box::new(CallI { dst, ret, callee, args, normal }))
            }
            "br" => {
                if l.is_w("label") {
                    let b = self.label(l);
                    return Ins::Br(Box::new(self.edge(b)));
                }
                let (_, c) = self.tyopd(l);
                l.exp_p(',');
                let a = self.label(l);
                l.exp_p(',');
                let b = self.label(l);
                Ins::CondBr(c, Box::new(self.edge(a)), Box::new(self.edge(b)))
            }
            "switch" => {
                let (t, c) = self.tyopd(l);
                l.exp_p(',');
                let dflt = self.label(l);
                l.exp_p('[');
                let mut cs = vec![];
                while !l.eat_p(']') {
                    let tt = parse_ty(l);
                    let v = match self.m.parse_const(l, &tt) {
                        V::C(x) => x as u128,
                        V::W(x) => *x,
                        _ => panic!(),
                    };
                    l.exp_p(',');
                    let b = self.label(l);
                    let e = self.edge(b);
                    cs.push((v, e));
                }
                Ins::Switch(c, t.bits(), cs, Box::new(self.edge(dflt)))
            }
            "ret" => {
                let t = parse_ty(l);
                if t == Ty::Void {
                    Ins::Ret(t, None)
                } else {
                    let o = self.opd(l, &t);
                    Ins::Ret(t, Some(o))
                }
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => {
                let (_, a) = self.tyopd(l);
                let ix = self.idxs(l);
                Ins::ExtractV(d, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(l);
                l.exp_p(',');
                let (_, b) = self.tyopd(l);
                let ix = self.idxs(l);
                Ins::InsertV(d, a, b, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyopd(l);
                l.exp_p(',');
                let (_, b) = self.tyopd(l);
                Ins::ExtractE(d, a, b)
            }
            "insertelement" => {
                let (_, a) = self.tyopd(l);
                l.exp_p(',');
                let (_, b) = self.tyopd(l);
                l.exp_p(',');
                let (_, c) = self.tyopd(l);
                Ins::InsertE(d, a, b, c)
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(l);
                l.exp_p(',');
                let (_, b) = self.tyopd(l);
                l.exp_p(',');
                let mt = parse_ty(l);
                let m = self.m.parse_const(l, &mt);
                let V::A(ms) = m else { panic!() };
                let mask = ms
                    .iter()
                    .map(|x| match x {
                        V::C(c) => *c as i64,
                        _ => 0,
                    })
                    .collect();
                Ins::Shuffle(d, a, b, mask, t.n_elems() as u64)
            }
            "landingpad" => {
                let _ = parse_ty(l);
                loop {
                    if l.eat_w("cleanup") {
                        continue;
                    }
                    if l.eat_w("catch") || l.eat_w("filter") {
                        let _ = self.tyopd(l);
                        continue;
                    }
                    break;
                }
                Ins::Unsupported("landingpad".into())
            }
            "resume" => {
                let _ = self.tyopd(l);
                Ins::Unsupported("resume".into())
            }
            "fence" => {
                while let Tok::Word(_) = l.tok {
                    // orderings
                    if matches!(l.tok, Tok::Word("acquire") | Tok::Word("release") | Tok::Word("acq_rel") | Tok::Word("seq_cst")) {
                        l.bump();
                        break;
                    }
                    l.bump();
                    if l.is_p('(') {
                        l.skip_parens();
                    }
                }
                Ins::Nop
            }
            "cmpxchg" => {
                self.flags(l);
                let (_, p) = self.tyopd(l);
                l.exp_p(',');
                let (t, c) = self.tyopd(l);
                l.exp_p(',');
                let (_, n) = self.tyopd(l);
                self.order(l);
                Ins::CmpXchg(d, t, p, c, n)
            }
            "atomicrmw" => {
                self.flags(l);
                let Tok::Word(op) = l.bump() else { panic!() };
                let op = match op {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "nand" => Rmw::Nand,
                    _ => panic!("rmw {op}"),
                };
                let (_, p) = self.tyopd(l);
                l.exp_p(',');
                let (t, v) = self.tyopd(l);
                self.order(l);
                Ins::AtomicRmw(op, d, t, p, v)
            }
            "freeze" => {
                let (_, a) = self.tyopd(l);
                Ins::Freeze(d, a)
            }
            _ => panic!("instruction {w} near {}", l.context()),
        }
    }

    fn order(&mut self, l: &mut Lex<'static>) {
        loop {
            match l.tok {
                Tok::Word("acquire") | Tok::Word("release") | Tok::Word("acq_rel") | Tok::Word("seq_cst")
                | Tok::Word("monotonic") | Tok::Word("unordered") => {
                    l.bump();
                }
                Tok::Word("syncscope") => {
                    l.bump();
                    l.skip_parens();
                }
                _ => return,
            }
        }
    }

    fn idxs(&mut self, l: &mut Lex<'static>) -> Vec<u32> {
        let mut v = vec![];
        while l.is_p(',') {
            l.bump();
            if let Tok::Meta(_) = l.tok {
                l.bump();
                l.bump();
                continue;
            }
            v.push(num(l) as u32);
        }
        v
    }

    fn callee(&mut self, n: &'static str) -> Callee {
        if n.starts_with("llvm.") || is_builtin(n) {
            return Callee::Builtin(n.into());
        }
        match self.m.syms.get(n) {
            Some(Sym::Func(i)) => {
                if self.m.funcs[*i as usize].1.is_some() {
                    Callee::Func(*i)
                } else {
                    Callee::Builtin(n.into())
                }
            }
            Some(Sym::Alias(t)) => {
                let t: &'static str = Box::leak(t.clone().into_boxed_str());
                self.callee(t)
            }
            _ => Callee::Builtin(n.into()),
        }
    }
}

/// Functions with a body that are nevertheless modelled: panics end the path.
pub fn is_builtin(n: &str) -> bool {
    n.starts_with("es_") || panic_kind(n).is_some()
}

pub fn panic_kind(n: &str) -> Option<&'static str> {
    if !(n.starts_with("_R") || n.starts_with("_ZN")) {
        return None;
    }
    const T: &[(&str, &str)] = &[
        ("4core9panicking", "panic"),
        ("6result13unwrap_failed", "unwrap on Err"),
        ("6option13unwrap_failed", "unwrap on None"),
        ("6option13expect_failed", "expect on None"),
        ("7raw_vec12handle_error", "capacity overflow"),
        ("7raw_vec17capacity_overflow", "capacity overflow"),
        ("5alloc18handle_alloc_error", "alloc error"),
        ("slice_index_fail", "slice index"),
        ("slice_error_fail", "str slice index"),
        ("slice_start_index_len_fail", "slice index"),
        ("slice_end_index_len_fail", "slice index"),
        ("slice_index_order_fail", "slice index"),
        ("copy_from_slice_impl17len_mismatch_fail", "copy_from_slice"),
        ("3std9panicking", "panic"),
        ("4cell22panic_already_borrowed", "already borrowed"),
        ("4cell30panic_already_mutably_borrowed", "already borrowed"),
    ];
    // only the function's own path: generic arguments may mention these too
    for (k, v) in T {
        if n.contains(k) {
            if *k == "3std9panicking" && !(n.contains("begin_panic") || n.contains("rust_panic") || n.contains("panic_handler")) {
                continue;
            }
            if n.contains("catch_unwind") {
                continue;
            }
            return Some(v);
        }
    }
    None
}
