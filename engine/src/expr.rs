//! Hash-consed expressions: bit-vectors (with IEEE float operations on bit patterns) and reals.
use crate::ir::FCmp;
use crate::real::{Poly, Rat};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
/// pseudo variable ids standing for uninterpreted functions in support sets
pub const UF_PSEUDO: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Const, // k
    Var,   // a = var id
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Zext,
    Sext,
    Extract, // k = low bit
    Concat,  // a high, b low
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Lut, // a = index expr, b = table id
    // IEEE binary64 on bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FCmp(FCmp),
    FUi,   // uitofp a
    FSi,   // sitofp a
    FToUi, // saturating
    FToSi,
    FCvt32, // double -> float
    FCvt64, // float -> double
    FRnd(u8), // 0 floor 1 ceil 2 trunc 3 round 4 rint
    FPow,
    FLog,
    FLog2,
    FExp,
    // reals
    RPoly, // k = poly id
    RSqrt, // a = RPoly
    RDiv,  // a, b = RPoly
    RRaw,  // k = 0 add, 1 mul (coefficient overflow fallback); a, b = RPoly
    RUf,   // a = uf id, k = args list id
    RInt,  // a = BV expr (unsigned value as a real)
    RVar,  // a = var id
    RLt0,  // a = RPoly : a < 0
    RLe0,
    REq0,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum VarKind {
    Bv,
    /// bit-vector declared as an SMT Int with 0 <= v < 2^w
    Int,
    Real,
}

pub struct VarInfo {
    pub name: String,
    pub w: u16,
    pub kind: VarKind,
}

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub bv: HashMap<u32, u128>,
    pub re: HashMap<u32, f64>,
    pub rat: HashMap<u32, Rat>,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    pub luts: Vec<Rc<Vec<u64>>>,
    lutmap: HashMap<Vec<u64>, u32>,
    pub polys: Vec<Rc<Poly>>,
    polymap: HashMap<Poly, u32>,
    pub ufargs: Vec<Rc<Vec<E>>>,
    ufargmap: HashMap<Vec<E>, u32>,
    pub ufs: Vec<(String, f64, f64)>,
    support: Vec<Option<Rc<Vec<u32>>>>,
    umaxc: Vec<Option<u128>>,
    pub tru: E,
    pub fls: E,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fcmp_eval(p: FCmp, a: f64, b: f64) -> bool {
    let un = a.is_nan() || b.is_nan();
    match p {
        FCmp::False => false,
        FCmp::True => true,
        FCmp::Oeq => a == b,
        FCmp::Ogt => a > b,
        FCmp::Oge => a >= b,
        FCmp::Olt => a < b,
        FCmp::Ole => a <= b,
        FCmp::One => !un && a != b,
        FCmp::Ord => !un,
        FCmp::Ueq => un || a == b,
        FCmp::Ugt => un || a > b,
        FCmp::Uge => un || a >= b,
        FCmp::Ult => un || a < b,
        FCmp::Ule => un || a <= b,
        FCmp::Une => un || a != b,
        FCmp::Uno => un,
    }
}

pub fn bin_eval(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
        _ => unreachable!("{:?}", op),
    };
    r & m
}

fn f(b: u128) -> f64 {
    f64::from_bits(b as u64)
}

pub fn fop_eval(op: Op, a: f64, b: f64) -> f64 {
    match op {
        Op::FAdd => a + b,
        Op::FSub => a - b,
        Op::FMul => a * b,
        Op::FDiv => a / b,
        Op::FRem => a % b,
        Op::FSqrt => a.sqrt(),
        Op::FPow => a.powf(b),
        Op::FLog => a.ln(),
        Op::FLog2 => a.log2(),
        Op::FExp => a.exp(),
        Op::FRnd(0) => a.floor(),
        Op::FRnd(1) => a.ceil(),
        Op::FRnd(2) => a.trunc(),
        Op::FRnd(3) => a.round(),
        Op::FRnd(_) => a.round_ties_even(),
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: HashMap::new(),
            vars: vec![],
            luts: vec![],
            lutmap: HashMap::new(),
            polys: vec![],
            polymap: HashMap::new(),
            ufargs: vec![],
            ufargmap: HashMap::new(),
            ufs: vec![],
            support: vec![],
            umaxc: vec![],
            tru: 0,
            fls: 0,
        };
        // id 0 is reserved (means "concrete" in memory)
        a.intern(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.fls = a.konst(0, 1);
        a.tru = a.konst(1, 1);
        a
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.support.push(None);
        self.umaxc.push(None);
        self.map.insert(n, e);
        e
    }
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&mut self, k: u128, w: u32) -> E {
        self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, name: &str, w: u32, kind: VarKind) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: format!("{}_{}", name, id), w: w as u16, kind });
        let op = if kind == VarKind::Real { Op::RVar } else { Op::Var };
        self.intern(Node { op, w: w as u16, a: id, b: 0, c: 0, k: 0 })
    }
    pub fn is_real(&self, e: E) -> bool {
        matches!(self.n(e).op, Op::RPoly)
    }
    pub fn poly_node(&mut self, p: Poly) -> E {
        let id = match self.polymap.get(&p) {
            Some(i) => *i,
            None => {
                let i = self.polys.len() as u32;
                self.polys.push(Rc::new(p.clone()));
                self.polymap.insert(p, i);
                i
            }
        };
        self.intern(Node { op: Op::RPoly, w: 64, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn poly(&self, e: E) -> Rc<Poly> {
        debug_assert!(self.n(e).op == Op::RPoly);
        self.polys[self.n(e).k as usize].clone()
    }
    pub fn atom(&mut self, op: Op, a: E, b: E, k: u128) -> E {
        self.intern(Node { op, w: 64, a, b, c: 0, k })
    }
    pub fn bool_atom(&mut self, op: Op, a: E) -> E {
        self.intern(Node { op, w: 1, a, b: 0, c: 0, k: 0 })
    }
    pub fn uf(&mut self, name: &str, lo: f64, hi: f64, args: Vec<E>) -> E {
        let id = match self.ufs.iter().position(|u| u.0 == name) {
            Some(i) => i,
            None => {
                self.ufs.push((name.to_string(), lo, hi));
                self.ufs.len() - 1
            }
        };
        let al = match self.ufargmap.get(&args) {
            Some(i) => *i,
            None => {
                let i = self.ufargs.len() as u32;
                self.ufargs.push(Rc::new(args.clone()));
                self.ufargmap.insert(args, i);
                i
            }
        };
        self.intern(Node { op: Op::RUf, w: 64, a: id as u32, b: 0, c: 0, k: al as u128 })
    }
    pub fn lut(&mut self, idx: E, table: Vec<u64>, w: u32) -> E {
        if table.iter().all(|x| *x == table[0]) {
            return self.konst(table[0] as u128, w);
        }
        if self.w(idx) == 1 {
            let lo = self.konst(table[0] as u128, w);
            let hi = self.konst(table.get(1).copied().unwrap_or(0) as u128, w);
            return self.ite(idx, hi, lo);
        }
        let id = match self.lutmap.get(&table) {
            Some(i) => *i,
            None => {
                let i = self.luts.len() as u32;
                self.luts.push(Rc::new(table.clone()));
                self.lutmap.insert(table, i);
                i
            }
        };
        self.intern(Node { op: Op::Lut, w: w as u16, a: idx, b: id, c: 0, k: 0 })
    }

    pub fn umax(&mut self, e: E) -> u128 {
        if let Some(x) = self.umaxc[e as usize] {
            return x;
        }
        let n = self.n(e).clone();
        let w = n.w as u32;
        let m = mask(w);
        let r = match n.op {
            Op::Const => n.k,
            Op::Zext => self.umax(n.a),
            Op::And => self.umax(n.a).min(self.umax(n.b)),
            Op::Or | Op::Xor => {
                let x = self.umax(n.a) | self.umax(n.b);
                let bits = 128 - x.leading_zeros();
                mask(bits)
            }
            Op::Add => {
                let (x, y) = (self.umax(n.a), self.umax(n.b));
                match x.checked_add(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::Mul => {
                let (x, y) = (self.umax(n.a), self.umax(n.b));
                match x.checked_mul(y) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::LShr => match self.cval(n.b) {
                Some(s) if s < w as u128 => self.umax(n.a) >> s,
                Some(_) => 0,
                None => self.umax(n.a),
            },
            Op::Shl => match self.cval(n.b) {
                Some(s) if s < w as u128 => {
                    let x = self.umax(n.a);
                    if x.leading_zeros() as u128 >= s && (x << s) <= m {
                        x << s
                    } else {
                        m
                    }
                }
                _ => m,
            },
            Op::UDiv => match self.cval(n.b) {
                Some(d) if d > 0 => self.umax(n.a) / d,
                _ => m,
            },
            Op::URem => match self.cval(n.b) {
                Some(d) if d > 0 => (d - 1).min(self.umax(n.a)),
                _ => self.umax(n.a),
            },
            Op::Ite => self.umax(n.b).max(self.umax(n.c)),
            Op::Lut => *self.luts[n.b as usize].iter().max().unwrap() as u128,
            Op::Extract => {
                let x = self.umax(n.a) >> n.k;
                x.min(m)
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.umax(n.a) << lw) | mask(lw)
            }
            _ => m,
        };
        let r = r.min(m);
        self.umaxc[e as usize] = Some(r);
        r
    }

    // ---- constructors with simplification
    pub fn not(&mut self, a: E) -> E {
        // boolean not
        if let Some(c) = self.cval(a) {
            return if c == 0 { self.tru } else { self.fls };
        }
        let t = self.tru;
        self.bin(Op::Xor, a, t)
    }
    pub fn is_not(&self, a: E) -> Option<E> {
        let n = self.n(a);
        if n.op == Op::Xor && n.w == 1 && n.b == self.tru {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = bin_eval(op, x, y, w);
            return self.konst(r, w);
        }
        let op = match op {
            Op::Add | Op::Sub if w == 1 => Op::Xor,
            Op::Mul if w == 1 => Op::And,
            o => o,
        };
        let m = mask(w);
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let n = self.n(a).clone();
                    if n.op == Op::Add {
                        if let Some(x) = self.cval(n.b) {
                            let k = self.konst(x.wrapping_add(y), w);
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    let k = self.konst(y.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if a == b {
                    return a;
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.fls;
                    }
                }
                if let Some(y) = cb {
                    let na = self.n(a).clone();
                    if (y + 1).is_power_of_two() && self.umax(a) <= y {
                        return a;
                    }
                    if na.op == Op::Zext {
                        let iw = self.w(na.a);
                        let k = self.konst(y, iw);
                        let i = self.bin(Op::And, na.a, k);
                        return self.zext(i, w);
                    }
                    if na.op == Op::And {
                        if let Some(x) = self.cval(na.b) {
                            let k = self.konst(x & y, w);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if (y + 1).is_power_of_two() && w > 1 {
                        let bits = 128 - y.leading_zeros();
                        let ex = self.extract(a, 0, bits);
                        return self.zext(ex, w);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if a == b {
                    return a;
                }
                if w == 1 && (self.is_not(a) == Some(b) || self.is_not(b) == Some(a)) {
                    return self.tru;
                }
                // or(shl(zext(hi), k), zext(lo)) => concat
                if w > 1 {
                    for (x, y) in [(a, b), (b, a)] {
                        let nx = self.n(x).clone();
                        if nx.op == Op::Shl {
                            if let Some(s) = self.cval(nx.b) {
                                let s = s as u32;
                                if s > 0 && s < w && self.umax(y) <= mask(s) {
                                    let lo = self.extract(y, 0, s);
                                    let hi = self.extract(nx.a, 0, w - s);
                                    return self.concat(hi, lo);
                                }
                            }
                        }
                        if nx.op == Op::Concat {
                            let lw = self.w(nx.b);
                            if self.cval(nx.b) == Some(0) && self.umax(y) <= mask(lw) {
                                let lo = self.extract(y, 0, lw);
                                return self.concat(nx.a, lo);
                            }
                        }
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    let n = self.n(a).clone();
                    if n.op == Op::Xor {
                        if let Some(x) = self.cval(n.b) {
                            let k = self.konst(x ^ y, w);
                            return self.bin(Op::Xor, n.a, k);
                        }
                    }
                    if n.op == Op::Zext && y <= mask(self.w(n.a)) {
                        let iw = self.w(n.a);
                        let k = self.konst(y, iw);
                        let i = self.bin(Op::Xor, n.a, k);
                        return self.zext(i, w);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(s) = cb {
                    if s >= w as u128 && op != Op::AShr {
                        return self.konst(0, w);
                    }
                    if op == Op::LShr {
                        let s = s as u32;
                        let ex = self.extract(a, s, w - s);
                        return self.zext(ex, w);
                    }
                    if op == Op::Shl {
                        let s = s as u32;
                        let lo = self.konst(0, s);
                        let hi = self.extract(a, 0, w - s);
                        return self.concat(hi, lo);
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, k);
                    }
                    if self.umax(a) < y {
                        return self.konst(0, w);
                    }
                    let n = self.n(a).clone();
                    if n.op == Op::Zext && y <= mask(self.w(n.a)) {
                        let iw = self.w(n.a);
                        let k = self.konst(y, iw);
                        let q = self.bin(Op::UDiv, n.a, k);
                        return self.zext(q, w);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                    if y > 0 && self.umax(a) < y {
                        return a;
                    }
                    let n = self.n(a).clone();
                    if n.op == Op::Zext && y <= mask(self.w(n.a)) {
                        let iw = self.w(n.a);
                        let k = self.konst(y, iw);
                        let q = self.bin(Op::URem, n.a, k);
                        return self.zext(q, w);
                    }
                }
            }
            _ => {}
        }
        self.intern(Node { op, w: w as u16, a, b, c: 0, k: 0 })
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        assert!(aw < w);
        if let Some(c) = self.cval(a) {
            return self.konst(c, w);
        }
        let n = self.n(a).clone();
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        self.intern(Node { op: Op::Zext, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.konst(sx(c, aw) as u128, w);
        }
        let n = self.n(a).clone();
        if n.op == Op::Zext && self.w(n.a) < aw {
            return self.zext(n.a, w);
        }
        if aw == 1 {
            let t = self.konst(mask(w), w);
            let z = self.konst(0, w);
            return self.ite(a, t, z);
        }
        self.intern(Node { op: Op::Sext, w: w as u16, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if let Some(c) = self.cval(a) {
            return self.konst(c >> lo, w);
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Lut => {
                if aw <= 64 {
                    let t: Vec<u64> =
                        self.luts[n.b as usize].iter().map(|x| ((*x as u128 >> lo) & mask(w)) as u64).collect();
                    return self.lut(n.a, t, w);
                }
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w: w as u16, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
            return self.konst((x << lw) | y, w);
        }
        if self.cval(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.n(hi).clone(), self.n(lo).clone());
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // zext high part: concat(zext(x), lo) = zext(concat(x, lo))
        if nh.op == Op::Zext {
            let i = self.concat(nh.a, lo);
            return self.zext(i, w);
        }
        // concat(concat(h, extract), extract)
        if nh.op == Op::Concat && nl.op == Op::Extract {
            let nb = self.n(nh.b).clone();
            if nb.op == Op::Extract && nb.a == nl.a && nb.k == nl.k + lw as u128 {
                let l = self.extract(nl.a, nl.k as u32, nb.w as u32 + lw);
                return self.concat(nh.a, l);
            }
        }
        if nl.op == Op::Concat {
            // right-nested: normalise to left-nested
            let h2 = self.concat(hi, nl.a);
            return self.concat(h2, nl.b);
        }
        self.intern(Node { op: Op::Concat, w: w as u16, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.cval(c) {
            return if x == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        } else if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if x == 1 && y == 0 {
                return self.zext(c, w);
            }
            if x == 0 && y == 1 {
                let n = self.not(c);
                return self.zext(n, w);
            }
        }
        self.intern(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru;
        }
        let (mut a, mut b) = (a, b);
        if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.w(a);
        assert!(w == self.w(b));
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return if x == y { self.tru } else { self.fls };
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            if self.umax(a) < y {
                return self.fls;
            }
            let n = self.n(a).clone();
            match n.op {
                Op::Zext => {
                    let iw = self.w(n.a);
                    if y > mask(iw) {
                        return self.fls;
                    }
                    let k = self.konst(y, iw);
                    return self.eq(n.a, k);
                }
                Op::Sext => {
                    let iw = self.w(n.a);
                    let k = self.konst(y, iw);
                    if sx(self.cval(k).unwrap(), iw) as u128 & mask(w) != y {
                        return self.fls;
                    }
                    return self.eq(n.a, k);
                }
                Op::Add => {
                    if let Some(x) = self.cval(n.b) {
                        let k = self.konst(y.wrapping_sub(x), w);
                        return self.eq(n.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.cval(n.b) {
                        let k = self.konst(x ^ y, w);
                        return self.eq(n.a, k);
                    }
                }
                Op::Ite => {
                    let (cx, cy) = (self.cval(n.b), self.cval(n.c));
                    if cx.is_some() || cy.is_some() {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.c, b);
                        return self.ite(n.a, p, q);
                    }
                }
                Op::Lut => {
                    let t: Vec<u64> =
                        self.luts[n.b as usize].iter().map(|x| (*x as u128 == y) as u64).collect();
                    return self.lut(n.a, t, 1);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hk = self.konst(y >> lw, w - lw);
                    let lk = self.konst(y, lw);
                    let p = self.eq(n.a, hk);
                    let q = self.eq(n.b, lk);
                    return self.and(p, q);
                }
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a).clone(), self.n(b).clone());
            if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if w == 1 {
                let x = self.bin(Op::Xor, a, b);
                return self.not(x);
            }
        }
        self.intern(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls;
        }
        let w = self.w(a);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return if x < y { self.tru } else { self.fls };
        }
        if cb == Some(0) || ca == Some(mask(w)) {
            return self.fls;
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let Some(y) = cb {
            if self.umax(a) < y {
                return self.tru;
            }
            if y == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            let n = self.n(a).clone();
            if n.op == Op::Zext {
                let iw = self.w(n.a);
                if y <= mask(iw) {
                    let k = self.konst(y, iw);
                    return self.ult(n.a, k);
                }
            }
            if n.op == Op::Lut {
                let t: Vec<u64> = self.luts[n.b as usize].iter().map(|x| ((*x as u128) < y) as u64).collect();
                return self.lut(n.a, t, 1);
            }
        }
        if let Some(x) = ca {
            if self.umax(b) <= x {
                return self.fls;
            }
            if x == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            let n = self.n(b).clone();
            if n.op == Op::Zext {
                let iw = self.w(n.a);
                if x <= mask(iw) {
                    let k = self.konst(x, iw);
                    return self.ult(k, n.a);
                }
            }
            if n.op == Op::Lut {
                let t: Vec<u64> = self.luts[n.b as usize].iter().map(|y| (x < (*y as u128)) as u64).collect();
                return self.lut(n.a, t, 1);
            }
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.intern(Node { op: Op::Ult, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return if sx(x, w) < sx(y, w) { self.tru } else { self.fls };
        }
        if w == 1 {
            let n = self.not(b);
            return self.and(a, n);
        }
        let half = 1u128 << (w - 1);
        if self.umax(a) < half && self.umax(b) < half {
            return self.ult(a, b);
        }
        if let Some(y) = self.cval(b) {
            if self.umax(a) < half && y >= half {
                return self.fls;
            }
        }
        if let Some(x) = self.cval(a) {
            if self.umax(b) < half && x >= half {
                return self.tru;
            }
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::Sext {
            let iw = self.w(na.a);
            if nb.op == Op::Sext && self.w(nb.a) == iw {
                return self.slt(na.a, nb.a);
            }
            if let Some(y) = self.cval(b) {
                let ys = sx(y, w);
                let lim = 1i128 << (iw - 1);
                if ys >= -lim && ys < lim {
                    let k = self.konst(y, iw);
                    return self.slt(na.a, k);
                }
            }
        }
        if nb.op == Op::Sext {
            let iw = self.w(nb.a);
            if let Some(x) = self.cval(a) {
                let xs = sx(x, w);
                let lim = 1i128 << (iw - 1);
                if xs >= -lim && xs < lim {
                    let k = self.konst(x, iw);
                    return self.slt(k, nb.a);
                }
            }
        }
        self.intern(Node { op: Op::Slt, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    /// IEEE operation on 64-bit patterns.
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = fop_eval(op, f(x), f(y));
            return self.konst(r.to_bits() as u128, 64);
        }
        self.intern(Node { op, w: 64, a, b, c: 0, k: 0 })
    }
    pub fn fun(&mut self, op: Op, a: E, w: u32) -> E {
        let n = Node { op, w: w as u16, a, b: 0, c: 0, k: 0 };
        if self.cval(a).is_some() {
            let v = self.eval_node(&n, &mut HashMap::new(), &Model::default());
            return self.konst(v, w);
        }
        self.intern(n)
    }
    /// True when the value is a float bit pattern built without arithmetic (exactly encodable in QF_BV).
    fn f_plain(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Const | Op::Var => true,
            Op::Ite => self.f_plain(n.b) && self.f_plain(n.c),
            Op::Concat | Op::Extract | Op::Zext | Op::Xor | Op::And | Op::Or | Op::Lut | Op::Shl => !self.has_f(e),
            _ => false,
        }
    }
    fn has_f(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Const | Op::Var => false,
            Op::Concat | Op::Xor | Op::And | Op::Or | Op::Shl | Op::Add | Op::Sub | Op::Mul => self.has_f(n.a) || self.has_f(n.b),
            Op::Extract | Op::Zext | Op::Sext | Op::Lut => self.has_f(n.a),
            Op::Ite => self.has_f(n.b) || self.has_f(n.c),
            Op::Eq | Op::Ult | Op::Slt => self.has_f(n.a) || self.has_f(n.b),
            _ => true,
        }
    }
    pub fn f_isnan(&mut self, a: E) -> E {
        let m = self.konst(0x7fff_ffff_ffff_ffff, 64);
        let inf = self.konst(0x7ff0_0000_0000_0000, 64);
        let x = self.bin(Op::And, a, m);
        self.ult(inf, x)
    }
    fn f_lt_bv(&mut self, a: E, b: E) -> E {
        // a < b, neither NaN: map to a total order; -0 = +0
        let z = {
            let m = self.konst(0x7fff_ffff_ffff_ffff, 64);
            let o = self.bin(Op::Or, a, b);
            let o = self.bin(Op::And, o, m);
            let zero = self.konst(0, 64);
            self.eq(o, zero) // both zero
        };
        let ka = self.f_key(a);
        let kb = self.f_key(b);
        let lt = self.ult(ka, kb);
        let nz = self.not(z);
        self.and(lt, nz)
    }
    fn f_key(&mut self, a: E) -> E {
        let s = self.extract(a, 63, 1);
        let ones = self.konst(u64::MAX as u128, 64);
        let neg = self.bin(Op::Xor, a, ones);
        let top = self.konst(1 << 63, 64);
        let pos = self.bin(Op::Xor, a, top);
        self.ite(s, neg, pos)
    }
    pub fn fcmp(&mut self, p: FCmp, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return if fcmp_eval(p, f(x), f(y)) { self.tru } else { self.fls };
        }
        match p {
            FCmp::False => return self.fls,
            FCmp::True => return self.tru,
            _ => {}
        }
        if self.f_plain(a) && self.f_plain(b) {
            let na = self.f_isnan(a);
            let nb = self.f_isnan(b);
            let un = self.or(na, nb);
            let ord = self.not(un);
            let lt = self.f_lt_bv(a, b);
            let gt = self.f_lt_bv(b, a);
            let base = match p {
                FCmp::Olt | FCmp::Ult => lt,
                FCmp::Ogt | FCmp::Ugt => gt,
                FCmp::Ole | FCmp::Ule => self.not(gt),
                FCmp::Oge | FCmp::Uge => self.not(lt),
                FCmp::Oeq | FCmp::Ueq => {
                    let o = self.or(lt, gt);
                    self.not(o)
                }
                FCmp::One | FCmp::Une => self.or(lt, gt),
                FCmp::Ord => return ord,
                FCmp::Uno => return un,
                _ => unreachable!(),
            };
            return match p {
                FCmp::Olt | FCmp::Ogt | FCmp::Ole | FCmp::Oge | FCmp::Oeq | FCmp::One => self.and(base, ord),
                _ => self.or(base, un),
            };
        }
        self.intern(Node { op: Op::FCmp(p), w: 1, a, b, c: 0, k: 0 })
    }

    pub fn real_const(&mut self, r: Rat) -> E {
        self.poly_node(Poly::konst(r))
    }

    /// Variables an expression depends on.
    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = &self.support[e as usize] {
            return s.clone();
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.support[x as usize].is_some() {
                continue;
            }
            let kids = self.children(x);
            if !done {
                stack.push((x, true));
                for k in kids {
                    if self.support[k as usize].is_none() {
                        stack.push((k, false));
                    }
                }
                continue;
            }
            let n = self.n(x).clone();
            let mut s: Vec<u32> = vec![];
            if matches!(n.op, Op::Var | Op::RVar) {
                s.push(n.a);
            }
            if n.op == Op::RUf {
                // applications of one function are related by congruence
                s.push(UF_PSEUDO | n.a);
            }
            let first = if kids.len() == 1 && s.is_empty() && n.op != Op::RUf { self.support[kids[0] as usize].clone() } else { None };
            if let Some(fst) = first {
                self.support[x as usize] = Some(fst);
                continue;
            }
            for k in kids {
                s.extend(self.support[k as usize].as_ref().unwrap().iter());
            }
            s.sort();
            s.dedup();
            self.support[x as usize] = Some(Rc::new(s));
        }
        self.support[e as usize].clone().unwrap()
    }

    pub fn children(&self, e: E) -> Vec<E> {
        let n = self.n(e);
        match n.op {
            Op::Const | Op::Var | Op::RVar => vec![],
            Op::Zext | Op::Sext | Op::Extract | Op::Lut | Op::FSqrt | Op::FUi | Op::FSi | Op::FToUi | Op::FToSi
            | Op::FCvt32 | Op::FCvt64 | Op::FRnd(_) | Op::FLog | Op::FLog2 | Op::FExp | Op::RSqrt | Op::RInt
            | Op::RLt0 | Op::RLe0 | Op::REq0 => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            Op::RPoly => self.polys[n.k as usize].atoms(),
            Op::RUf => self.ufargs[n.k as usize].to_vec(),
            _ => vec![n.a, n.b],
        }
    }

    // ---- evaluation under a model
    pub fn eval(&self, e: E, m: &Model) -> u128 {
        let mut memo = HashMap::new();
        self.ev(e, &mut memo, m)
    }
    fn ev(&self, e: E, memo: &mut HashMap<E, u128>, m: &Model) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.bv.get(&n.a).copied().unwrap_or(0),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let v = self.eval_node(n, memo, m);
        memo.insert(e, v);
        v
    }
    fn evf(&self, e: E, memo: &mut HashMap<E, u128>, m: &Model) -> f64 {
        f(self.ev(e, memo, m))
    }
    fn eval_node(&self, n: &Node, memo: &mut HashMap<E, u128>, m: &Model) -> u128 {
        let w = n.w as u32;
        let fb = |x: f64| x.to_bits() as u128;
        match n.op {
            Op::Const => n.k,
            Op::Var => m.bv.get(&n.a).copied().unwrap_or(0),
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::And | Op::Or | Op::Xor
            | Op::Shl | Op::LShr | Op::AShr => {
                let a = self.ev(n.a, memo, m);
                let b = self.ev(n.b, memo, m);
                bin_eval(n.op, a, b, w)
            }
            Op::Zext => self.ev(n.a, memo, m),
            Op::Sext => sx(self.ev(n.a, memo, m), self.w(n.a)) as u128 & mask(w),
            Op::Extract => (self.ev(n.a, memo, m) >> n.k) & mask(w),
            Op::Concat => (self.ev(n.a, memo, m) << self.w(n.b)) | self.ev(n.b, memo, m),
            Op::Eq => (self.ev(n.a, memo, m) == self.ev(n.b, memo, m)) as u128,
            Op::Ult => (self.ev(n.a, memo, m) < self.ev(n.b, memo, m)) as u128,
            Op::Ule => (self.ev(n.a, memo, m) <= self.ev(n.b, memo, m)) as u128,
            Op::Slt | Op::Sle => {
                let iw = self.w(n.a);
                let a = sx(self.ev(n.a, memo, m), iw);
                let b = sx(self.ev(n.b, memo, m), iw);
                if n.op == Op::Slt {
                    (a < b) as u128
                } else {
                    (a <= b) as u128
                }
            }
            Op::Ite => {
                if self.ev(n.a, memo, m) == 1 {
                    self.ev(n.b, memo, m)
                } else {
                    self.ev(n.c, memo, m)
                }
            }
            Op::Lut => {
                let i = self.ev(n.a, memo, m) as usize;
                let t = &self.luts[n.b as usize];
                t.get(i).copied().unwrap_or(0) as u128
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FPow => {
                let a = self.evf(n.a, memo, m);
                let b = self.evf(n.b, memo, m);
                fb(fop_eval(n.op, a, b))
            }
            Op::FSqrt | Op::FLog | Op::FLog2 | Op::FExp | Op::FRnd(_) => {
                let a = self.evf(n.a, memo, m);
                fb(fop_eval(n.op, a, 0.0))
            }
            Op::FCmp(p) => {
                let a = self.evf(n.a, memo, m);
                let b = self.evf(n.b, memo, m);
                fcmp_eval(p, a, b) as u128
            }
            Op::FUi => fb(self.ev(n.a, memo, m) as f64),
            Op::FSi => fb(sx(self.ev(n.a, memo, m), self.w(n.a)) as f64),
            Op::FToUi => {
                let x = self.evf(n.a, memo, m);
                let v = x as u128;
                v.min(mask(w))
            }
            Op::FToSi => {
                let x = self.evf(n.a, memo, m);
                let lim = (mask(w) >> 1) as i128;
                (x as i128).clamp(-lim - 1, lim) as u128 & mask(w)
            }
            Op::FCvt32 => (self.evf(n.a, memo, m) as f32).to_bits() as u128,
            Op::FCvt64 => fb(f32::from_bits(self.ev(n.a, memo, m) as u32) as f64),
            Op::RVar => fb(m.re.get(&n.a).copied().unwrap_or(0.0)),
            Op::RPoly => {
                let p = self.polys[n.k as usize].clone();
                let mut s = 0.0;
                for (mono, c) in &p.terms {
                    let mut t = c.to_f64();
                    for (at, e) in mono {
                        let x = self.evf(*at, memo, m);
                        for _ in 0..*e {
                            t *= x;
                        }
                    }
                    s += t;
                }
                fb(s)
            }
            Op::RSqrt => fb(self.evf(n.a, memo, m).sqrt()),
            Op::RDiv => {
                let a = self.evf(n.a, memo, m);
                let b = self.evf(n.b, memo, m);
                fb(a / b)
            }
            Op::RRaw => {
                let a = self.evf(n.a, memo, m);
                let b = self.evf(n.b, memo, m);
                fb(if n.k == 0 { a + b } else { a * b })
            }
            Op::RUf => fb(f64::NAN),
            Op::RInt => fb(self.ev(n.a, memo, m) as f64),
            Op::RLt0 => (self.evf(n.a, memo, m) < 0.0) as u128,
            Op::RLe0 => (self.evf(n.a, memo, m) <= 0.0) as u128,
            Op::REq0 => (self.evf(n.a, memo, m) == 0.0) as u128,
        }
    }
    /// Does the expression contain real-valued subterms?
    pub fn has_real(&self, e: E, memo: &mut HashMap<E, bool>) -> bool {
        if let Some(b) = memo.get(&e) {
            return *b;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::RPoly | Op::RSqrt | Op::RDiv | Op::RRaw | Op::RUf | Op::RInt | Op::RVar | Op::RLt0 | Op::RLe0 | Op::REq0 => true,
            _ => self.children(e).into_iter().any(|k| self.has_real(k, memo)),
        };
        memo.insert(e, r);
        r
    }
    pub fn has_uf(&self, e: E) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if self.n(x).op == Op::RUf {
                return true;
            }
            st.extend(self.children(x));
        }
        false
    }
}
