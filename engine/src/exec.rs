//! Symbolic execution of LLVM IR: depth-first path exploration with concolic models.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::real::{Poly, Rat};
use crate::smt::{Res, Smt};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Stop {
    /// the path left the assumed input space
    Pruned,
    /// the path left a stated bound of the exploration (counted)
    Bound(String),
    Panic(String),
    /// inconclusive
    Err(String),
    Done,
    Dead,
    /// a reproduced counterexample ends the exploration
    Found,
}
pub type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Rc<Vec<V>>,
    pub blk: u32,
    pub ip: u32,
    pub allocas: Rc<Vec<u64>>,
}

#[derive(Clone)]
pub struct Tape {
    pub e: V,
    pub kind: u8, // 0 sequential, 1 rng
    pub key: [V; 4],
    pub idx: u64,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, bool>>,
    /// unsigned bounds that follow from what is known
    pub bounds: Rc<HashMap<E, (u128, u128)>>,
    pub conc: Rc<HashMap<E, u128>>,
    pub model: Rc<Model>,
    pub tape: Vec<Tape>,
    pub obs: Vec<(V, bool)>,
    pub covers: Vec<Rc<str>>,
    pub steps: u64,
    pub forks: u32,
    /// values split off one by one where the encoding needs a constant
    pub enums: u32,
    pub notes: Vec<Rc<str>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub tape: String,
    pub native: String,
    pub kind: String,
    pub strong: bool,
}

pub struct Cfg {
    pub case: u64,
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub deadline: Instant,
    pub max_paths: u64,
    pub trace: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub bounded: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub decisions: u64,
    pub covers: BTreeMap<String, u64>,
    pub funcs: HashSet<u32>,
    pub errors: Vec<String>,
    pub max_pc: usize,
    pub max_vars: usize,
}

pub struct Done {
    pub tape: String,
    pub obs: Vec<(u64, bool, bool)>, // value, is_float, comparable
    pub covers: Vec<String>,
    pub real: bool,
    pub uf: bool,
}

pub struct Engine {
    pub m: &'static Module,
    pub a: Arena,
    pub smt: Smt,
    pub g: Globals,
    pub work: Vec<State>,
    pub cfg: Cfg,
    pub st: Stats,
    pub real_memo: HashMap<E, bool>,
    /// square roots of constants are exact too (asked for by the harness)
    pub exact_roots: bool,
    pub vio: Vec<Violation>,
    pub vio_seen: HashMap<String, u32>,
    pub done: Vec<Done>,
    pub replay: crate::replay::Replay,
    pub unreproduced: Vec<(String, String, String)>,
    pub rngs: Vec<([V; 4], u64, E)>,
    pub inputs: HashMap<(usize, String), E>,
    /// The functions that format an f64, and the one that formats a symbolic one.
    pub fmt_f64: (Vec<u32>, u32),
}
/// `<f64 as Display>::fmt` and `<f64 as Debug>::fmt`, when the module has `es_fmt_f64`.
pub fn fmt_f64(m: &Module) -> (Vec<u32>, u32) {
    let at = |f: &dyn Fn(&str) -> bool| -> Vec<u32> {
        m.funcs.iter().enumerate().filter(|(_, x)| x.1.is_some() && f(&x.0)).map(|(i, _)| i as u32).collect()
    };
    match at(&|n| n == "es_fmt_f64").first() {
        Some(t) => (at(&|n| n.contains("3fmt5floatdNt") && n.ends_with("3fmt")), *t),
        None => (vec![], 0),
    }
}

fn cv(v: &V) -> Option<u128> {
    match v {
        V::C(x) => Some(*x as u128),
        V::W(x) => Some(**x),
        _ => None,
    }
}
fn b2op(b: Bin) -> Op {
    match b {
        Bin::Add => Op::Add,
        Bin::Sub => Op::Sub,
        Bin::Mul => Op::Mul,
        Bin::UDiv => Op::UDiv,
        Bin::SDiv => Op::SDiv,
        Bin::URem => Op::URem,
        Bin::SRem => Op::SRem,
        Bin::Shl => Op::Shl,
        Bin::LShr => Op::LShr,
        Bin::AShr => Op::AShr,
        Bin::And => Op::And,
        Bin::Or => Op::Or,
        Bin::Xor => Op::Xor,
        Bin::FAdd => Op::FAdd,
        Bin::FSub => Op::FSub,
        Bin::FMul => Op::FMul,
        Bin::FDiv => Op::FDiv,
        Bin::FRem => Op::FRem,
    }
}
#[inline]
fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn fbits(x: f64) -> V {
    V::C(x.to_bits())
}

/// A real-mode operand: an exact polynomial or a special IEEE value.
pub enum RV {
    P(Rc<Poly>),
    Sp(f64),
}

#[inline(always)]
fn get<'a>(fr: &'a Frame, o: &'a Opd) -> &'a V {
    match o {
        Opd::Reg(r) => unsafe { fr.regs.get_unchecked(*r as usize) },
        Opd::K(v) => v,
    }
}

impl Engine {
    // ------------------------------------------------------------ values
    pub fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.a.konst(*x as u128, w),
            V::W(x) => self.a.konst(**x, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as expression"),
        }
    }
    pub fn val(&self, e: E) -> V {
        match self.a.cval(e) {
            Some(c) => mkc(c, self.a.w(e)),
            None => V::S(e),
        }
    }
    fn is_real_v(&self, v: &V) -> bool {
        matches!(v, V::S(e) if self.a.is_real(*e))
    }
    pub fn has_real(&mut self, e: E) -> bool {
        let mut memo = std::mem::take(&mut self.real_memo);
        let r = self.a.has_real(e, &mut memo);
        self.real_memo = memo;
        r
    }

    // ------------------------------------------------------------ path conditions
    pub fn slice(&mut self, s: &State, c: E) -> Vec<E> {
        let mut vars: HashSet<u32> = self.a.support(c).iter().copied().collect();
        let mut out = vec![];
        let mut rest: Vec<(E, Rc<Vec<u32>>)> = s.pc.iter().map(|e| (*e, self.a.support(*e))).collect();
        loop {
            let mut changed = false;
            let mut next = vec![];
            for (e, sup) in rest {
                if sup.iter().any(|v| vars.contains(v)) {
                    vars.extend(sup.iter());
                    out.push(e);
                    changed = true;
                } else {
                    next.push((e, sup));
                }
            }
            rest = next;
            if !changed {
                return out;
            }
        }
    }
    pub fn query(&mut self, s: &State, c: E) -> R<Option<Model>> {
        let mut q = self.slice(s, c);
        q.push(c);
        match self.smt.check(&mut self.a, &q) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown(m) => err(format!("solver: {m}")),
        }
    }
    pub fn merged(s: &State, m: &Model) -> Rc<Model> {
        let mut n = (*s.model).clone();
        for (k, v) in &m.bv {
            n.bv.insert(*k, *v);
        }
        for (k, v) in &m.re {
            n.re.insert(*k, *v);
        }
        Rc::new(n)
    }
    fn learn(&mut self, s: &mut State, c: E, v: bool) {
        Rc::make_mut(&mut s.known).insert(c, v);
        self.learn_bounds(s, c, v, 8);
    }
    fn learn_bounds(&mut self, s: &mut State, c: E, v: bool, fuel: u32) {
        let n = self.a.n(c).clone();
        match n.op {
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let w = self.a.w(n.a);
                let (x, y) = (self.interval(s, n.a, 6), self.interval(s, n.b, 6));
                if matches!(n.op, Op::Slt | Op::Sle) {
                    let half = 1u128 << (w - 1);
                    if x.1 >= half || y.1 >= half {
                        return;
                    }
                }
                let strict = matches!(n.op, Op::Ult | Op::Slt);
                if v {
                    // a < b or a <= b
                    let d = strict as u128;
                    self.tighten(s, n.a, 0, y.1.saturating_sub(d), fuel);
                    self.tighten(s, n.b, x.0 + d, u128::MAX, fuel);
                } else {
                    // b <= a or b < a
                    let d = !strict as u128;
                    self.tighten(s, n.b, 0, x.1.saturating_sub(d), fuel);
                    self.tighten(s, n.a, y.0 + d, u128::MAX, fuel);
                }
            }
            Op::Eq => {
                let (x, y) = (self.interval(s, n.a, 6), self.interval(s, n.b, 6));
                if v {
                    self.tighten(s, n.a, y.0, y.1, fuel);
                    self.tighten(s, n.b, x.0, x.1, fuel);
                } else {
                    for (e, r, o) in [(n.a, x, y), (n.b, y, x)] {
                        if o.0 == o.1 {
                            if r.0 == o.0 {
                                self.tighten(s, e, o.0 + 1, u128::MAX, fuel);
                            } else if r.1 == o.0 && o.0 > 0 {
                                self.tighten(s, e, 0, o.0 - 1, fuel);
                            }
                        }
                    }
                }
            }
            Op::And | Op::Or if self.a.w(c) == 1 && fuel > 0 => {
                // both operands are the neutral value, or one of them once the other is settled
                let neutral = n.op == Op::And;
                if v == neutral {
                    self.learn_sub(s, n.a, v, fuel - 1);
                    self.learn_sub(s, n.b, v, fuel - 1);
                } else if self.settled(s, n.a, 8) == Some(neutral) {
                    self.learn_sub(s, n.b, v, fuel - 1);
                } else if self.settled(s, n.b, 8) == Some(neutral) {
                    self.learn_sub(s, n.a, v, fuel - 1);
                }
            }
            _ => {
                if let Some(x) = self.a.is_not(c) {
                    if fuel > 0 {
                        self.learn_sub(s, x, !v, fuel - 1);
                    }
                }
            }
        }
    }
    fn learn_sub(&mut self, s: &mut State, c: E, v: bool, fuel: u32) {
        if self.a.cval(c).is_none() {
            Rc::make_mut(&mut s.known).insert(c, v);
            self.learn_bounds(s, c, v, fuel);
        }
    }
    fn tighten(&mut self, s: &mut State, e: E, lo: u128, hi: u128, fuel: u32) {
        if self.a.cval(e).is_some() {
            return;
        }
        let (l, h) = self.interval(s, e, 6);
        let (lo, hi) = (lo.max(l), hi.min(h));
        if lo > hi || (lo, hi) == (l, h) {
            return;
        }
        Rc::make_mut(&mut s.bounds).insert(e, (lo, hi));
        if fuel == 0 {
            return;
        }
        let n = self.a.n(e).clone();
        match n.op {
            Op::Zext => self.tighten(s, n.a, lo, hi, fuel - 1),
            Op::Add => {
                if let Some(k) = self.a.cval(n.b) {
                    let x = self.interval(s, n.a, 6);
                    if x.1.checked_add(k).is_some_and(|t| t <= crate::expr::mask(self.a.w(e))) {
                        self.tighten(s, n.a, lo.saturating_sub(k), hi.saturating_sub(k), fuel - 1);
                    }
                }
            }
            _ => {}
        }
    }
    /// Unsigned bounds of a bit-vector on this path.
    fn interval(&mut self, s: &State, e: E, fuel: u32) -> (u128, u128) {
        if let Some(k) = self.a.cval(e) {
            return (k, k);
        }
        let m = self.a.umax(e);
        let (mut lo, mut hi) = s.bounds.get(&e).copied().unwrap_or((0, m));
        if fuel > 0 {
            let n = self.a.n(e).clone();
            let r = match n.op {
                Op::Zext => Some(self.interval(s, n.a, fuel - 1)),
                Op::Ite => {
                    let (x, y) = (self.interval(s, n.b, fuel - 1), self.interval(s, n.c, fuel - 1));
                    Some((x.0.min(y.0), x.1.max(y.1)))
                }
                Op::Add => {
                    let (x, y) = (self.interval(s, n.a, fuel - 1), self.interval(s, n.b, fuel - 1));
                    let mk = crate::expr::mask(self.a.w(e));
                    match (x.1.checked_add(y.1), self.a.cval(n.b)) {
                        (Some(t), _) if t <= mk => Some((x.0 + y.0, t)),
                        // adding 2^w - d without a borrow
                        (_, Some(k)) if k > mk / 2 && x.0 >= mk - k + 1 => Some((x.0 - (mk - k + 1), x.1 - (mk - k + 1))),
                        _ => None,
                    }
                }
                _ => None,
            };
            if let Some((l, h)) = r {
                lo = lo.max(l);
                hi = hi.min(h);
            }
        }
        (lo, hi)
    }
    /// The truth of a condition when what is known settles it.
    fn settled(&mut self, s: &State, c: E, fuel: u32) -> Option<bool> {
        if let Some(k) = self.a.cval(c) {
            return Some(k == 1);
        }
        if let Some(b) = s.known.get(&c) {
            return Some(*b);
        }
        if fuel == 0 {
            return None;
        }
        if let Some(x) = self.a.is_not(c) {
            return self.settled(s, x, fuel - 1).map(|b| !b);
        }
        let n = self.a.n(c).clone();
        if matches!(n.op, Op::And | Op::Or) && self.a.w(c) == 1 {
            let zero = n.op == Op::Or;
            let x = self.settled(s, n.a, fuel - 1);
            if x == Some(zero) {
                return x;
            }
            let y = self.settled(s, n.b, fuel - 1);
            if y == Some(zero) {
                return y;
            }
            return match (x, y) {
                (Some(_), Some(_)) => Some(!zero),
                _ => None,
            };
        }
        if !matches!(n.op, Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Eq) {
            return None;
        }
        let (x, y) = (self.interval(s, n.a, 6), self.interval(s, n.b, 6));
        if matches!(n.op, Op::Slt | Op::Sle) {
            let half = 1u128 << (self.a.w(n.a) - 1);
            if x.1 >= half || y.1 >= half {
                return None;
            }
        }
        match n.op {
            Op::Eq => {
                if x.1 < y.0 || y.1 < x.0 {
                    Some(false)
                } else if x.0 == x.1 && x == y {
                    Some(true)
                } else {
                    None
                }
            }
            Op::Ult | Op::Slt => {
                if x.1 < y.0 {
                    Some(true)
                } else if x.0 >= y.1 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => {
                if x.1 <= y.0 {
                    Some(true)
                } else if x.0 > y.1 {
                    Some(false)
                } else {
                    None
                }
            }
        }
    }
    fn fork(&mut self, s: &State, c: E, v: bool, model: Option<&Model>) {
        let mut o = s.clone();
        let lit = if v { c } else { self.a.not(c) };
        o.pc.push(lit);
        o.forks += 1;
        self.learn(&mut o, c, v);
        if let Some(m) = model {
            o.model = Self::merged(s, m);
        }
        self.st.forks += 1;
        self.work.push(o);
    }
    /// The truth value of `c` on this path; the other feasible value is explored by a forked state
    /// that re-executes the current instruction.
    pub fn decide(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.a.cval(c) {
            return Ok(k == 1);
        }
        if let Some(n) = self.a.is_not(c) {
            return Ok(!self.decide(s, n)?);
        }
        if let Some(b) = s.known.get(&c) {
            return Ok(*b);
        }
        self.st.decisions += 1;
        if let Some(b) = self.settled(s, c, 8) {
            return Ok(b);
        }
        let nc = self.a.not(c);
        if !self.has_real(c) {
            let v = self.a.eval(c, &s.model) == 1;
            let other = if v { nc } else { c };
            match self.query(s, other)? {
                None => {}
                Some(m) => {
                    self.fork(s, c, !v, Some(&m));
                    s.pc.push(if v { c } else { nc });
                }
            }
            self.learn(s, c, v);
            return Ok(v);
        }
        let t = self.query(s, c)?;
        let f = self.query(s, nc)?;
        match (t, f) {
            (None, None) => Err(Stop::Dead),
            (Some(_), None) => {
                self.learn(s, c, true);
                Ok(true)
            }
            (None, Some(_)) => {
                self.learn(s, c, false);
                Ok(false)
            }
            (Some(mt), Some(mf)) => {
                self.fork(s, c, false, Some(&mf));
                s.model = Self::merged(s, &mt);
                s.pc.push(c);
                self.learn(s, c, true);
                Ok(true)
            }
        }
    }
    fn decide_v(&mut self, s: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(x) => Ok(*x & 1 == 1),
            V::S(e) => {
                let e = *e;
                self.decide(s, e)
            }
            _ => err("decide on aggregate"),
        }
    }
    pub fn assume(&mut self, s: &mut State, c: E) -> R<()> {
        if let Some(k) = self.a.cval(c) {
            return if k == 1 { Ok(()) } else { Err(Stop::Pruned) };
        }
        if !self.has_real(c) && self.a.eval(c, &s.model) == 1 {
            s.pc.push(c);
            self.learn_lit(s, c);
            return Ok(());
        }
        match self.query(s, c)? {
            None => Err(Stop::Pruned),
            Some(m) => {
                s.model = Self::merged(s, &m);
                s.pc.push(c);
                self.learn_lit(s, c);
                Ok(())
            }
        }
    }
    fn learn_lit(&mut self, s: &mut State, c: E) {
        match self.a.is_not(c) {
            Some(n) => self.learn(s, n, false),
            None => self.learn(s, c, true),
        }
    }
    pub fn concretize(&mut self, s: &mut State, v: &V, w: u32) -> R<u128> {
        let e = match v {
            V::C(x) => return Ok(*x as u128),
            V::W(x) => return Ok(**x),
            V::S(e) => *e,
            V::A(_) => return err("concretize aggregate"),
        };
        if self.has_real(e) {
            return err("a real value is used as bits");
        }
        let _ = w;
        if let Some(k) = s.conc.get(&e) {
            return Ok(*k);
        }
        let k = self.a.eval(e, &s.model);
        let kk = self.a.konst(k, self.a.w(e));
        let c = self.a.eq(e, kk);
        if !self.decide(s, c)? {
            return err("concretize: model inconsistent");
        }
        Rc::make_mut(&mut s.conc).insert(e, k);
        Ok(k)
    }

    /// Splits off one value, for a limited number of values along a path.
    fn enumerate(&mut self, s: &mut State, v: &V, w: u32) -> R<Option<u128>> {
        if s.enums >= 80 {
            return Ok(None);
        }
        s.enums += 1;
        self.concretize(s, v, w).map(Some)
    }
    fn shifted(&self, e: E, fuel: u32) -> bool {
        let n = self.a.n(e);
        match n.op {
            Op::Shl | Op::LShr | Op::AShr => self.a.cval(n.b).is_none(),
            Op::Const | Op::Var | Op::RVar => false,
            _ => fuel > 0 && self.a.children(e).into_iter().any(|c| self.shifted(c, fuel - 1)),
        }
    }

    // ------------------------------------------------------------ reals
    /// A choice between constants.
    fn const_leaves(&self, e: E, fuel: u32) -> bool {
        let n = self.a.n(e);
        match n.op {
            Op::Const | Op::Lut => true,
            Op::Ite => fuel > 0 && self.const_leaves(n.b, fuel - 1) && self.const_leaves(n.c, fuel - 1),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                fuel > 0 && self.const_leaves(n.a, fuel / 2) && self.const_leaves(n.b, fuel / 2)
            }
            _ => false,
        }
    }
    pub fn rv(&mut self, s: &mut State, v: &V) -> R<RV> {
        match v {
            V::C(b) => {
                let x = f64::from_bits(*b);
                if !x.is_finite() {
                    return Ok(RV::Sp(x));
                }
                match Rat::from_f64(x) {
                    Some(r) => Ok(RV::P(Rc::new(Poly::konst(r)))),
                    None => {
                        if x.abs() < 1e-30 {
                            // below the precision of the encoding
                            Ok(RV::P(Rc::new(Poly::konst(Rat { n: if x < 0.0 { -1 } else { 1 }, d: 1i128 << 100 }))))
                        } else {
                            err(format!("constant {x} too large for the real encoding"))
                        }
                    }
                }
            }
            V::S(e) if self.a.is_real(*e) => Ok(RV::P(self.a.poly(*e))),
            V::S(e) => {
                // an integer-valued conversion
                let n = self.a.n(*e).clone();
                if n.op == Op::FUi {
                    let at = self.a.atom(Op::RInt, n.a, 0, 0);
                    return Ok(RV::P(Rc::new(Poly::atom(at))));
                }
                if self.const_leaves(*e, 64) {
                    let e = *e;
                    let k = self.concretize(s, &V::S(e), 64)?;
                    return self.rv(s, &V::C(k as u64));
                }
                if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv) {
                    // from here on in exact reals
                    let (x, y) = (self.val(n.a), self.val(n.b));
                    if let (RV::P(x), RV::P(y)) = (self.rv(s, &x)?, self.rv(s, &y)?) {
                        return Ok(RV::P(Rc::new(match n.op {
                            Op::FAdd => self.padd(&x, &y),
                            Op::FSub => self.padd(&x, &y.neg()),
                            Op::FMul => self.pmul(&x, &y),
                            _ => {
                                if self.sign(s, &y)? == 0 {
                                    return err("division by zero in a mixed expression");
                                }
                                let i = self.pinv(&y);
                                self.pmul(&x, &i)
                            }
                        })));
                    }
                }
                if let Some(k) = self.enumerate(s, v, 64)? {
                    return self.rv(s, &V::C(k as u64));
                }
                err(format!("bit-level float mixed with real ({:?})", n.op))
            }
            _ => err("real of aggregate"),
        }
    }
    fn rp(&mut self, p: Poly) -> V {
        if let Some(c) = p.as_const() {
            // keep constants that are exact doubles concrete
            let f = c.to_f64();
            if c.is_zero() {
                return fbits(0.0);
            }
            if Rat::from_f64(f) == Some(c) {
                return fbits(f);
            }
        }
        V::S(self.a.poly_node(p))
    }
    fn raw(&mut self, k: u128, x: &Poly, y: &Poly) -> Poly {
        let a = self.a.poly_node(x.clone());
        let b = self.a.poly_node(y.clone());
        Poly::atom(self.a.atom(Op::RRaw, a, b, k))
    }
    pub fn padd(&mut self, x: &Poly, y: &Poly) -> Poly {
        match x.add(y) {
            Some(p) => p,
            None => self.raw(0, x, y),
        }
    }
    pub fn pmul(&mut self, x: &Poly, y: &Poly) -> Poly {
        match x.mul(y) {
            Some(p) => self.reduce(p),
            None => self.raw(1, x, y),
        }
    }
    /// sqrt(P)^2 = P, x * (1/x) = 1, (1/sqrt(P))^2 = 1/P
    fn reduce(&mut self, p: Poly) -> Poly {
        let mut hit = None;
        'o: for (i, (m, _)) in p.terms.iter().enumerate() {
            for (at, e) in m {
                let n = self.a.n(*at);
                if n.op == Op::RSqrt && *e >= 2 {
                    hit = Some((i, *at, 0u8));
                    break 'o;
                }
                if n.op == Op::RDiv {
                    let d = self.a.poly(n.b);
                    // single-atom denominators cancel
                    if d.terms.len() == 1 && d.terms[0].0.len() == 1 && d.terms[0].0[0].1 == 1 && d.terms[0].1 == Rat::ONE {
                        let x = d.terms[0].0[0].0;
                        if m.iter().any(|(y, _)| *y == x) {
                            hit = Some((i, *at, 1));
                            break 'o;
                        }
                        if self.a.n(x).op == Op::RSqrt && *e >= 2 {
                            hit = Some((i, *at, 2));
                            break 'o;
                        }
                    }
                }
            }
        }
        if hit.is_none() {
            // sqrt(a) sqrt(b) = sqrt(a b) for constants
            'p: for (i, (m, _)) in p.terms.iter().enumerate() {
                let mut first = None;
                for (at, _) in m {
                    if self.const_root(*at).is_some() {
                        if first.is_some() {
                            hit = Some((i, *at, 3));
                            break 'p;
                        }
                        first = Some(*at);
                    }
                }
            }
        }
        let Some((i, at, how)) = hit else { return p };
        let mut rest = p.clone();
        let (mut m, c) = rest.terms.remove(i);
        let dec = |m: &mut Vec<(E, u32)>, x: E, k: u32| {
            for t in m.iter_mut() {
                if t.0 == x {
                    t.1 -= k;
                }
            }
            m.retain(|t| t.1 > 0);
        };
        let extra: Poly = match how {
            0 => {
                dec(&mut m, at, 2);
                (*self.a.poly(self.a.n(at).a)).clone()
            }
            3 => {
                let o = m.iter().map(|t| t.0).find(|x| *x != at && self.const_root(*x).is_some()).unwrap();
                let ab = self.const_root(at).unwrap().checked_mul(self.const_root(o).unwrap());
                match ab {
                    Some(ab) => {
                        dec(&mut m, at, 1);
                        dec(&mut m, o, 1);
                        self.psqrt(&Poly::konst(Rat::int(ab)))
                    }
                    None => return p,
                }
            }
            1 => {
                let x = self.a.poly(self.a.n(at).b).terms[0].0[0].0;
                dec(&mut m, at, 1);
                dec(&mut m, x, 1);
                Poly::konst(Rat::ONE)
            }
            _ => {
                let x = self.a.poly(self.a.n(at).b).terms[0].0[0].0;
                dec(&mut m, at, 2);
                let q = (*self.a.poly(self.a.n(x).a)).clone();
                self.pinv(&q)
            }
        };
        let t = Poly { terms: vec![(m, c)] };
        let t = self.pmul(&t, &extra);
        let rest = self.reduce(rest);
        self.padd(&rest, &t)
    }
    /// the c of a square root of a constant c
    fn const_root(&self, at: E) -> Option<i128> {
        let n = self.a.n(at);
        if n.op != Op::RSqrt {
            return None;
        }
        self.a.poly(n.a).as_const().filter(|c| c.d == 1).map(|c| c.n)
    }
    /// the sign of a sum of square roots of constants, where it is not a close call
    fn const_sign(&self, p: &Poly) -> Option<i32> {
        let (mut v, mut size) = (0.0, 0.0);
        for (m, c) in &p.terms {
            let mut t = c.to_f64();
            for (at, e) in m {
                t *= (self.const_root(*at)? as f64).sqrt().powi(*e as i32);
            }
            v += t;
            size += f64::abs(t);
        }
        if f64::abs(v) > 1e-9 * size {
            Some(if v < 0.0 { -1 } else { 1 })
        } else {
            None
        }
    }
    /// 1/d for a non-zero d
    fn pinv(&mut self, d: &Poly) -> Poly {
        if let Some(c) = d.as_const() {
            return Poly::konst(c.inv());
        }
        if d.terms.len() == 1 {
            let (m, c) = d.terms[0].clone();
            let mut r = Poly::konst(c.inv());
            for (at, e) in m {
                // 1/(1/x) = x, 1/sqrt(c) = sqrt(c)/c
                let n = self.a.n(at).clone();
                let one = if let Some(c) = self.const_root(at) {
                    Poly { terms: vec![(vec![(at, 1)], Rat::new(1, c))] }
                } else if n.op == Op::RDiv {
                    (*self.a.poly(n.b)).clone()
                } else {
                    let o = self.a.poly_node(Poly::konst(Rat::ONE));
                    let b = self.a.poly_node(Poly::atom(at));
                    Poly::atom(self.a.atom(Op::RDiv, o, b, 0))
                };
                for _ in 0..e {
                    r = self.pmul(&r, &one);
                }
            }
            return r;
        }
        let l = d.lead();
        let o = self.a.poly_node(Poly::konst(Rat::ONE));
        match d.scale(l.inv()) {
            Some(m) => {
                let b = self.a.poly_node(m);
                let at = self.a.atom(Op::RDiv, o, b, 0);
                Poly::atom(at).scale(l.inv()).unwrap()
            }
            None => {
                let b = self.a.poly_node(d.clone());
                Poly::atom(self.a.atom(Op::RDiv, o, b, 0))
            }
        }
    }
    fn isqrt(n: i128) -> Option<i128> {
        if n < 0 {
            return None;
        }
        let mut r = (n as f64).sqrt() as i128;
        while r > 0 && r.checked_mul(r).map_or(true, |x| x > n) {
            r -= 1;
        }
        while (r + 1).checked_mul(r + 1).map_or(false, |x| x <= n) {
            r += 1;
        }
        if r * r == n {
            Some(r)
        } else {
            None
        }
    }
    /// sqrt of a polynomial known to be non-negative
    fn psqrt(&mut self, p: &Poly) -> Poly {
        if p.terms.is_empty() {
            return Poly::zero();
        }
        let l = p.lead();
        let la = if l.n < 0 { l.neg() } else { l };
        // sqrt(n/d) = sqrt(n*d)/d
        let mut coef = Poly::konst(Rat::ONE);
        let mut q = p.clone();
        if la != Rat::ONE {
            if let (Some(nd), Some(s)) = (la.n.checked_mul(la.d), p.scale(la.inv())) {
                q = s;
                coef = match Self::isqrt(nd) {
                    Some(r) => Poly::konst(Rat::new(r, la.d)),
                    None => {
                        // the square-free part
                        let (mut r, mut m) = (1i128, nd);
                        let mut f = 2i128;
                        while f < 2000 && f * f <= m {
                            while m % (f * f) == 0 {
                                m /= f * f;
                                r *= f;
                            }
                            f += 1;
                        }
                        let c = self.a.poly_node(Poly::konst(Rat::int(m)));
                        let at = self.a.atom(Op::RSqrt, c, 0, 0);
                        Poly { terms: vec![(vec![(at, 1)], Rat::new(r, la.d))] }
                    }
                };
            }
        }
        if q.as_const() == Some(Rat::ONE) {
            return coef;
        }
        // a perfect square of a single inverse atom: sqrt(1/x) = 1/sqrt(x)
        if q.terms.len() == 1 && q.terms[0].1 == Rat::ONE {
            let m = q.terms[0].0.clone();
            if m.len() == 1 && m[0].1 == 1 && self.a.n(m[0].0).op == Op::RDiv {
                let d = (*self.a.poly(self.a.n(m[0].0).b)).clone();
                let s = self.psqrt(&d);
                let i = self.pinv(&s);
                return self.pmul(&coef, &i);
            }
            if m.len() == 1 && m[0].1 == 2 && matches!(self.a.n(m[0].0).op, Op::RSqrt) {
                return self.pmul(&coef, &Poly::atom(m[0].0));
            }
        }
        let n = self.a.poly_node(q);
        let at = Poly::atom(self.a.atom(Op::RSqrt, n, 0, 0));
        self.pmul(&coef, &at)
    }
    /// p < 0
    pub fn rlt0(&mut self, p: &Poly) -> E {
        if let Some(c) = p.as_const() {
            return if c.n < 0 { self.a.tru } else { self.a.fls };
        }
        if let Some(g) = self.const_sign(p) {
            return if g < 0 { self.a.tru } else { self.a.fls };
        }
        let l = p.lead();
        let la = if l.n < 0 { l.neg() } else { l };
        let q = p.scale(la.inv()).unwrap_or_else(|| p.clone());
        // canonical: q<0 with positive lead is RLt0(q); with negative lead it is RLt0(q) too, but
        // q <= 0 is expressed as not(-q < 0)
        let n = self.a.poly_node(q);
        self.a.bool_atom(Op::RLt0, n)
    }
    pub fn rle0(&mut self, p: &Poly) -> E {
        let c = self.rlt0(&p.neg());
        self.a.not(c)
    }
    pub fn req0(&mut self, p: &Poly) -> E {
        if let Some(c) = p.as_const() {
            return if c.is_zero() { self.a.tru } else { self.a.fls };
        }
        if self.const_sign(p).is_some() {
            return self.a.fls;
        }
        let q = p.scale(p.lead().inv()).unwrap_or_else(|| p.clone());
        let n = self.a.poly_node(q);
        self.a.bool_atom(Op::REq0, n)
    }
    fn sign(&mut self, s: &mut State, p: &Poly) -> R<i32> {
        let c = self.rlt0(p);
        if self.decide(s, c)? {
            return Ok(-1);
        }
        let c = self.req0(p);
        Ok(if self.decide(s, c)? { 0 } else { 1 })
    }
    fn real_bin(&mut self, s: &mut State, op: Bin, x: &V, y: &V) -> R<V> {
        let a = self.rv(s, x)?;
        let b = self.rv(s, y)?;
        let sp = |v: &RV| match v {
            RV::Sp(f) => Some(*f),
            _ => None,
        };
        if sp(&a).map_or(false, |f| f.is_nan()) || sp(&b).map_or(false, |f| f.is_nan()) {
            return Ok(fbits(f64::NAN));
        }
        match (op, a, b) {
            (Bin::FAdd, RV::P(p), RV::P(q)) => {
                let r = self.padd(&p, &q);
                Ok(self.rp(r))
            }
            (Bin::FSub, RV::P(p), RV::P(q)) => {
                let r = self.padd(&p, &q.neg());
                Ok(self.rp(r))
            }
            (Bin::FMul, RV::P(p), RV::P(q)) => {
                let r = self.pmul(&p, &q);
                Ok(self.rp(r))
            }
            (Bin::FDiv, RV::P(p), RV::P(q)) => {
                if let Some(c) = q.as_const() {
                    if !c.is_zero() {
                        let i = Poly::konst(c.inv());
                        let r = self.pmul(&p, &i);
                        return Ok(self.rp(r));
                    }
                }
                let z = self.req0(&q);
                if self.decide(s, z)? {
                    // the sign of a zero divisor is taken as positive
                    return Ok(match self.sign(s, &p)? {
                        0 => fbits(f64::NAN),
                        1 => fbits(f64::INFINITY),
                        _ => fbits(f64::NEG_INFINITY),
                    });
                }
                let i = self.pinv(&q);
                let r = self.pmul(&p, &i);
                Ok(self.rp(r))
            }
            (Bin::FAdd, RV::Sp(f), RV::P(_)) | (Bin::FAdd, RV::P(_), RV::Sp(f)) | (Bin::FSub, RV::Sp(f), RV::P(_)) => Ok(fbits(f)),
            (Bin::FSub, RV::P(_), RV::Sp(f)) => Ok(fbits(-f)),
            (Bin::FDiv, RV::P(_), RV::Sp(_)) => Ok(fbits(0.0)),
            (Bin::FDiv, RV::Sp(f), RV::P(p)) => {
                let g = self.sign(s, &p)?;
                Ok(fbits(if g < 0 { -f } else { f }))
            }
            (Bin::FMul, RV::Sp(f), RV::P(p)) | (Bin::FMul, RV::P(p), RV::Sp(f)) => {
                let g = self.sign(s, &p)?;
                Ok(fbits(f * g as f64))
            }
            (Bin::FRem, ..) => err("frem on reals"),
            (_, RV::Sp(f), RV::Sp(g)) => {
                let o = b2op(op);
                Ok(fbits(fop_eval(o, f, g)))
            }
            _ => err("real operation"),
        }
    }
    /// p times the (positive) powers of the sums it is divided by
    fn clear_denominators(&mut self, s: &mut State, mut p: Poly) -> R<Poly> {
        for _ in 0..4 {
            let mut found = None;
            for (m, _) in &p.terms {
                for (at, _) in m {
                    let n = self.a.n(*at);
                    if n.op == Op::RDiv && self.a.poly(n.b).terms.len() > 1 && self.a.poly(n.a).as_const() == Some(Rat::ONE) {
                        found = Some((*at, n.b));
                    }
                }
            }
            let Some((at, b)) = found else { break };
            let den = (*self.a.poly(b)).clone();
            let top = p.terms.iter().flat_map(|(m, _)| m.iter()).filter(|t| t.0 == at).map(|t| t.1).max().unwrap();
            if top > 2 || den.terms.len() * p.terms.len() > 400 {
                break;
            }
            let mut r = Poly::zero();
            let mut groups: Vec<Poly> = vec![Poly::zero(); top as usize + 1];
            for (m, c) in &p.terms {
                let e = m.iter().find(|t| t.0 == at).map_or(0, |t| t.1);
                let mut m = m.clone();
                m.retain(|t| t.0 != at);
                groups[e as usize].terms.push((m, *c));
            }
            for (e, mut g) in groups.into_iter().enumerate() {
                g.terms.sort_by(|a, b| a.0.cmp(&b.0));
                for _ in e..top as usize {
                    g = self.pmul(&g, &den);
                }
                r = self.padd(&r, &g);
            }
            if top % 2 == 1 && self.sign(s, &den)? < 0 {
                r = r.neg();
            }
            p = r;
        }
        Ok(p)
    }
    fn real_cmp(&mut self, s: &mut State, p: FCmp, x: &V, y: &V) -> R<V> {
        let a = self.rv(s, x)?;
        let b = self.rv(s, y)?;
        let (a, b) = match (a, b) {
            (RV::P(a), RV::P(b)) => (a, b),
            (RV::Sp(f), RV::Sp(g)) => return Ok(V::C(fcmp_eval(p, f, g) as u64)),
            (RV::Sp(f), _) => return Ok(V::C(fcmp_eval(p, f, 0.0) as u64)),
            (_, RV::Sp(g)) => return Ok(V::C(fcmp_eval(p, 0.0, g) as u64)),
        };
        let mut d = self.padd(&a, &b.neg());
        if !matches!(p, FCmp::False | FCmp::Uno | FCmp::True | FCmp::Ord) {
            d = self.clear_denominators(s, d)?;
        }
        let c = match p {
            FCmp::False | FCmp::Uno => return Ok(V::C(0)),
            FCmp::True | FCmp::Ord => return Ok(V::C(1)),
            FCmp::Oeq | FCmp::Ueq => self.req0(&d),
            FCmp::One | FCmp::Une => {
                let e = self.req0(&d);
                self.a.not(e)
            }
            FCmp::Olt | FCmp::Ult => self.rlt0(&d),
            FCmp::Ogt | FCmp::Ugt => self.rlt0(&d.neg()),
            FCmp::Ole | FCmp::Ule => self.rle0(&d),
            FCmp::Oge | FCmp::Uge => self.rle0(&d.neg()),
        };
        Ok(V::C(self.decide(s, c)? as u64))
    }

    // ------------------------------------------------------------ scalar operations
    fn sbin(&mut self, s: &mut State, op: Bin, w: u32, x: &V, y: &V) -> R<V> {
        if op as u32 >= Bin::FAdd as u32 {
            if let (V::C(p), V::C(q)) = (x, y) {
                if w == 32 {
                    let (p, q) = (f32::from_bits(*p as u32), f32::from_bits(*q as u32));
                    let r = match op {
                        Bin::FAdd => p + q,
                        Bin::FSub => p - q,
                        Bin::FMul => p * q,
                        Bin::FDiv => p / q,
                        _ => p % q,
                    };
                    return Ok(V::C(r.to_bits() as u64));
                }
                return Ok(fbits(fop_eval(b2op(op), f64::from_bits(*p), f64::from_bits(*q))));
            }
            if w != 64 {
                return err("symbolic f32 arithmetic");
            }
            if self.is_real_v(x) || self.is_real_v(y) {
                return self.real_bin(s, op, x, y);
            }
            let (a, b) = (self.ex(x, 64), self.ex(y, 64));
            let r = self.a.fbin(b2op(op), a, b);
            return Ok(self.val(r));
        }
        if let (V::C(p), V::C(q)) = (x, y) {
            if w <= 64 {
                return Ok(V::C(bin_eval(b2op(op), *p as u128, *q as u128, w) as u64));
            }
        }
        if let (Some(p), Some(q)) = (cv(x), cv(y)) {
            return Ok(mkc(bin_eval(b2op(op), p, q, w), w));
        }
        if self.is_real_v(x) || self.is_real_v(y) {
            return err(format!("integer operation {op:?} on a real"));
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let r = self.a.bin(b2op(op), a, b);
        Ok(self.val(r))
    }
    fn sicmp(&mut self, p: ICmp, w: u32, x: &V, y: &V) -> R<V> {
        if let (Some(a), Some(b)) = (cv(x), cv(y)) {
            let (sa, sb) = (sx(a, w), sx(b, w));
            let r = match p {
                ICmp::Eq => a == b,
                ICmp::Ne => a != b,
                ICmp::Ugt => a > b,
                ICmp::Uge => a >= b,
                ICmp::Ult => a < b,
                ICmp::Ule => a <= b,
                ICmp::Sgt => sa > sb,
                ICmp::Sge => sa >= sb,
                ICmp::Slt => sa < sb,
                ICmp::Sle => sa <= sb,
            };
            return Ok(V::C(r as u64));
        }
        if self.is_real_v(x) || self.is_real_v(y) {
            return err("integer comparison of a real");
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let e = match p {
            ICmp::Eq => self.a.eq(a, b),
            ICmp::Ne => {
                let e = self.a.eq(a, b);
                self.a.not(e)
            }
            ICmp::Ugt => self.a.ult(b, a),
            ICmp::Uge => self.a.ule(b, a),
            ICmp::Ult => self.a.ult(a, b),
            ICmp::Ule => self.a.ule(a, b),
            ICmp::Sgt => self.a.slt(b, a),
            ICmp::Sge => self.a.sle(b, a),
            ICmp::Slt => self.a.slt(a, b),
            ICmp::Sle => self.a.sle(a, b),
        };
        Ok(self.val(e))
    }
    fn sfcmp(&mut self, s: &mut State, p: FCmp, w: u32, x: &V, y: &V) -> R<V> {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = if w == 32 {
                (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64)
            } else {
                (f64::from_bits(*a), f64::from_bits(*b))
            };
            return Ok(V::C(fcmp_eval(p, a, b) as u64));
        }
        if w != 64 {
            return err("symbolic f32 comparison");
        }
        if self.is_real_v(x) || self.is_real_v(y) {
            return self.real_cmp(s, p, x, y);
        }
        let (a, b) = (self.ex(x, 64), self.ex(y, 64));
        let e = self.a.fcmp(p, a, b);
        Ok(self.val(e))
    }
    fn intish(&self, e: E) -> bool {
        let n = self.a.n(e);
        match n.op {
            Op::Var => self.a.vars[n.a as usize].kind == VarKind::Int,
            Op::Zext => self.intish(n.a),
            Op::Ite => self.intish(n.b) || self.intish(n.c),
            _ => false,
        }
    }
    fn scast(&mut self, s: &mut State, c: Cast, from: &Ty, to: &Ty, v: &V) -> R<V> {
        let (fw, tw) = (from.bits(), to.bits());
        match c {
            Cast::Trunc | Cast::Zext | Cast::Sext => {
                if let V::C(x) = v {
                    if tw <= 64 {
                        return Ok(V::C(match c {
                            Cast::Sext => (sext64(*x, fw) as u64) & mask64(tw),
                            _ => *x & mask64(tw),
                        }));
                    }
                }
                if let Some(x) = cv(v) {
                    return Ok(match c {
                        Cast::Sext => mkc(sx(x, fw) as u128, tw),
                        _ => mkc(x, tw),
                    });
                }
                if self.is_real_v(v) {
                    return err("integer cast of a real");
                }
                let e = self.ex(v, fw);
                let r = match c {
                    Cast::Trunc => self.a.extract(e, 0, tw),
                    Cast::Zext => self.a.zext(e, tw),
                    _ => self.a.sext(e, tw),
                };
                Ok(self.val(r))
            }
            Cast::FpTrunc => match v {
                V::C(x) => Ok(V::C((f64::from_bits(*x) as f32).to_bits() as u64)),
                _ if self.is_real_v(v) => err("fptrunc of a real"),
                _ => {
                    let e = self.ex(v, 64);
                    let r = self.a.fun(Op::FCvt32, e, 32);
                    Ok(self.val(r))
                }
            },
            Cast::FpExt => match v {
                V::C(x) => Ok(fbits(f32::from_bits(*x as u32) as f64)),
                _ => {
                    let e = self.ex(v, 32);
                    let r = self.a.fun(Op::FCvt64, e, 64);
                    Ok(self.val(r))
                }
            },
            Cast::FpToUi | Cast::FpToSi => {
                if let V::C(x) = v {
                    let f = if fw == 32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) };
                    return Ok(mkc(fsat(f, tw, c == Cast::FpToSi), tw));
                }
                if self.is_real_v(v) {
                    return err("integer conversion of a real");
                }
                let e = self.ex(v, 64);
                let r = self.a.fun(if c == Cast::FpToUi { Op::FToUi } else { Op::FToSi }, e, tw);
                Ok(self.val(r))
            }
            Cast::UiToFp | Cast::SiToFp => {
                if let Some(x) = cv(v) {
                    let f = if c == Cast::UiToFp { x as f64 } else { sx(x, fw) as f64 };
                    return Ok(if tw == 32 {
                        let g = if c == Cast::UiToFp { x as f32 } else { sx(x, fw) as f32 };
                        V::C(g.to_bits() as u64)
                    } else {
                        fbits(f)
                    });
                }
                if tw != 64 {
                    return err("symbolic conversion to f32");
                }
                let e = self.ex(v, fw);
                if self.has_real(e) && !self.intish(e) {
                    return err("conversion of a real-dependent integer");
                }
                let mut uns = c == Cast::UiToFp;
                if !uns {
                    let half = 1u128 << (fw - 1);
                    if self.a.umax(e) < half {
                        uns = true;
                    } else {
                        let z = self.a.konst(0, fw);
                        let neg = self.a.slt(e, z);
                        if !self.decide(s, neg)? {
                            uns = true;
                        }
                    }
                }
                if self.intish(e) {
                    let at = self.a.atom(Op::RInt, e, 0, 0);
                    let mut p = Poly::atom(at);
                    if !uns {
                        p = p.add(&Poly::konst(Rat::int(-(1i128 << fw)))).unwrap();
                    }
                    return Ok(self.rp(p));
                }
                if self.a.umax(e) <= 4096 {
                    let k = self.concretize(s, v, fw)?;
                    return Ok(fbits(if uns { k as f64 } else { sx(k, fw) as f64 }));
                }
                if self.shifted(e, 6) {
                    // few values: a power of two and the like
                    if let Some(k) = self.enumerate(s, v, fw)? {
                        return Ok(fbits(if uns { k as f64 } else { sx(k, fw) as f64 }));
                    }
                }
                let r = self.a.fun(if uns { Op::FUi } else { Op::FSi }, e, 64);
                Ok(self.val(r))
            }
            Cast::Bit => Ok(v.clone()),
        }
    }
    /// bits of a value as one wide value (for vector bitcasts)
    fn flat(&mut self, ty: &Ty, v: &V) -> R<(V, u32)> {
        match ty {
            Ty::Vec(_, t) => {
                let V::A(xs) = v else { return err("vector value") };
                let xs = xs.clone();
                let w = t.bits();
                if xs.iter().all(|x| cv(x).is_some()) {
                    let mut r = 0u128;
                    for (i, x) in xs.iter().enumerate() {
                        r |= (cv(x).unwrap() & mask(w)) << (i as u32 * w);
                    }
                    let tw = w * xs.len() as u32;
                    if tw > 128 {
                        return err("bitcast wider than 128");
                    }
                    return Ok((mkc(r, tw), tw));
                }
                let mut acc = self.ex(&xs[0], w);
                for x in &xs[1..] {
                    let e = self.ex(x, w);
                    acc = self.a.concat(e, acc);
                }
                Ok((self.val(acc), w * xs.len() as u32))
            }
            t => Ok((v.clone(), t.bits())),
        }
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &V) -> R<V> {
        if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) {
            return Ok(v.clone());
        }
        // same lane structure
        if let (Ty::Vec(n, _), Ty::Vec(m, _)) = (from, to) {
            if n == m {
                return Ok(v.clone());
            }
        }
        let (f, w) = self.flat(from, v)?;
        match to {
            Ty::Vec(n, t) => {
                let lw = t.bits();
                let mut out = vec![];
                for i in 0..*n as u32 {
                    out.push(match cv(&f) {
                        Some(c) => mkc(c >> (i * lw), lw),
                        None => {
                            let e = self.ex(&f, w);
                            let x = self.a.extract(e, i * lw, lw);
                            self.val(x)
                        }
                    });
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => Ok(f),
        }
    }
    fn sselect(&mut self, s: &mut State, ty: &Ty, c: &V, x: &V, y: &V) -> R<V> {
        if let V::C(k) = c {
            return Ok(if *k & 1 == 1 { x.clone() } else { y.clone() });
        }
        if x == y {
            return Ok(x.clone());
        }
        if let (Ty::Int(w), false, false) = (ty, self.is_real_v(x), self.is_real_v(y)) {
            let V::S(ce) = c else { return err("select") };
            let (a, b) = (self.ex(x, *w), self.ex(y, *w));
            let r = self.a.ite(*ce, a, b);
            return Ok(self.val(r));
        }
        let t = self.decide_v(s, c)?;
        Ok(if t { x.clone() } else { y.clone() })
    }

    // ------------------------------------------------------------ memory
    fn addr(&mut self, s: &mut State, p: &V) -> R<u64> {
        match p {
            V::C(a) => Ok(*a),
            _ => Ok(self.concretize(s, p, 64)? as u64),
        }
    }
    pub fn load(&mut self, s: &mut State, ty: &Ty, p: &V) -> R<V> {
        if let V::C(a) = p {
            let a = *a;
            match ty {
                Ty::Int(w) if *w <= 64 => {
                    if let Some(x) = s.mem.load_fast(&self.g, self.m, a, ((*w + 7) / 8) as usize) {
                        return Ok(V::C(x & mask64(*w)));
                    }
                }
                Ty::Ptr | Ty::F64 => {
                    if let Some(x) = s.mem.load_fast(&self.g, self.m, a, 8) {
                        return Ok(V::C(x));
                    }
                }
                _ => {}
            }
            return self.load_at(s, ty, a);
        }
        // symbolic address: table lookup when the index is narrow and the cells are concrete
        let V::S(e) = p else { return err("load pointer") };
        let e = *e;
        if let Some(k) = s.conc.get(&e) {
            return self.load_at(s, ty, *k as u64);
        }
        if let Ty::Int(w) = ty {
            if *w <= 64 {
                if let Some(v) = self.table_load(s, e, *w)? {
                    return Ok(v);
                }
            }
        }
        let a = self.concretize(s, p, 64)? as u64;
        self.load_at(s, ty, a)
    }
    fn table_load(&mut self, s: &mut State, e: E, w: u32) -> R<Option<V>> {
        if self.has_real(e) {
            return Ok(None);
        }
        let v = self.a.eval(e, &s.model) as u64;
        let obj = match s.mem.obj(&self.g, self.m, v >> 32) {
            Ok(o) => o,
            Err(m) => return Err(Stop::Panic(format!("memory error: {m}"))),
        };
        // core index
        let mut core = e;
        loop {
            let n = self.a.n(core).clone();
            match n.op {
                Op::Add | Op::Mul | Op::Shl if self.a.cval(n.b).is_some() => core = n.a,
                Op::Sub if self.a.cval(n.b).is_some() => core = n.a,
                Op::Zext => core = n.a,
                Op::Concat if self.a.cval(n.b).is_some() => core = n.a,
                _ => break,
            }
        }
        let um = self.a.umax(core);
        if um > 4095 {
            // a single narrow variable also works
            return Ok(None);
        }
        let nb = ((w + 7) / 8) as u64;
        let base = (v >> 32) << 32;
        let size = obj.data.len() as u64;
        if size < nb {
            return Ok(None);
        }
        let be = self.a.konst(base as u128, 64);
        let off = self.a.bin(Op::Sub, e, be);
        let lim = self.a.konst((size - nb + 1) as u128, 64);
        let inb = self.a.ult(off, lim);
        // table over the core index
        let mut t = vec![];
        let mut any = false;
        for i in 0..=um {
            let a = self.subst_eval(e, core, i) as u64;
            let o = a.wrapping_sub(base);
            if o < size - nb + 1 {
                let o = o as usize;
                if !obj.sym.is_empty() && obj.sym[o..o + nb as usize].iter().any(|x| x.0 != 0) {
                    return Ok(None);
                }
                let mut b = [0u8; 8];
                b[..nb as usize].copy_from_slice(&obj.data[o..o + nb as usize]);
                t.push(u64::from_le_bytes(b) & mask64(w));
                any = true;
            } else {
                t.push(0);
            }
        }
        if !any {
            return Ok(None);
        }
        // pointers in tables are better followed concretely
        if w == 64 && t.iter().any(|x| (*x >> 32) >= 1 && ((*x >> 32) as usize) <= self.m.globals.len() || (*x >> 32) >= HEAP_ID0 && (*x >> 32) < FUNC_ID0 * 2) {
            return Ok(None);
        }
        if !self.decide(s, inb)? {
            return Err(Stop::Panic("out-of-bounds symbolic read".into()));
        }
        let r = self.a.lut(core, t, w);
        Ok(Some(self.val(r)))
    }
    fn subst_eval(&self, e: E, core: E, v: u128) -> u128 {
        if e == core {
            return v;
        }
        let n = self.a.n(e);
        let w = n.w as u32;
        match n.op {
            Op::Zext => self.subst_eval(n.a, core, v),
            Op::Concat => (self.subst_eval(n.a, core, v) << self.a.w(n.b)) | self.a.cval(n.b).unwrap(),
            op => bin_eval(op, self.subst_eval(n.a, core, v), self.a.cval(n.b).unwrap(), w),
        }
    }
    fn merr<T>(&self, r: Result<T, String>) -> R<T> {
        r.map_err(|m| {
            if m.contains("real-valued") {
                Stop::Err(m)
            } else {
                Stop::Panic(format!("memory error: {m}"))
            }
        })
    }
    pub fn load_at(&mut self, s: &State, ty: &Ty, a: u64) -> R<V> {
        match ty {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                if n > 16 {
                    return err("integer load wider than 128");
                }
                let r = s.mem.load(&mut self.a, &self.g, self.m, a, n);
                match self.merr(r)? {
                    Loaded::C(x) => Ok(mkc(x, *w)),
                    Loaded::S(e) => {
                        let ew = self.a.w(e);
                        if ew == *w {
                            return Ok(V::S(e));
                        }
                        let x = self.a.extract(e, 0, *w);
                        Ok(self.val(x))
                    }
                }
            }
            Ty::F64 | Ty::Ptr => {
                let r = s.mem.load(&mut self.a, &self.g, self.m, a, 8);
                Ok(match self.merr(r)? {
                    Loaded::C(x) => V::C(x as u64),
                    Loaded::S(e) => V::S(e),
                })
            }
            Ty::F32 => {
                let r = s.mem.load(&mut self.a, &self.g, self.m, a, 4);
                Ok(match self.merr(r)? {
                    Loaded::C(x) => V::C(x as u64),
                    Loaded::S(e) => V::S(e),
                })
            }
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let step = if matches!(ty, Ty::Vec(..)) { (t.bits() / 8) as u64 } else { t.size() };
                if step == 0 {
                    return err("sub-byte vector load");
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_at(s, t, a + i * step)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..ty.n_elems() {
                    v.push(self.load_at(s, ty.elem(i), a + ty.field_off(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    pub fn store_at(&mut self, s: &mut State, ty: &Ty, a: u64, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::F64 | Ty::Ptr | Ty::F32 => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                let r = match v {
                    V::C(x) => s.mem.store_c(&self.g, self.m, a, *x as u128, n),
                    V::W(x) => s.mem.store_c(&self.g, self.m, a, **x, n),
                    V::S(e) => {
                        let mut e = *e;
                        if self.a.w(e) < 8 * n as u32 {
                            e = self.a.zext(e, 8 * n as u32);
                        }
                        s.mem.store_s(&self.g, self.m, a, e, n)
                    }
                    V::A(_) => return err("store aggregate as scalar"),
                };
                self.merr(r)
            }
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let step = if matches!(ty, Ty::Vec(..)) { (t.bits() / 8) as u64 } else { t.size() };
                if step == 0 {
                    return err("sub-byte vector store");
                }
                let V::A(xs) = v else { return err("store vector") };
                let xs = xs.clone();
                for i in 0..*n {
                    self.store_at(s, t, a + i * step, &xs[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(..) => {
                let V::A(xs) = v else { return err("store struct") };
                let xs = xs.clone();
                for i in 0..ty.n_elems() {
                    self.store_at(s, ty.elem(i), a + ty.field_off(i), &xs[i])?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    pub fn bytes_at(&mut self, s: &State, a: u64, n: usize) -> R<Vec<E>> {
        let mut v = vec![];
        for i in 0..n {
            let r = s.mem.load(&mut self.a, &self.g, self.m, a + i as u64, 1);
            v.push(match self.merr(r)? {
                Loaded::C(x) => self.a.konst(x, 8),
                Loaded::S(e) => e,
            });
        }
        Ok(v)
    }
    pub fn cstring(&mut self, s: &State, a: u64, n: usize) -> String {
        match self.bytes_at(s, a, n) {
            Ok(v) => {
                let b: Vec<u8> = v.iter().map(|e| self.a.eval(*e, &s.model) as u8).collect();
                String::from_utf8_lossy(&b).into_owned()
            }
            Err(_) => "?".into(),
        }
    }

    // ------------------------------------------------------------ control
    fn setreg(s: &mut State, d: u32, v: V) {
        if d != u32::MAX {
            let fr = s.frames.last_mut().unwrap();
            Rc::make_mut(&mut fr.regs)[d as usize] = v;
        }
    }
    fn goto(s: &mut State, e: &Edge) {
        let fr = s.frames.last_mut().unwrap();
        match e.moves.len() {
            0 => {}
            1 => {
                let v = get(fr, &e.moves[0].1).clone();
                Rc::make_mut(&mut fr.regs)[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<V> = e.moves.iter().map(|m| get(fr, &m.1).clone()).collect();
                let r = Rc::make_mut(&mut fr.regs);
                for (m, v) in e.moves.iter().zip(vs) {
                    r[m.0 as usize] = v;
                }
            }
        }
        fr.blk = e.target;
        fr.f.cov[e.target as usize].set(true);
        fr.ip = 0;
    }
    pub fn push_frame(&mut self, s: &mut State, idx: u32, args: Vec<V>) -> R<()> {
        let f = self.m.func(idx);
        self.st.funcs.insert(idx);
        f.cov[0].set(true);
        if s.frames.len() > 2000 {
            return err("call depth");
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate().take(f.nparams as usize) {
            regs[i] = a;
        }
        s.frames.push(Frame { f, regs: Rc::new(regs), blk: 0, ip: 0, allocas: Rc::new(vec![]) });
        Ok(())
    }
    pub fn finish_call(&mut self, s: &mut State, c: &CallI, v: V) {
        if let Some(d) = c.dst {
            Self::setreg(s, d, v);
        }
        match &c.normal {
            Some(e) => Self::goto(s, e),
            None => s.frames.last_mut().unwrap().ip += 1,
        }
    }

    pub fn run_state(&mut self, s: &mut State) -> Stop {
        loop {
            let t = s.steps;
            if t & 0x3ff == 0 {
                if t > self.cfg.max_steps {
                    return Stop::Err("step limit".into());
                }
                if Instant::now() > self.cfg.deadline {
                    return Stop::Err("deadline".into());
                }
            }
            s.steps += 1;
            if let Err(e) = self.step(s) {
                return e;
            }
        }
    }

    #[inline(always)]
    fn step(&mut self, s: &mut State) -> R<()> {
        let fr = s.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let ins: &'static Ins = &f.blocks[fr.blk as usize][fr.ip as usize];
        macro_rules! done {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = s.frames.last_mut().unwrap();
                Rc::make_mut(&mut fr.regs)[$d as usize] = v;
                fr.ip += 1;
            }};
        }
        match ins {
            Ins::Bin(op, d, w, x, y) => {
                let (a, b) = (get(fr, x).clone(), get(fr, y).clone());
                let v = self.sbin(s, *op, *w, &a, &b)?;
                done!(*d, v);
            }
            Ins::VBin(op, d, ty, x, y) => {
                let (V::A(a), V::A(b)) = (get(fr, x).clone(), get(fr, y).clone()) else { return err("vbin") };
                let w = ty.elem(0).bits();
                let mut o = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    o.push(self.sbin(s, *op, w, p, q)?);
                }
                done!(*d, V::A(Rc::new(o)));
            }
            Ins::ICmp(p, d, w, x, y) => {
                let (a, b) = (get(fr, x).clone(), get(fr, y).clone());
                let v = self.sicmp(*p, *w, &a, &b)?;
                done!(*d, v);
            }
            Ins::VICmp(p, d, ty, x, y) => {
                let (V::A(a), V::A(b)) = (get(fr, x).clone(), get(fr, y).clone()) else { return err("vicmp") };
                let w = ty.elem(0).bits();
                let mut o = vec![];
                for (x, y) in a.iter().zip(b.iter()) {
                    o.push(self.sicmp(*p, w, x, y)?);
                }
                done!(*d, V::A(Rc::new(o)));
            }
            Ins::FCmp(p, d, w, x, y) => {
                let (a, b) = (get(fr, x).clone(), get(fr, y).clone());
                let v = if let (V::A(a), V::A(b)) = (&a, &b) {
                    let mut o = vec![];
                    for (x, y) in a.iter().zip(b.iter()) {
                        o.push(self.sfcmp(s, *p, 64, x, y)?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.sfcmp(s, *p, *w, &a, &b)?
                };
                done!(*d, v);
            }
            Ins::FNeg(d, w, x) => {
                let a = get(fr, x).clone();
                let v = match &a {
                    V::C(c) => V::C(*c ^ (1u64 << (w - 1))),
                    V::S(e) if self.a.is_real(*e) => {
                        let p = self.a.poly(*e).neg();
                        self.rp(p)
                    }
                    V::S(e) => {
                        let k = self.a.konst(1u128 << (w - 1), *w);
                        let r = self.a.bin(Op::Xor, *e, k);
                        self.val(r)
                    }
                    V::A(xs) => {
                        let mut o = vec![];
                        for x in xs.iter() {
                            let z = fbits(-0.0);
                            o.push(self.sbin(s, Bin::FSub, 64, &z, x)?);
                        }
                        V::A(Rc::new(o))
                    }
                    _ => return err("fneg"),
                };
                done!(*d, v);
            }
            Ins::Cast(c, d, from, to, x) => {
                let a = get(fr, x).clone();
                let v = if *c == Cast::Bit {
                    self.bitcast(from, to, &a)?
                } else if let (Ty::Vec(_, ft), Ty::Vec(_, tt), V::A(xs)) = (from, to, &a) {
                    let mut o = vec![];
                    for x in xs.iter() {
                        o.push(self.scast(s, *c, ft, tt, x)?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.scast(s, *c, from, to, &a)?
                };
                done!(*d, v);
            }
            Ins::Select(d, cty, ty, c, x, y) => {
                let (c, a, b) = (get(fr, c).clone(), get(fr, x).clone(), get(fr, y).clone());
                let v = if let (Ty::Vec(..), V::A(cs), V::A(xs), V::A(ys)) = (cty, &c, &a, &b) {
                    let mut o = vec![];
                    for i in 0..cs.len() {
                        o.push(self.sselect(s, ty.elem(0), &cs[i], &xs[i], &ys[i])?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.sselect(s, ty, &c, &a, &b)?
                };
                done!(*d, v);
            }
            Ins::Alloca(d, n) => {
                let a = s.mem.alloc(*n);
                let fr = s.frames.last_mut().unwrap();
                Rc::make_mut(&mut fr.allocas).push(a);
                done!(*d, V::C(a));
            }
            Ins::Load(d, ty, p) => {
                let p = get(fr, p).clone();
                let v = self.load(s, ty, &p)?;
                done!(*d, v);
            }
            Ins::Store(ty, v, p) => {
                let (v, p) = (get(fr, v).clone(), get(fr, p).clone());
                let a = self.addr(s, &p)?;
                self.store_at(s, ty, a, &v)?;
                s.frames.last_mut().unwrap().ip += 1;
            }
            Ins::Gep(d, base, off, dynamic) => {
                let b = get(fr, base).clone();
                let mut conc = *off;
                let mut sym: Vec<(E, u32, u64)> = vec![];
                for (o, w, sc) in dynamic {
                    match get(fr, o) {
                        V::C(x) => conc = conc.wrapping_add((sext64(*x, *w) as u64).wrapping_mul(*sc)),
                        V::S(e) => sym.push((*e, *w, *sc)),
                        _ => return err("gep index"),
                    }
                }
                let v = match (&b, sym.is_empty()) {
                    (V::C(a), true) => V::C(a.wrapping_add(conc)),
                    _ => {
                        let mut e = self.ex(&b, 64);
                        for (i, _w, sc) in sym {
                            let x = self.a.sext(i, 64);
                            let k = self.a.konst(sc as u128, 64);
                            let t = self.a.bin(Op::Mul, x, k);
                            e = self.a.bin(Op::Add, e, t);
                        }
                        let k = self.a.konst(conc as u128, 64);
                        e = self.a.bin(Op::Add, e, k);
                        self.val(e)
                    }
                };
                done!(*d, v);
            }
            Ins::Br(e) => Self::goto(s, e),
            Ins::CondBr(c, t, e) => {
                let b = match get(fr, c) {
                    V::C(x) => *x & 1 == 1,
                    v => {
                        let v = v.clone();
                        self.decide_v(s, &v)?
                    }
                };
                Self::goto(s, if b { t } else { e });
            }
            Ins::Switch(c, w, cases, dflt) => {
                let v = get(fr, c).clone();
                if let Some(x) = cv(&v) {
                    for (k, e) in cases {
                        if *k == x {
                            Self::goto(s, e);
                            return Ok(());
                        }
                    }
                    Self::goto(s, dflt);
                    return Ok(());
                }
                let e = self.ex(&v, *w);
                // group the cases by target (with equal moves only when there are none)
                let mut groups: Vec<(usize, E)> = vec![];
                for (i, (k, ed)) in cases.iter().enumerate() {
                    let kk = self.a.konst(*k, *w);
                    let c = self.a.eq(e, kk);
                    if let Some(g) = groups
                        .iter_mut()
                        .find(|g| cases[g.0].1.target == ed.target && ed.moves.is_empty())
                    {
                        g.1 = self.a.or(g.1, c);
                    } else {
                        groups.push((i, c));
                    }
                }
                for (i, c) in groups {
                    if self.decide(s, c)? {
                        Self::goto(s, &cases[i].1);
                        return Ok(());
                    }
                }
                Self::goto(s, dflt);
            }
            Ins::Ret(_, o) => {
                let v = match o {
                    Some(o) => get(fr, o).clone(),
                    None => V::C(0),
                };
                let fr = s.frames.pop().unwrap();
                for a in fr.allocas.iter() {
                    let _ = s.mem.free(*a);
                }
                let Some(cf) = s.frames.last() else { return Err(Stop::Done) };
                match &cf.f.blocks[cf.blk as usize][cf.ip as usize] {
                    Ins::Call(c) => self.finish_call(s, c, v),
                    _ => return err("return to a non-call"),
                }
            }
            Ins::Unreachable => return Err(Stop::Panic(format!("unreachable reached in {}", f.name))),
            Ins::Call(c) => {
                let idx = match &c.callee {
                    Callee::Func(i) => *i,
                    Callee::Builtin(n) => {
                        let args: Vec<V> = c.args.iter().map(|(_, o)| get(fr, o).clone()).collect();
                        let v = self.builtin(s, n, c, &args)?;
                        self.finish_call(s, c, v);
                        return Ok(());
                    }
                    Callee::Asm(t) if t.trim_start_matches('"').starts_with("/*") && c.args.len() == 1 && c.ret != Ty::Void => {
                        // an empty template tied to its operand: an optimization barrier
                        let v = get(fr, &c.args[0].1).clone();
                        self.finish_call(s, c, v);
                        return Ok(());
                    }
                    Callee::Asm(t) => {
                        let v = if t.contains("cpuid") || c.ret != Ty::Void { zero_of(&c.ret) } else { V::C(0) };
                        self.finish_call(s, c, v);
                        return Ok(());
                    }
                    Callee::Indirect(o) => {
                        let p = get(fr, o).clone();
                        let a = self.addr(s, &p)?;
                        let id = a >> 32;
                        if id < FUNC_ID0 || (id - FUNC_ID0) as usize >= self.m.funcs.len() {
                            return Err(Stop::Panic(format!("call through bad pointer {a:#x}")));
                        }
                        (id - FUNC_ID0) as u32
                    }
                };
                let fr = s.frames.last().unwrap();
                let args: Vec<V> = c.args.iter().map(|(_, o)| get(fr, o).clone()).collect();
                let mut idx = idx;
                if self.fmt_f64.0.contains(&idx) {
                    // a symbolic number as text: `<expression:precision>`
                    if let V::C(p) = &args[0] {
                        if matches!(self.load_at(s, &Ty::F64, *p)?, V::S(_)) {
                            idx = self.fmt_f64.1;
                        }
                    }
                }
                let (name, body, _) = &self.m.funcs[idx as usize];
                if body.is_none() || (matches!(c.callee, Callee::Indirect(_)) && is_builtin(name) && &**name != "es_fmt_f64") {
                    let v = self.builtin(s, name, c, &args)?;
                    self.finish_call(s, c, v);
                    return Ok(());
                }
                self.push_frame(s, idx, args)?;
            }
            Ins::ExtractV(d, a, ix) => {
                let mut v = get(fr, a).clone();
                for i in ix {
                    let V::A(xs) = &v else { return err("extractvalue") };
                    let x = xs[*i as usize].clone();
                    v = x;
                }
                done!(*d, v);
            }
            Ins::InsertV(d, a, b, ix) => {
                let v = get(fr, a).clone();
                let x = get(fr, b).clone();
                fn put(v: V, ix: &[u32], x: V) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        V::A(mut xs) => {
                            let o = xs[ix[0] as usize].clone();
                            Rc::make_mut(&mut xs)[ix[0] as usize] = put(o, &ix[1..], x);
                            V::A(xs)
                        }
                        v => v,
                    }
                }
                done!(*d, put(v, ix, x));
            }
            Ins::ExtractE(d, a, i) => {
                let (a, i) = (get(fr, a).clone(), get(fr, i).clone());
                let k = self.concretize(s, &i, 64)? as usize;
                let V::A(xs) = &a else { return err("extractelement") };
                let v = xs[k].clone();
                done!(*d, v);
            }
            Ins::InsertE(d, a, b, i) => {
                let (a, b, i) = (get(fr, a).clone(), get(fr, b).clone(), get(fr, i).clone());
                let k = self.concretize(s, &i, 64)? as usize;
                let V::A(mut xs) = a else { return err("insertelement") };
                Rc::make_mut(&mut xs)[k] = b;
                done!(*d, V::A(xs));
            }
            Ins::Shuffle(d, a, b, mask, n) => {
                let (V::A(a), V::A(b)) = (get(fr, a).clone(), get(fr, b).clone()) else { return err("shuffle") };
                let n = *n as i64;
                let o: Vec<V> = mask
                    .iter()
                    .map(|i| {
                        if *i < 0 {
                            a[0].clone()
                        } else if *i < n {
                            a[*i as usize].clone()
                        } else {
                            b[(*i - n) as usize].clone()
                        }
                    })
                    .collect();
                done!(*d, V::A(Rc::new(o)));
            }
            Ins::CmpXchg(d, ty, p, c, n) => {
                let (p, c, n) = (get(fr, p).clone(), get(fr, c).clone(), get(fr, n).clone());
                let a = self.addr(s, &p)?;
                let old = self.load_at(s, ty, a)?;
                let eq = self.sicmp(ICmp::Eq, ty.bits(), &old, &c)?;
                let t = self.decide_v(s, &eq)?;
                if t {
                    self.store_at(s, ty, a, &n)?;
                }
                done!(*d, V::A(Rc::new(vec![old, V::C(t as u64)])));
            }
            Ins::AtomicRmw(op, d, ty, p, v) => {
                let (p, v) = (get(fr, p).clone(), get(fr, v).clone());
                let a = self.addr(s, &p)?;
                let old = self.load_at(s, ty, a)?;
                let w = ty.bits();
                let new = match op {
                    Rmw::Xchg => v,
                    Rmw::Add => self.sbin(s, Bin::Add, w, &old, &v)?,
                    Rmw::Sub => self.sbin(s, Bin::Sub, w, &old, &v)?,
                    Rmw::And => self.sbin(s, Bin::And, w, &old, &v)?,
                    Rmw::Or => self.sbin(s, Bin::Or, w, &old, &v)?,
                    Rmw::Xor => self.sbin(s, Bin::Xor, w, &old, &v)?,
                    _ => {
                        let (Some(x), Some(y)) = (cv(&old), cv(&v)) else { return err("symbolic atomic min/max") };
                        let r = match op {
                            Rmw::UMax => x.max(y),
                            Rmw::UMin => x.min(y),
                            Rmw::Max => sx(x, w).max(sx(y, w)) as u128,
                            Rmw::Min => sx(x, w).min(sx(y, w)) as u128,
                            _ => !(x & y),
                        };
                        mkc(r, w)
                    }
                };
                self.store_at(s, ty, a, &new)?;
                done!(*d, old);
            }
            Ins::Freeze(d, a) => {
                let v = get(fr, a).clone();
                done!(*d, v);
            }
            Ins::Nop => s.frames.last_mut().unwrap().ip += 1,
            Ins::Unsupported(x) => return err(format!("unsupported instruction {x}")),
        }
        Ok(())
    }

    // ------------------------------------------------------------ intrinsics and environment
    /// element-wise lift over vectors
    fn lift(
        &mut self,
        s: &mut State,
        args: &[V],
        f: &mut dyn FnMut(&mut Engine, &mut State, &[V]) -> R<V>,
    ) -> R<V> {
        if let V::A(a) = &args[0] {
            let n = a.len();
            let mut o = vec![];
            for i in 0..n {
                let la: Vec<V> = args
                    .iter()
                    .map(|x| match x {
                        V::A(v) => v[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                o.push(f(self, s, &la)?);
            }
            Ok(V::A(Rc::new(o)))
        } else {
            f(self, s, args)
        }
    }
    fn minmax(&mut self, op: &str, w: u32, x: &V, y: &V) -> R<V> {
        let p = match op {
            "umin" => ICmp::Ult,
            "umax" => ICmp::Ugt,
            "smin" => ICmp::Slt,
            _ => ICmp::Sgt,
        };
        let c = self.sicmp(p, w, x, y)?;
        match c {
            V::C(k) => Ok(if k == 1 { x.clone() } else { y.clone() }),
            V::S(e) => {
                let (a, b) = (self.ex(x, w), self.ex(y, w));
                let r = self.a.ite(e, a, b);
                Ok(self.val(r))
            }
            _ => err("minmax"),
        }
    }
    fn ovf(&mut self, s: &mut State, op: &str, w: u32, x: &V, y: &V) -> R<V> {
        let bop = match &op[1..4] {
            "add" => Bin::Add,
            "sub" => Bin::Sub,
            _ => Bin::Mul,
        };
        let signed = op.starts_with('s');
        if let (Some(a), Some(b)) = (cv(x), cv(y)) {
            let r = bin_eval(b2op(bop), a, b, w);
            let o = if signed {
                let (p, q) = (sx(a, w), sx(b, w));
                let t = match bop {
                    Bin::Add => p.checked_add(q),
                    Bin::Sub => p.checked_sub(q),
                    _ => p.checked_mul(q),
                };
                t.map_or(true, |t| t != sx(r, w))
            } else {
                let t = match bop {
                    Bin::Add => a.checked_add(b),
                    Bin::Sub => a.checked_sub(b),
                    _ => a.checked_mul(b),
                };
                t.map_or(true, |t| t != r)
            };
            return Ok(V::A(Rc::new(vec![mkc(r, w), V::C(o as u64)])));
        }
        let r = self.sbin(s, bop, w, x, y)?;
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let o = match (bop, signed) {
            (Bin::Add, false) => {
                let (ma, mb) = (self.a.umax(a), self.a.umax(b));
                if ma.checked_add(mb).map_or(false, |t| t <= mask(w)) {
                    self.a.fls
                } else {
                    let rr = self.ex(&r, w);
                    self.a.ult(rr, a)
                }
            }
            (Bin::Sub, false) => self.a.ult(a, b),
            (Bin::Mul, false) => {
                let (ma, mb) = (self.a.umax(a), self.a.umax(b));
                if ma.checked_mul(mb).map_or(false, |t| t <= mask(w)) {
                    self.a.fls
                } else if let (Some(k), other) = match (self.a.cval(a), self.a.cval(b)) {
                    (Some(k), _) => (Some(k), b),
                    (_, Some(k)) => (Some(k), a),
                    _ => (None, a),
                } {
                    // x*k overflows iff x > max/k
                    if k == 0 {
                        self.a.fls
                    } else {
                        let l = self.a.konst(mask(w) / k, w);
                        self.a.ult(l, other)
                    }
                } else {
                    if w > 64 {
                        return err("wide symbolic umul overflow");
                    }
                    let (p, q) = (self.a.zext(a, 2 * w), self.a.zext(b, 2 * w));
                    let m = self.a.bin(Op::Mul, p, q);
                    let h = self.a.extract(m, w, w);
                    let z = self.a.konst(0, w);
                    let e = self.a.eq(h, z);
                    self.a.not(e)
                }
            }
            _ => {
                if w > 64 {
                    return err("wide symbolic signed overflow");
                }
                let ww = if bop == Bin::Mul { 2 * w } else { w + 1 };
                let (p, q) = (self.a.sext(a, ww), self.a.sext(b, ww));
                let t = self.a.bin(b2op(bop), p, q);
                let rr = self.ex(&r, w);
                let u = self.a.sext(rr, ww);
                let e = self.a.eq(t, u);
                self.a.not(e)
            }
        };
        let o = self.val(o);
        Ok(V::A(Rc::new(vec![r, o])))
    }
    fn fun1(&mut self, s: &mut State, name: &str, x: &V) -> R<V> {
        if let V::C(b) = x {
            let v = f64::from_bits(*b);
            if self.exact_roots && name == "sqrt" && v > 0.0 {
                if let Some(c) = Rat::from_f64(v) {
                    if c.n.checked_mul(c.d).map_or(false, |x| x < 1 << 40 && Self::isqrt(x).is_none()) {
                        let q = self.psqrt(&Poly::konst(c));
                        return Ok(self.rp(q));
                    }
                }
            }
            let r = match name {
                "sqrt" => v.sqrt(),
                "floor" => v.floor(),
                "ceil" => v.ceil(),
                "trunc" => v.trunc(),
                "round" => v.round(),
                "rint" | "nearbyint" | "roundeven" => v.round_ties_even(),
                "log" => v.ln(),
                "log2" => v.log2(),
                "log10" => v.log10(),
                "log1p" => v.ln_1p(),
                "exp" => v.exp(),
                "exp2" => v.exp2(),
                "expm1" => v.exp_m1(),
                "sin" => v.sin(),
                "cos" => v.cos(),
                "tan" => v.tan(),
                "atan" => v.atan(),
                "cbrt" => v.cbrt(),
                "fabs" => v.abs(),
                "tgamma" | "lgamma" => return err("gamma"),
                _ => return err(format!("float function {name}")),
            };
            return Ok(fbits(r));
        }
        let V::S(e) = x else { return err("fun1") };
        let e = *e;
        if self.a.is_real(e) {
            let p = (*self.a.poly(e)).clone();
            return match name {
                "fabs" => {
                    let c = self.rlt0(&p);
                    if self.decide(s, c)? {
                        let q = p.neg();
                        Ok(self.rp(q))
                    } else {
                        Ok(x.clone())
                    }
                }
                "sqrt" => {
                    let c = self.rlt0(&p);
                    if self.decide(s, c)? {
                        return Ok(fbits(f64::NAN));
                    }
                    let c = self.req0(&p);
                    if self.decide(s, c)? {
                        return Ok(fbits(0.0));
                    }
                    let q = self.psqrt(&p);
                    Ok(self.rp(q))
                }
                "exp2" => {
                    if p.terms.len() == 1 && p.terms[0].1 == Rat::ONE && p.terms[0].0.len() == 1 {
                        let n = self.a.n(p.terms[0].0[0].0).clone();
                        if n.op == Op::RInt {
                            return self.pow2_of(s, n.a, false);
                        }
                    }
                    let n = self.a.poly_node(p);
                    let u = self.a.uf("pow2", 0.0, f64::INFINITY, vec![n]);
                    Ok(self.rp(Poly::atom(u)))
                }
                "log2" => {
                    let n = self.a.poly_node(p);
                    let u = self.a.uf("log2", f64::NEG_INFINITY, f64::INFINITY, vec![n]);
                    Ok(self.rp(Poly::atom(u)))
                }
                _ => err(format!("{name} of a real")),
            };
        }
        match name {
            "fabs" => {
                let k = self.a.konst(0x7fff_ffff_ffff_ffff, 64);
                let r = self.a.bin(Op::And, e, k);
                Ok(self.val(r))
            }
            "sqrt" => {
                let r = self.a.fun(Op::FSqrt, e, 64);
                Ok(self.val(r))
            }
            "floor" | "ceil" | "trunc" | "round" | "rint" => {
                let k = match name {
                    "floor" => 0,
                    "ceil" => 1,
                    "trunc" => 2,
                    "round" => 3,
                    _ => 4,
                };
                let r = self.a.fun(Op::FRnd(k), e, 64);
                Ok(self.val(r))
            }
            "log2" | "log" | "exp" => {
                let o = match name {
                    "log2" => Op::FLog2,
                    "log" => Op::FLog,
                    _ => Op::FExp,
                };
                let r = self.a.fun(o, e, 64);
                Ok(self.val(r))
            }
            _ => err(format!("symbolic {name}")),
        }
    }
    /// 2^e for an integer-valued exponent expression (uninterpreted beyond congruence and e>=0 => >=1)
    fn pow2_of(&mut self, s: &mut State, e: E, signed: bool) -> R<V> {
        let w = self.a.w(e);
        if self.a.umax(e) <= 64 {
            let k = self.concretize(s, &V::S(e), w)?;
            return Ok(fbits((k as f64).exp2()));
        }
        if !self.intish(e) {
            return err("2^x of a symbolic bit-vector");
        }
        let at = self.a.atom(Op::RInt, e, 0, 0);
        let mut p = Poly::atom(at);
        let mut neg = false;
        if signed {
            let z = self.a.konst(0, w);
            let c = self.a.slt(e, z);
            neg = self.decide(s, c)?;
            if neg {
                p = p.add(&Poly::konst(Rat::int(-(1i128 << w)))).unwrap();
            }
        }
        if !neg {
            let z = self.a.konst(0, w);
            let c = self.a.eq(e, z);
            if self.decide(s, c)? {
                return Ok(fbits(1.0));
            }
        }
        let n = self.a.poly_node(p);
        let u = self.a.uf("pow2", 0.0, f64::INFINITY, vec![n]);
        // exponent >= 1: >= 2 ; negative: < 1
        let k = Poly::konst(Rat::int(if neg { 1 } else { 2 }));
        let d = Poly::atom(u).sub(&k).unwrap();
        let c = self.rlt0(&d);
        let c = if neg { c } else { self.a.not(c) };
        let kn = match self.a.is_not(c) {
            Some(n) => s.known.contains_key(&n),
            None => s.known.contains_key(&c),
        };
        if !kn {
            self.assume(s, c)?;
        }
        Ok(self.rp(Poly::atom(u)))
    }
    fn fpow(&mut self, s: &mut State, x: &V, y: &V) -> R<V> {
        if let (V::C(a), V::C(b)) = (x, y) {
            return Ok(fbits(f64::from_bits(*a).powf(f64::from_bits(*b))));
        }
        if let (V::C(a), V::S(e)) = (x, y) {
            if f64::from_bits(*a) == 2.0 && self.a.is_real(*e) {
                let p = self.a.poly(*e);
                if p.terms.len() == 1 && p.terms[0].1 == Rat::ONE && p.terms[0].0.len() == 1 {
                    let n = self.a.n(p.terms[0].0[0].0).clone();
                    if n.op == Op::RInt {
                        return self.pow2_of(s, n.a, false);
                    }
                }
            }
        }
        if let (V::S(_), V::C(b)) = (x, y) {
            let k = f64::from_bits(*b);
            if k == 2.0 {
                return self.sbin(s, Bin::FMul, 64, x, x);
            }
            if k == 0.5 {
                return self.fun1(s, "sqrt", x);
            }
            if k == 1.0 {
                return Ok(x.clone());
            }
        }
        err("symbolic pow")
    }
    fn powi(&mut self, s: &mut State, x: &V, y: &V, w: u32) -> R<V> {
        if let V::C(k) = y {
            let k = sext64(*k, w) as i32;
            if let V::C(b) = x {
                return Ok(fbits(f64::from_bits(*b).powi(k)));
            }
            if (0..=8).contains(&k) {
                let mut r = fbits(1.0);
                for _ in 0..k {
                    r = self.sbin(s, Bin::FMul, 64, &r, x)?;
                }
                return Ok(r);
            }
            return err("symbolic powi");
        }
        if let (V::C(b), V::S(e)) = (x, y) {
            if f64::from_bits(*b) == 2.0 {
                let e = *e;
                return self.pow2_of(s, e, true);
            }
            if self.a.umax(*e) <= 4096 {
                let k = self.concretize(s, y, w)?;
                return Ok(fbits(f64::from_bits(*b).powi(sx(k, w) as i32)));
            }
        }
        err("symbolic powi exponent")
    }
    fn fminmax(&mut self, s: &mut State, max: bool, x: &V, y: &V) -> R<V> {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
            return Ok(fbits(if max { a.max(b) } else { a.min(b) }));
        }
        for (u, v) in [(x, y), (y, x)] {
            if let V::C(a) = u {
                if f64::from_bits(*a).is_nan() {
                    return Ok(v.clone());
                }
            }
        }
        // NaN operands give the other one
        let nx = self.sfcmp(s, FCmp::Uno, 64, x, x)?;
        if self.decide_v(s, &nx)? {
            return Ok(y.clone());
        }
        let ny = self.sfcmp(s, FCmp::Uno, 64, y, y)?;
        if self.decide_v(s, &ny)? {
            return Ok(x.clone());
        }
        let c = self.sfcmp(s, if max { FCmp::Ogt } else { FCmp::Olt }, 64, x, y)?;
        Ok(if self.decide_v(s, &c)? { x.clone() } else { y.clone() })
    }

    fn builtin(&mut self, s: &mut State, name: &str, c: &CallI, args: &[V]) -> R<V> {
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(s, r, c, args);
        }
        if let Some(r) = name.strip_prefix("es_") {
            return crate::api::api(self, s, r, c, args);
        }
        if let Some(k) = panic_kind(name) {
            let mut where_ = String::new();
            // the last pointer argument is usually a &Location {ptr,len,line,col}
            for a in args.iter().rev() {
                if let V::C(p) = a {
                    if let Ok(o) = s.mem.obj(&self.g, self.m, *p >> 32) {
                        if o.data.len() == 24 {
                            let b = &o.data;
                            let rd = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                            let f = self.cstring(s, rd(0), rd(8).min(200) as usize);
                            let l = u32::from_le_bytes(b[16..20].try_into().unwrap());
                            where_ = format!(" at {f}:{l}");
                            break;
                        }
                    }
                }
            }
            let fname = &s.frames.last().unwrap().f.name;
            return Err(Stop::Panic(format!("{k}{where_} (in {fname})")));
        }
        match name {
            "malloc" | "calloc" | "realloc" | "posix_memalign" | "free" | "aligned_alloc" => {
                let ca = |e: &mut Engine, s: &mut State, v: &V| -> R<u64> { Ok(e.concretize(s, v, 64)? as u64) };
                match name {
                    "malloc" => {
                        let n = ca(self, s, &args[0])?;
                        if n > 1 << 30 {
                            return Ok(V::C(0));
                        }
                        Ok(V::C(s.mem.alloc(n)))
                    }
                    "calloc" => {
                        let n = ca(self, s, &args[0])?.wrapping_mul(ca(self, s, &args[1])?);
                        if n > 1 << 30 {
                            return Ok(V::C(0));
                        }
                        Ok(V::C(s.mem.alloc(n)))
                    }
                    "posix_memalign" => {
                        let p = ca(self, s, &args[0])?;
                        let n = ca(self, s, &args[2])?;
                        let a = s.mem.alloc(n);
                        self.store_at(s, &Ty::Ptr, p, &V::C(a))?;
                        Ok(V::C(0))
                    }
                    "aligned_alloc" => {
                        let n = ca(self, s, &args[1])?;
                        Ok(V::C(s.mem.alloc(n)))
                    }
                    "free" => {
                        let p = ca(self, s, &args[0])?;
                        if p != 0 {
                            let r = s.mem.free(p);
                            self.merr(r)?;
                        }
                        Ok(V::C(0))
                    }
                    _ => {
                        let p = ca(self, s, &args[0])?;
                        let n = ca(self, s, &args[1])?;
                        if n > 1 << 30 {
                            return Ok(V::C(0));
                        }
                        let a = s.mem.alloc(n);
                        if p != 0 {
                            let r = s.mem.obj(&self.g, self.m, p >> 32);
                            let o = self.merr(r)?;
                            let k = o.data.len().min(n as usize);
                            drop(o);
                            let r = s.mem.copy(&self.g, self.m, a, p, k);
                            self.merr(r)?;
                            let r = s.mem.free(p);
                            self.merr(r)?;
                        }
                        Ok(V::C(a))
                    }
                }
            }
            "memcpy" | "memmove" => {
                let (d, p) = (self.addr(s, &args[0])?, self.addr(s, &args[1])?);
                let n = self.concretize(s, &args[2], 64)? as usize;
                let r = s.mem.copy(&self.g, self.m, d, p, n);
                self.merr(r)?;
                Ok(V::C(d))
            }
            "memset" => {
                let d = self.addr(s, &args[0])?;
                let n = self.concretize(s, &args[2], 64)? as usize;
                self.memset(s, d, &args[1], 32, n)?;
                Ok(V::C(d))
            }
            "bcmp" | "memcmp" => {
                let (p, q) = (self.addr(s, &args[0])?, self.addr(s, &args[1])?);
                let n = self.concretize(s, &args[2], 64)? as usize;
                let x = self.bytes_at(s, p, n)?;
                let y = self.bytes_at(s, q, n)?;
                let mut r = self.a.konst(0, 32);
                let one = self.a.konst(1, 32);
                let neg = self.a.konst(mask(32), 32);
                for i in (0..n).rev() {
                    let e = self.a.eq(x[i], y[i]);
                    if name == "bcmp" {
                        r = self.a.ite(e, r, one);
                    } else {
                        let l = self.a.ult(x[i], y[i]);
                        let t = self.a.ite(l, neg, one);
                        r = self.a.ite(e, r, t);
                    }
                }
                Ok(self.val(r))
            }
            "strlen" => {
                let p = self.addr(s, &args[0])?;
                let mut n = 0;
                loop {
                    let b = self.bytes_at(s, p + n, 1)?;
                    let z = self.a.konst(0, 8);
                    let c = self.a.eq(b[0], z);
                    if self.decide(s, c)? {
                        return Ok(V::C(n));
                    }
                    n += 1;
                }
            }
            "memchr" | "memrchr" => {
                let p = self.addr(s, &args[0])?;
                let n = self.concretize(s, &args[2], 64)? as u64;
                let ch = self.ex(&args[1], 32);
                let ch = self.a.extract(ch, 0, 8);
                let it: Vec<u64> = if name == "memchr" { (0..n).collect() } else { (0..n).rev().collect() };
                for i in it {
                    let b = self.bytes_at(s, p + i, 1)?;
                    let c = self.a.eq(b[0], ch);
                    if self.decide(s, c)? {
                        return Ok(V::C(p + i));
                    }
                }
                Ok(V::C(0))
            }
            "log2" | "log" | "log10" | "exp" | "exp2" | "sin" | "cos" | "tan" | "atan" | "cbrt" | "log1p" | "expm1" | "sqrt"
            | "floor" | "ceil" | "trunc" | "round" | "rint" => self.fun1(s, name, &args[0]),
            "pow" => self.fpow(s, &args[0], &args[1]),
            "ldexp" => {
                // ldexp(m, e) = m * 2^e
                if let (V::C(m), V::C(e)) = (&args[0], &args[1]) {
                    let r = f64::from_bits(*m) * 2f64.powi(sext64(*e, 32) as i32);
                    return Ok(fbits(r));
                }
                let two = fbits(2.0);
                let p = self.powi(s, &two, &args[1], 32)?;
                self.sbin(s, Bin::FMul, 64, &args[0], &p)
            }
            "fmod" => self.sbin(s, Bin::FRem, 64, &args[0], &args[1]),
            "fmax" | "fmin" => self.fminmax(s, name == "fmax", &args[0], &args[1]),
            "atan2" | "hypot" => match (&args[0], &args[1]) {
                (V::C(a), V::C(b)) => {
                    let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                    Ok(fbits(if name == "hypot" { a.hypot(b) } else { a.atan2(b) }))
                }
                _ => err("symbolic atan2"),
            },
            "write" => Ok(args[2].clone()),
            "writev" => err("writev"),
            "getenv" | "__cxa_thread_atexit_impl" | "pthread_atfork" | "atexit" | "__cxa_atexit" => Ok(V::C(0)),
            "__errno_location" => {
                // every failing call reports ENOENT
                let a = s.mem.alloc(8);
                let r = s.mem.store_c(&self.g, self.m, a, 2, 4);
                self.merr(r)?;
                Ok(V::C(a))
            }
            "open64" | "open" | "openat" | "openat64" | "stat64" | "fstat64" | "lstat64" | "statx" | "readlink"
            | "sched_getaffinity" => Ok(V::C(0xffff_ffff)),
            "getrandom" => {
                let p = self.addr(s, &args[0])?;
                let n = self.concretize(s, &args[1], 64)? as usize;
                self.memset(s, p, &V::C(0), 8, n)?;
                Ok(V::C(n as u64))
            }
            "syscall" => {
                let no = self.concretize(s, &args[0], 64)?;
                if no == 318 {
                    let p = self.addr(s, &args[1])?;
                    let n = self.concretize(s, &args[2], 64)? as usize;
                    self.memset(s, p, &V::C(0), 8, n)?;
                    return Ok(V::C(n as u64));
                }
                err(format!("syscall {no}"))
            }
            "getpid" | "pthread_self" | "sysconf" => Ok(V::C(1)),
            "abort" | "_exit" | "exit" => Err(Stop::Panic(format!("{name} called"))),
            _ => {
                let at = &s.frames.last().unwrap().f.name;
                err(format!("unmodelled function {name} (called in {at})"))
            }
        }
    }
    fn memset(&mut self, s: &mut State, d: u64, v: &V, w: u32, n: usize) -> R<()> {
        if let V::C(x) = v {
            for i in 0..n {
                let r = s.mem.store_c(&self.g, self.m, d + i as u64, (*x & 0xff) as u128, 1);
                self.merr(r)?;
            }
            return Ok(());
        }
        let e = self.ex(v, w);
        let e = self.a.extract(e, 0, 8);
        for i in 0..n {
            let r = s.mem.store_s(&self.g, self.m, d + i as u64, e, 1);
            self.merr(r)?;
        }
        Ok(())
    }

    fn intrinsic(&mut self, s: &mut State, name: &str, c: &CallI, args: &[V]) -> R<V> {
        let base = name.split('.').next().unwrap();
        let sty = |t: &Ty| match t {
            Ty::Vec(_, t) => (**t).clone(),
            t => t.clone(),
        };
        let w = if c.args.is_empty() { 0 } else { sty(&c.args[0].0).bits() };
        let rw = sty(&c.ret).bits();
        match base {
            "memcpy" | "memmove" => {
                let n = self.concretize(s, &args[2], 64)? as usize;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let (d, p) = (self.addr(s, &args[0])?, self.addr(s, &args[1])?);
                let r = s.mem.copy(&self.g, self.m, d, p, n);
                self.merr(r)?;
                Ok(V::C(0))
            }
            "memset" => {
                let n = self.concretize(s, &args[2], 64)? as usize;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let d = self.addr(s, &args[0])?;
                self.memset(s, d, &args[1], 8, n)?;
                Ok(V::C(0))
            }
            "umin" | "umax" | "smin" | "smax" => {
                let b = base.to_string();
                self.lift(s, args, &mut |e, _s, a| e.minmax(&b, w, &a[0], &a[1]))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if name.contains("with.overflow") => {
                let b = base.to_string();
                self.ovf(s, &b, w, &args[0], &args[1])
            }
            "uadd" | "usub" | "sadd" | "ssub" if name.contains(".sat.") => {
                let b = base.to_string();
                self.lift(s, args, &mut |e, s, a| {
                    let V::A(r) = e.ovf(s, &b, w, &a[0], &a[1])? else { return err("sat") };
                    let lim = match b.as_str() {
                        "uadd" => mkc(mask(w), w),
                        "usub" => mkc(0, w),
                        _ => {
                            // saturate towards the sign of the first operand (second negated for sub)
                            let z = mkc(0, w);
                            let neg = e.sicmp(ICmp::Slt, w, &a[0], &z)?;
                            let (lo, hi) = (mkc(1u128 << (w - 1), w), mkc(mask(w) >> 1, w));
                            e.sselect(s, &Ty::Int(w), &neg, &lo, &hi)?
                        }
                    };
                    e.sselect(s, &Ty::Int(w), &r[1], &lim, &r[0])
                })
            }
            "abs" => self.lift(s, args, &mut |e, s, a| {
                let z = mkc(0, w);
                let neg = e.sicmp(ICmp::Slt, w, &a[0], &z)?;
                let m = e.sbin(s, Bin::Sub, w, &z, &a[0])?;
                e.sselect(s, &Ty::Int(w), &neg, &m, &a[0])
            }),
            "ucmp" | "scmp" => {
                let (lp, gp) = if base == "ucmp" { (ICmp::Ult, ICmp::Ugt) } else { (ICmp::Slt, ICmp::Sgt) };
                self.lift(s, args, &mut |e, s, a| {
                    let l = e.sicmp(lp, w, &a[0], &a[1])?;
                    let g = e.sicmp(gp, w, &a[0], &a[1])?;
                    let t = e.sselect(s, &Ty::Int(rw), &g, &mkc(1, rw), &mkc(0, rw))?;
                    e.sselect(s, &Ty::Int(rw), &l, &mkc(mask(rw), rw), &t)
                })
            }
            "fshl" | "fshr" => {
                let left = base == "fshl";
                self.lift(s, args, &mut |e, s, a| {
                    let k = (e.concretize(s, &a[2], w)? % w as u128) as u128;
                    if let (Some(x), Some(y)) = (cv(&a[0]), cv(&a[1])) {
                        let r = if k == 0 {
                            if left { x } else { y }
                        } else if left {
                            (x << k) | (y >> (w as u128 - k))
                        } else {
                            (x << (w as u128 - k)) | (y >> k)
                        };
                        return Ok(mkc(r, w));
                    }
                    if k == 0 {
                        return Ok(if left { a[0].clone() } else { a[1].clone() });
                    }
                    let (x, y) = (e.ex(&a[0], w), e.ex(&a[1], w));
                    let sh = if left { k as u32 } else { w - k as u32 };
                    let hi = e.a.extract(x, 0, w - sh);
                    let lo = e.a.extract(y, w - sh, sh);
                    let r = e.a.concat(hi, lo);
                    Ok(e.val(r))
                })
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                let b = base.to_string();
                self.lift(s, args, &mut |e, s, a| {
                    if let Some(x) = cv(&a[0]) {
                        let x = x & mask(w);
                        let r = match b.as_str() {
                            "ctpop" => x.count_ones() as u128,
                            "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                            "cttz" => (x.trailing_zeros().min(w)) as u128,
                            "bswap" => x.swap_bytes() >> (128 - w),
                            _ => x.reverse_bits() >> (128 - w),
                        };
                        return Ok(mkc(r, w));
                    }
                    let x = e.ex(&a[0], w);
                    match b.as_str() {
                        "bswap" => {
                            let mut acc = e.a.extract(x, 0, 8);
                            for i in 1..w / 8 {
                                let y = e.a.extract(x, i * 8, 8);
                                acc = e.a.concat(acc, y);
                            }
                            Ok(e.val(acc))
                        }
                        "ctpop" => {
                            let mut acc = e.a.konst(0, w);
                            for i in 0..w {
                                let y = e.a.extract(x, i, 1);
                                let y = e.a.zext(y, w);
                                acc = e.a.bin(Op::Add, acc, y);
                            }
                            Ok(e.val(acc))
                        }
                        "cttz" | "ctlz" => {
                            // decide the position bit by bit (few distinct masks in practice)
                            let _ = &s;
                            let mut acc = e.a.konst(w as u128, w);
                            let order: Vec<u32> = if b == "cttz" { (0..w).rev().collect() } else { (0..w).collect() };
                            for i in order {
                                let y = e.a.extract(x, i, 1);
                                let k = e.a.konst(if b == "cttz" { i as u128 } else { (w - 1 - i) as u128 }, w);
                                acc = e.a.ite(y, k, acc);
                            }
                            Ok(e.val(acc))
                        }
                        _ => err(format!("symbolic {b}")),
                    }
                })
            }
            "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" | "log" | "log2"
            | "log10" | "exp" | "exp2" | "sin" | "cos" => {
                if w == 32 {
                    if let V::C(x) = &args[0] {
                        let v = V::C((f32::from_bits(*x as u32) as f64).to_bits());
                        let r = self.fun1(s, base, &v)?;
                        if let V::C(r) = r {
                            return Ok(V::C((f64::from_bits(r) as f32).to_bits() as u64));
                        }
                    }
                    return err("symbolic f32 function");
                }
                let b = base.to_string();
                self.lift(s, args, &mut |e, s, a| e.fun1(s, &b, &a[0]))
            }
            "pow" => self.fpow(s, &args[0], &args[1]),
            "powi" => {
                let pw = c.args[1].0.bits();
                self.powi(s, &args[0], &args[1], pw)
            }
            "ldexp" => {
                let two = fbits(2.0);
                let pw = c.args[1].0.bits();
                let p = self.powi(s, &two, &args[1], pw)?;
                self.sbin(s, Bin::FMul, 64, &args[0], &p)
            }
            "fma" | "fmuladd" => {
                if let (V::C(a), V::C(b), V::C(d)) = (&args[0], &args[1], &args[2]) {
                    let (a, b, d) = (f64::from_bits(*a), f64::from_bits(*b), f64::from_bits(*d));
                    return Ok(fbits(if base == "fma" { a.mul_add(b, d) } else { a * b + d }));
                }
                let p = self.sbin(s, Bin::FMul, 64, &args[0], &args[1])?;
                self.sbin(s, Bin::FAdd, 64, &p, &args[2])
            }
            "maxnum" | "minnum" | "maximumnum" | "minimumnum" => {
                let mx = base.starts_with("max");
                self.lift(s, args, &mut |e, s, a| e.fminmax(s, mx, &a[0], &a[1]))
            }
            "copysign" => match (&args[0], &args[1]) {
                (V::C(a), V::C(b)) => Ok(fbits(f64::from_bits(*a).copysign(f64::from_bits(*b)))),
                _ if self.is_real_v(&args[0]) || self.is_real_v(&args[1]) => {
                    let m = self.fun1(s, "fabs", &args[0])?;
                    let z = fbits(0.0);
                    let neg = self.sfcmp(s, FCmp::Olt, 64, &args[1], &z)?;
                    if self.decide_v(s, &neg)? {
                        self.sbin(s, Bin::FSub, 64, &z, &m)
                    } else {
                        Ok(m)
                    }
                }
                _ => err("symbolic copysign"),
            },
            "fptoui" | "fptosi" => {
                let cast = if base == "fptoui" { Cast::FpToUi } else { Cast::FpToSi };
                let (f, t) = (sty(&c.args[0].0), sty(&c.ret));
                self.lift(s, args, &mut |e, s, a| e.scast(s, cast, &f, &t, &a[0]))
            }
            "is" if name.starts_with("is.constant") => Ok(V::C(0)),
            "is" if name.starts_with("is.fpclass") => {
                let k = self.concretize(s, &args[1], 32)? as u32;
                if let V::C(b) = &args[0] {
                    return Ok(V::C((fpclass(f64::from_bits(*b)) & k != 0) as u64));
                }
                if self.is_real_v(&args[0]) {
                    // finite: zero, or normal of either sign (subnormals are not modelled)
                    let z = fbits(0.0);
                    let neg = self.sfcmp(s, FCmp::Olt, 64, &args[0], &z)?;
                    if self.decide_v(s, &neg)? {
                        return Ok(V::C((k & 0x08 != 0) as u64));
                    }
                    let eq = self.sfcmp(s, FCmp::Oeq, 64, &args[0], &z)?;
                    let t = self.decide_v(s, &eq)?;
                    return Ok(V::C((if t { k & 0x40 != 0 } else { k & 0x100 != 0 }) as u64));
                }
                let e = self.ex(&args[0], 64);
                let r = self.fpclass_sym(e, k);
                Ok(self.val(r))
            }
            "expect" => Ok(args[0].clone()),
            "threadlocal" => Ok(args[0].clone()),
            "load" if name.starts_with("load.relative") => {
                let b = self.addr(s, &args[0])?;
                let o = self.concretize(s, &args[1], 64)? as u64;
                let v = self.load_at(s, &Ty::Int(32), b.wrapping_add(o))?;
                let V::C(x) = v else { return err("load.relative") };
                // the table holds 32-bit differences of addresses, which do not fit; handled at decode
                let _ = x;
                self.rel_load(b, o)
            }
            "objectsize" => Ok(V::C(u64::MAX)),
            "ptrmask" => self.sbin(s, Bin::And, 64, &args[0], &args[1]),
            "stacksave" => Ok(V::C(0)),
            "stackrestore" => Ok(V::C(0)),
            "trap" | "ubsantrap" | "debugtrap" => Err(Stop::Panic("trap".into())),
            "vector" if name.starts_with("vector.reduce.") => {
                let op = name.split('.').nth(2).unwrap().to_string();
                let V::A(xs) = &args[0] else { return err("reduce") };
                let xs = xs.clone();
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match op.as_str() {
                        "add" => self.sbin(s, Bin::Add, w, &acc, x)?,
                        "or" => self.sbin(s, Bin::Or, w, &acc, x)?,
                        "and" => self.sbin(s, Bin::And, w, &acc, x)?,
                        "xor" => self.sbin(s, Bin::Xor, w, &acc, x)?,
                        "mul" => self.sbin(s, Bin::Mul, w, &acc, x)?,
                        "umax" | "umin" | "smax" | "smin" => self.minmax(&op, w, &acc, x)?,
                        o => return err(format!("vector.reduce.{o}")),
                    };
                }
                Ok(acc)
            }
            "x86" => match name {
                "x86.sse2.pmovmskb.128" | "x86.avx2.pmovmskb" => {
                    let V::A(xs) = &args[0] else { return err("pmovmskb") };
                    let xs = xs.clone();
                    let mut acc: Option<E> = None;
                    for x in xs.iter() {
                        let e = self.ex(x, 8);
                        let b = self.a.extract(e, 7, 1);
                        acc = Some(match acc {
                            None => b,
                            Some(a) => self.a.concat(b, a),
                        });
                    }
                    let e = acc.unwrap();
                    let r = self.a.zext(e, 32);
                    Ok(self.val(r))
                }
                "x86.xgetbv" => Ok(V::C(0)),
                "x86.sse2.pause" => Ok(V::C(0)),
                _ => err(format!("intrinsic llvm.{name}")),
            },
            _ => err(format!("intrinsic llvm.{name}")),
        }
    }
    fn fpclass_sym(&mut self, e: E, k: u32) -> E {
        let m = self.a.konst(0x7fff_ffff_ffff_ffff, 64);
        let ab = self.a.bin(Op::And, e, m);
        let neg = self.a.extract(e, 63, 1);
        let pos = self.a.not(neg);
        let inf = self.a.konst(0x7ff0_0000_0000_0000, 64);
        let minn = self.a.konst(0x0010_0000_0000_0000, 64);
        let zero = self.a.konst(0, 64);
        let isnan = self.a.ult(inf, ab);
        let isinf = self.a.eq(ab, inf);
        let isz = self.a.eq(ab, zero);
        let lt_inf = self.a.ult(ab, inf);
        let ge_min = self.a.ule(minn, ab);
        let norm = self.a.and(lt_inf, ge_min);
        let lt_min = self.a.ult(ab, minn);
        let nz = self.a.not(isz);
        let sub = self.a.and(lt_min, nz);
        let mut r = self.a.fls;
        if k & 3 == 3 {
            r = self.a.or(r, isnan);
        } else if k & 3 != 0 {
            // quiet bit
            let q = self.a.extract(e, 51, 1);
            let q = if k & 2 != 0 { q } else { self.a.not(q) };
            let t = self.a.and(isnan, q);
            r = self.a.or(r, t);
        }
        for (bit, sg, cls) in [
            (0x4, neg, isinf),
            (0x8, neg, norm),
            (0x10, neg, sub),
            (0x20, neg, isz),
            (0x40, pos, isz),
            (0x80, pos, sub),
            (0x100, pos, norm),
            (0x200, pos, isinf),
        ] {
            if k & bit != 0 {
                let t = self.a.and(sg, cls);
                r = self.a.or(r, t);
            }
        }
        r
    }
    /// relative lookup tables: entries are `trunc(sub(ptrtoint target, ptrtoint table))`
    fn rel_load(&mut self, base: u64, off: u64) -> R<V> {
        let gi = (base >> 32) as u32;
        if gi == 0 || gi as usize > self.m.globals.len() {
            return err("load.relative base");
        }
        let g = &self.m.globals[gi as usize - 1];
        let line = &self.m.src[g.text.0..g.text.1];
        let k = (off / 4) as usize;
        // the k-th entry names its target after "ptrtoint (ptr @"
        let mut it = line.match_indices("ptrtoint (ptr ").map(|(i, _)| &line[i + 14..]);
        // each entry has two ptrtoint: target, table
        let Some(t) = it.nth(2 * k) else { return err("load.relative entry") };
        let mut l = Lex::new(t);
        let v = self.m.parse_const(&mut l, &Ty::Ptr);
        Ok(v)
    }
}

fn fpclass(x: f64) -> u32 {
    use std::num::FpCategory::*;
    let neg = x.is_sign_negative();
    match x.classify() {
        Nan => {
            if x.to_bits() & (1 << 51) != 0 {
                2
            } else {
                1
            }
        }
        Infinite => if neg { 4 } else { 0x200 },
        Normal => if neg { 8 } else { 0x100 },
        Subnormal => if neg { 0x10 } else { 0x80 },
        Zero => if neg { 0x20 } else { 0x40 },
    }
}

pub fn fsat(f: f64, w: u32, signed: bool) -> u128 {
    if f.is_nan() {
        return 0;
    }
    if signed {
        let lim = (mask(w) >> 1) as i128;
        let x = f as i128;
        (x.clamp(-lim - 1, lim)) as u128 & mask(w)
    } else {
        (f as u128).min(mask(w))
    }
}
