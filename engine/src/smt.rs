//! SMT-LIB2 back end: one z3 process kept alive, definitions at level 0, one push/pop per query.
use crate::expr::*;
use crate::ir::FCmp;
use crate::real::{Poly, Rat};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

pub struct Smt {
    child: Child,
    inp: ChildStdin,
    out: Receiver<String>,
    emitted: HashSet<E>,
    emitted_int: HashSet<E>,
    declared: HashSet<u32>,
    buf: String,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub cache_hits: u64,
    cache: HashMap<Vec<E>, Res>,
    pub timeout_ms: u64,
    pub log: Option<std::fs::File>,
    unsupported: HashSet<E>,
    wait_ms: u64,
    dead: bool,
    pub restarts: u64,
    pub deadline: Instant,
}

fn bvc(k: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", k, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", k, width = w as usize)
    }
}

const PREAMBLE: &str =
    "(set-option :print-success false)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n";

fn start_solver() -> (Child, ChildStdin, Receiver<String>) {
    let exe = std::env::var("ELSYM_Z3").unwrap_or_else(|_| "z3-new".into());
    let mut child = Command::new(&exe)
        .args(["-in", "-smt2"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("z3");
    let inp = child.stdin.take().unwrap();
    let mut out = BufReader::new(child.stdout.take().unwrap());
    let (tx, rx) = channel();
    std::thread::spawn(move || loop {
        let mut line = String::new();
        if out.read_line(&mut line).unwrap_or(0) == 0 || tx.send(line).is_err() {
            return;
        }
    });
    (child, inp, rx)
}

impl Smt {
    pub fn new(timeout_ms: u64) -> Smt {
        let (child, inp, out) = start_solver();
        let log = std::env::var("ELSYM_SMTLOG").ok().map(|p| std::fs::File::create(p).unwrap());
        let mut s = Smt {
            child,
            inp,
            out,
            emitted: HashSet::new(),
            emitted_int: HashSet::new(),
            declared: HashSet::new(),
            buf: String::new(),
            queries: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            time: 0.0,
            max_time: 0.0,
            cache_hits: 0,
            cache: HashMap::new(),
            timeout_ms,
            log,
            unsupported: HashSet::new(),
            wait_ms: timeout_ms + timeout_ms / 2 + 2000,
            dead: false,
            restarts: 0,
            deadline: Instant::now() + Duration::from_secs(1 << 30),
        };
        s.send(PREAMBLE);
        s
    }
    /// Replaces a solver that ignores its time limit; definitions are sent again on demand.
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (child, inp, out) = start_solver();
        self.child = child;
        self.inp = inp;
        self.out = out;
        self.emitted.clear();
        self.emitted_int.clear();
        self.declared.clear();
        self.buf.clear();
        self.dead = false;
        self.restarts += 1;
        self.send(PREAMBLE);
    }
    fn send(&mut self, t: &str) {
        if let Some(l) = &mut self.log {
            let _ = l.write_all(t.as_bytes());
        }
        let _ = self.inp.write_all(t.as_bytes());
    }
    fn name(&self, a: &Arena, e: E) -> String {
        let n = a.n(e);
        match n.op {
            Op::Const => {
                if n.w == 1 {
                    if n.k == 1 { "true".into() } else { "false".into() }
                } else {
                    bvc(n.k, n.w as u32)
                }
            }
            Op::Var => {
                let v = &a.vars[n.a as usize];
                match v.kind {
                    VarKind::Int => format!("((_ int2bv {}) {})", n.w, v.name),
                    _ => v.name.clone(),
                }
            }
            Op::RVar => a.vars[n.a as usize].name.clone(),
            _ => format!("e{e}"),
        }
    }
    /// as a bit-vector term (booleans become 1-bit vectors)
    fn bv(&self, a: &Arena, e: E) -> String {
        if a.w(e) == 1 {
            if let Some(c) = a.cval(e) {
                return bvc(c, 1);
            }
            format!("(ite {} #b1 #b0)", self.name(a, e))
        } else {
            self.name(a, e)
        }
    }
    fn fpa(&self, a: &Arena, e: E) -> String {
        let n = a.n(e);
        match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FUi | Op::FSi | Op::FCvt64
            | Op::FRnd(_) => format!("f{e}"),
            _ => format!("((_ to_fp 11 53) {})", self.name(a, e)),
        }
    }
    fn as_int(&self, a: &Arena, e: E) -> Option<String> {
        let n = a.n(e);
        match n.op {
            Op::Const => Some(format!("{}", n.k)),
            Op::Var if a.vars[n.a as usize].kind == VarKind::Int => Some(a.vars[n.a as usize].name.clone()),
            Op::Zext => self.as_int(a, n.a),
            Op::Ite => {
                let x = self.as_int(a, n.b)?;
                let y = self.as_int(a, n.c)?;
                Some(format!("(ite {} {} {})", self.name(a, n.a), x, y))
            }
            _ => None,
        }
    }
    fn is_intish(&self, a: &Arena, e: E) -> bool {
        let n = a.n(e);
        match n.op {
            Op::Var => a.vars[n.a as usize].kind == VarKind::Int,
            Op::Zext => self.is_intish(a, n.a),
            Op::Ite => self.is_intish(a, n.b) || self.is_intish(a, n.c),
            _ => false,
        }
    }
    pub fn poly_str(&self, a: &Arena, p: &Poly) -> String {
        let mut ts = vec![];
        for (m, c) in &p.terms {
            let mut fs: Vec<String> = vec![];
            if *c != Rat::ONE || m.is_empty() {
                fs.push(c.smt());
            }
            for (at, e) in m {
                for _ in 0..*e {
                    fs.push(self.name(a, *at));
                }
            }
            ts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        match ts.len() {
            0 => "0.0".into(),
            1 => ts.pop().unwrap(),
            _ => format!("(+ {})", ts.join(" ")),
        }
    }
    fn emit(&mut self, a: &mut Arena, root: E) -> Result<(), String> {
        let mut st = vec![(root, false)];
        while let Some((e, done)) = st.pop() {
            if self.emitted.contains(&e) {
                if self.unsupported.contains(&e) {
                    return Err(format!("unsupported float operation {:?}", a.n(e).op));
                }
                continue;
            }
            let n = a.n(e).clone();
            match n.op {
                Op::Const => continue,
                Op::Var | Op::RVar => {
                    if self.declared.insert(n.a) {
                        let v = &a.vars[n.a as usize];
                        let sort = match v.kind {
                            VarKind::Bv if v.w == 1 => "Bool".to_string(),
                            VarKind::Bv => format!("(_ BitVec {})", v.w),
                            VarKind::Int => "Int".to_string(),
                            VarKind::Real => "Real".to_string(),
                        };
                        self.buf.push_str(&format!("(declare-const {} {})\n", v.name, sort));
                    }
                    self.emitted.insert(e);
                    continue;
                }
                _ => {}
            }
            if !done {
                st.push((e, true));
                for k in a.children(e) {
                    st.push((k, false));
                }
                continue;
            }
            self.emitted.insert(e);
            let w = n.w as u32;
            let nm = |x: E| self.name(a, x);
            let bv = |x: E| self.bv(a, x);
            let (sort, body) = match n.op {
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::And | Op::Or | Op::Xor
                | Op::Shl | Op::LShr | Op::AShr => {
                    if w == 1 {
                        let o = match n.op {
                            Op::And | Op::Mul => "and",
                            Op::Or => "or",
                            Op::Xor | Op::Add | Op::Sub => "xor",
                            _ => {
                                self.unsupported.insert(e);
                                return Err("1-bit op".into());
                            }
                        };
                        if n.op == Op::Xor && n.b == a.tru {
                            ("Bool".into(), format!("(not {})", nm(n.a)))
                        } else {
                            ("Bool".into(), format!("({o} {} {})", nm(n.a), nm(n.b)))
                        }
                    } else {
                        let o = match n.op {
                            Op::Add => "bvadd",
                            Op::Sub => "bvsub",
                            Op::Mul => "bvmul",
                            Op::UDiv => "bvudiv",
                            Op::URem => "bvurem",
                            Op::SDiv => "bvsdiv",
                            Op::SRem => "bvsrem",
                            Op::And => "bvand",
                            Op::Or => "bvor",
                            Op::Xor => "bvxor",
                            Op::Shl => "bvshl",
                            Op::LShr => "bvlshr",
                            _ => "bvashr",
                        };
                        (format!("(_ BitVec {w})"), format!("({o} {} {})", nm(n.a), nm(n.b)))
                    }
                }
                Op::Zext => {
                    let iw = a.w(n.a);
                    (format!("(_ BitVec {w})"), format!("((_ zero_extend {}) {})", w - iw, bv(n.a)))
                }
                Op::Sext => {
                    let iw = a.w(n.a);
                    (format!("(_ BitVec {w})"), format!("((_ sign_extend {}) {})", w - iw, bv(n.a)))
                }
                Op::Extract => {
                    let hi = n.k as u32 + w - 1;
                    if w == 1 {
                        ("Bool".into(), format!("(= ((_ extract {hi} {}) {}) #b1)", n.k, bv(n.a)))
                    } else {
                        (format!("(_ BitVec {w})"), format!("((_ extract {hi} {}) {})", n.k, bv(n.a)))
                    }
                }
                Op::Concat => (format!("(_ BitVec {w})"), format!("(concat {} {})", bv(n.a), bv(n.b))),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let iw = a.w(n.a);
                    let intish = self.is_intish(a, n.a) || self.is_intish(a, n.b);
                    let (x, y) = if intish { (self.as_int(a, n.a), self.as_int(a, n.b)) } else { (None, None) };
                    if let (Some(mut x), Some(mut y)) = (x, y) {
                        if matches!(n.op, Op::Slt | Op::Sle) {
                            let half = 1u128 << (iw - 1);
                            let full = 1u128 << iw.min(126);
                            x = format!("(let ((x {x})) (ite (>= x {half}) (- x {full}) x))");
                            y = format!("(let ((y {y})) (ite (>= y {half}) (- y {full}) y))");
                        }
                        let o = match n.op {
                            Op::Eq => "=",
                            Op::Ult | Op::Slt => "<",
                            _ => "<=",
                        };
                        ("Bool".into(), format!("({o} {x} {y})"))
                    } else {
                        let o = match n.op {
                            Op::Eq => "=",
                            Op::Ult => "bvult",
                            Op::Ule => "bvule",
                            Op::Slt => "bvslt",
                            _ => "bvsle",
                        };
                        if iw == 1 && n.op == Op::Eq {
                            ("Bool".into(), format!("(= {} {})", nm(n.a), nm(n.b)))
                        } else {
                            ("Bool".into(), format!("({o} {} {})", bv(n.a), bv(n.b)))
                        }
                    }
                }
                Op::Ite => {
                    let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {w})") };
                    (sort, format!("(ite {} {} {})", nm(n.a), nm(n.b), nm(n.c)))
                }
                Op::Lut => {
                    let t = a.luts[n.b as usize].clone();
                    let iw = a.w(n.a);
                    let idx = nm(n.a);
                    // contiguous runs
                    let mut runs: Vec<(usize, u64)> = vec![]; // (last index, value)
                    for (i, v) in t.iter().enumerate() {
                        if let Some(l) = runs.last_mut() {
                            if l.1 == *v {
                                l.0 = i;
                                continue;
                            }
                        }
                        runs.push((i, *v));
                    }
                    let lit = |v: u64| {
                        if w == 1 {
                            if v == 1 { "true".to_string() } else { "false".to_string() }
                        } else {
                            bvc(v as u128, w)
                        }
                    };
                    let mut s = lit(runs.last().unwrap().1);
                    for (hi, v) in runs.iter().rev().skip(1) {
                        s = format!("(ite (bvule {idx} {}) {} {s})", bvc(*hi as u128, iw), lit(*v));
                    }
                    let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {w})") };
                    (sort, s)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FUi | Op::FSi | Op::FCvt64 | Op::FRnd(_) => {
                    let x = if matches!(n.op, Op::FUi | Op::FSi | Op::FCvt64) { String::new() } else { self.fpa(a, n.a) };
                    let body = match n.op {
                        Op::FAdd => format!("(fp.add RNE {x} {})", self.fpa(a, n.b)),
                        Op::FSub => format!("(fp.sub RNE {x} {})", self.fpa(a, n.b)),
                        Op::FMul => format!("(fp.mul RNE {x} {})", self.fpa(a, n.b)),
                        Op::FDiv => format!("(fp.div RNE {x} {})", self.fpa(a, n.b)),
                        Op::FSqrt => format!("(fp.sqrt RNE {x})"),
                        Op::FUi => format!("((_ to_fp_unsigned 11 53) RNE {})", bv(n.a)),
                        Op::FSi => format!("((_ to_fp 11 53) RNE {})", bv(n.a)),
                        Op::FCvt64 => format!("((_ to_fp 11 53) RNE ((_ to_fp 8 24) {}))", bv(n.a)),
                        Op::FRnd(0) => format!("(fp.roundToIntegral RTN {x})"),
                        Op::FRnd(1) => format!("(fp.roundToIntegral RTP {x})"),
                        Op::FRnd(2) => format!("(fp.roundToIntegral RTZ {x})"),
                        Op::FRnd(3) => format!("(fp.roundToIntegral RNA {x})"),
                        _ => format!("(fp.roundToIntegral RNE {x})"),
                    };
                    self.buf.push_str(&format!("(define-fun f{e} () (_ FloatingPoint 11 53) {body})\n"));
                    ("(_ BitVec 64)".into(), format!("(fp.to_ieee_bv f{e})"))
                }
                Op::FCvt32 => (
                    "(_ BitVec 32)".into(),
                    format!("(fp.to_ieee_bv ((_ to_fp 8 24) RNE {}))", self.fpa(a, n.a)),
                ),
                Op::FToUi | Op::FToSi => {
                    let x = self.fpa(a, n.a);
                    let (c, lo, hi) = if n.op == Op::FToUi {
                        ("fp.to_ubv", bvc(0, w), bvc(mask(w), w))
                    } else {
                        ("fp.to_sbv", bvc(1u128 << (w - 1), w), bvc(mask(w) >> 1, w))
                    };
                    let (lof, hif) = if n.op == Op::FToUi {
                        (-1.0f64, 2f64.powi(w as i32))
                    } else {
                        (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1))
                    };
                    let fl = |x: f64| format!("((_ to_fp 11 53) {})", bvc(x.to_bits() as u128, 64));
                    (
                        format!("(_ BitVec {w})"),
                        format!(
                            "(ite (fp.isNaN {x}) {} (ite (fp.leq {x} {}) {lo} (ite (fp.geq {x} {}) {hi} ((_ {c} {w}) RTZ {x}))))",
                            bvc(0, w),
                            fl(lof),
                            fl(hif)
                        ),
                    )
                }
                Op::FCmp(p) => {
                    let x = self.fpa(a, n.a);
                    let y = self.fpa(a, n.b);
                    let un = format!("(or (fp.isNaN {x}) (fp.isNaN {y}))");
                    let body = match p {
                        FCmp::Oeq => format!("(fp.eq {x} {y})"),
                        FCmp::Ogt => format!("(fp.gt {x} {y})"),
                        FCmp::Oge => format!("(fp.geq {x} {y})"),
                        FCmp::Olt => format!("(fp.lt {x} {y})"),
                        FCmp::Ole => format!("(fp.leq {x} {y})"),
                        FCmp::One => format!("(and (not {un}) (not (fp.eq {x} {y})))"),
                        FCmp::Ord => format!("(not {un})"),
                        FCmp::Ueq => format!("(or {un} (fp.eq {x} {y}))"),
                        FCmp::Ugt => format!("(not (fp.leq {x} {y}))"),
                        FCmp::Uge => format!("(not (fp.lt {x} {y}))"),
                        FCmp::Ult => format!("(not (fp.geq {x} {y}))"),
                        FCmp::Ule => format!("(not (fp.gt {x} {y}))"),
                        FCmp::Une => format!("(not (fp.eq {x} {y}))"),
                        FCmp::Uno => un,
                        FCmp::False => "false".into(),
                        FCmp::True => "true".into(),
                    };
                    ("Bool".into(), body)
                }
                Op::FRem | Op::FPow | Op::FLog | Op::FLog2 | Op::FExp => {
                    self.unsupported.insert(e);
                    return Err(format!("unsupported float operation {:?}", n.op));
                }
                Op::RPoly => {
                    let p = a.poly(e);
                    ("Real".into(), self.poly_str(a, &p))
                }
                Op::RSqrt | Op::RDiv | Op::RUf => {
                    self.buf.push_str(&format!("(declare-const e{e} Real)\n"));
                    continue;
                }
                Op::RRaw => {
                    let o = if n.k == 0 { "+" } else { "*" };
                    ("Real".into(), format!("({o} {} {})", nm(n.a), nm(n.b)))
                }
                Op::RInt => {
                    let s = match self.as_int(a, n.a) {
                        Some(s) => format!("(to_real {s})"),
                        None => format!("(to_real (bv2nat {}))", bv(n.a)),
                    };
                    ("Real".into(), s)
                }
                Op::RLt0 => ("Bool".into(), format!("(< {} 0.0)", nm(n.a))),
                Op::RLe0 => ("Bool".into(), format!("(<= {} 0.0)", nm(n.a))),
                Op::REq0 => ("Bool".into(), format!("(= {} 0.0)", nm(n.a))),
                Op::Const | Op::Var | Op::RVar => unreachable!(),
            };
            self.buf.push_str(&format!("(define-fun e{e} () {sort} {body})\n"));
        }
        Ok(())
    }

    /// Side facts for real atoms reachable from the given expressions.
    fn facts(&mut self, a: &mut Arena, es: &[E]) -> Result<String, String> {
        let mut seen = HashSet::new();
        let mut st: Vec<E> = es.to_vec();
        let mut out = String::new();
        let mut ufs: Vec<E> = vec![];
        let mut vars: Vec<u32> = vec![];
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = a.n(e).clone();
            match n.op {
                Op::Var => {
                    if a.vars[n.a as usize].kind == VarKind::Int {
                        vars.push(n.a);
                    }
                }
                Op::RSqrt => {
                    self.emit(a, e)?;
                    out.push_str(&format!("(assert (and (>= e{e} 0.0) (= (* e{e} e{e}) {})))\n", self.name(a, n.a)));
                }
                Op::RDiv => {
                    self.emit(a, e)?;
                    let d = self.name(a, n.b);
                    out.push_str(&format!(
                        "(assert (=> (not (= {d} 0.0)) (= (* e{e} {d}) {})))\n",
                        self.name(a, n.a)
                    ));
                }
                Op::RUf => {
                    self.emit(a, e)?;
                    let (_, lo, hi) = a.ufs[n.a as usize];
                    if let Some(r) = Rat::from_f64(lo) {
                        out.push_str(&format!("(assert (>= e{e} {}))\n", r.smt()));
                    }
                    if let Some(r) = Rat::from_f64(hi) {
                        out.push_str(&format!("(assert (<= e{e} {}))\n", r.smt()));
                    }
                    for f in &ufs {
                        let m = a.n(*f).clone();
                        if m.a == n.a {
                            let x = a.ufargs[n.k as usize].clone();
                            let y = a.ufargs[m.k as usize].clone();
                            let mut eqs = vec![];
                            for (p, q) in x.iter().zip(y.iter()) {
                                self.emit(a, *p)?;
                                self.emit(a, *q)?;
                                eqs.push(format!("(= {} {})", self.name(a, *p), self.name(a, *q)));
                            }
                            out.push_str(&format!("(assert (=> (and true {}) (= e{e} e{f})))\n", eqs.join(" ")));
                        }
                    }
                    ufs.push(e);
                }
                _ => {}
            }
            st.extend(a.children(e));
        }
        for v in vars {
            let vi = &a.vars[v as usize];
            out.push_str(&format!("(assert (and (<= 0 {}) (<= {} {})))\n", vi.name, vi.name, mask(vi.w as u32)));
        }
        Ok(out)
    }

    fn read_sexp(&mut self) -> String {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let line = match self.out.recv_timeout(Duration::from_millis(self.wait_ms)) {
                Ok(l) => l,
                Err(_) => {
                    self.dead = true;
                    return "unknown".into();
                }
            };
            let mut instr = false;
            for c in line.chars() {
                match c {
                    '"' => instr = !instr,
                    '(' if !instr => depth += 1,
                    ')' if !instr => depth -= 1,
                    _ => {}
                }
            }
            s.push_str(&line);
            if depth <= 0 && !s.trim().is_empty() {
                return s;
            }
        }
    }

    /// Satisfiability of the conjunction. The model covers the variables of the conjunction.
    pub fn check(&mut self, a: &mut Arena, conj: &[E]) -> Res {
        let mut key: Vec<E> = conj.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        if t0 > self.deadline {
            return Res::Unknown("deadline".into());
        }
        let r = self.check_raw(a, &key);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        match &r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown(_) => self.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    fn check_raw(&mut self, a: &mut Arena, conj: &[E]) -> Res {
        let mut real = false;
        let mut memo = HashMap::new();
        for e in conj {
            if a.has_real(*e, &mut memo) {
                real = true;
            }
            if let Err(m) = self.emit(a, *e) {
                let b = std::mem::take(&mut self.buf);
                self.send(&b);
                return Res::Unknown(m);
            }
        }
        let facts = if real || a.vars.iter().any(|v| v.kind == VarKind::Int) {
            match self.facts(a, conj) {
                Ok(f) => f,
                Err(m) => return Res::Unknown(m),
            }
        } else {
            String::new()
        };
        let defs = std::mem::take(&mut self.buf);
        self.send(&defs);
        let tq = Instant::now();
        let mut q = String::from("(push 1)\n");
        q.push_str(&facts);
        for e in conj {
            q.push_str(&format!("(assert {})\n", self.name(a, *e)));
        }
        let left = self.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        let tmo = self.timeout_ms.min(left + 500);
        // nonlinear real queries: a short general attempt, nlsat, a long general attempt
        let first = if real { tmo.min(250) } else { tmo };
        q.push_str(&format!("(set-option :timeout {first})\n(check-sat)\n"));
        self.send(&q);
        let mut ans = self.read_sexp();
        let mut stage = 1;
        if real && ans.trim() == "unknown" && !self.dead {
            stage = 2;
            self.send(&format!(
                "(set-option :timeout {tmo})\n(check-sat-using (try-for (then simplify propagate-values solve-eqs purify-arith qfnra-nlsat) {}))\n",
                tmo / 2
            ));
            ans = self.read_sexp();
            if ans.trim() == "unknown" && !self.dead {
                stage = 3;
                self.send(&format!("(set-option :timeout {tmo})\n(check-sat)\n"));
                ans = self.read_sexp();
            }
        }
        if std::env::var("ELSYM_TRACEQ").is_ok() {
            eprintln!("query {} conj={} -> {} stage {stage} {:.2}", self.queries, conj.len(), ans.trim(), tq.elapsed().as_secs_f64());
            for e in conj.iter().rev().take(3) {
                eprintln!("    {}", show(a, *e, 5));
            }
        }
        let r = match ans.trim() {
            "unsat" => Res::Unsat,
            "sat" => {
                let mut vs: Vec<u32> = vec![];
                for e in conj {
                    vs.extend(a.support(*e).iter());
                }
                vs.sort();
                vs.dedup();
                vs.retain(|v| *v < UF_PSEUDO);
                let mut m = Model::default();
                if !vs.is_empty() {
                    let names: Vec<String> = vs.iter().map(|v| a.vars[*v as usize].name.clone()).collect();
                    self.send(&format!("(get-value ({}))\n", names.join(" ")));
                    let s = self.read_sexp();
                    if self.dead {
                        self.restart();
                        return Res::Unknown("timeout".into());
                    }
                    if s.contains("(error") {
                        self.send("(pop 1)\n");
                        return Res::Unknown(format!("get-value: {s}"));
                    }
                    parse_values(&s, a, &vs, &mut m);
                }
                Res::Sat(m)
            }
            x => Res::Unknown(x.to_string()),
        };
        if self.dead {
            self.restart();
            return Res::Unknown("timeout".into());
        }
        self.send("(pop 1)\n");
        r
    }
    pub fn close(&mut self) {
        let _ = self.inp.write_all(b"(exit)\n");
        let _ = self.child.wait();
    }
}

fn show(a: &Arena, e: E, fuel: u32) -> String {
    if let Some(k) = a.cval(e) {
        return if k >> 32 > 0 { format!("{k:#x}") } else { k.to_string() };
    }
    let n = a.n(e);
    if n.op == crate::expr::Op::Var {
        return a.vars[n.a as usize].name.clone();
    }
    if fuel == 0 {
        return format!("#{e}");
    }
    let c: Vec<String> = a.children(e).into_iter().map(|x| show(a, x, fuel - 1)).collect();
    format!("{:?}({})", n.op, c.join(" "))
}

fn toks(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                v.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

fn parse_num(t: &[String], i: &mut usize) -> f64 {
    // decimal, (- x), (/ x y)
    if t[*i] == "(" {
        *i += 1;
        let op = t[*i].clone();
        *i += 1;
        let x = parse_num(t, i);
        let r = match op.as_str() {
            "-" => {
                if t[*i] == ")" {
                    -x
                } else {
                    x - parse_num(t, i)
                }
            }
            "/" => x / parse_num(t, i),
            "+" => x + parse_num(t, i),
            "*" => x * parse_num(t, i),
            _ => f64::NAN,
        };
        // skip to the closing parenthesis
        let mut d = 1;
        while d > 0 {
            if t[*i] == "(" {
                d += 1;
            }
            if t[*i] == ")" {
                d -= 1;
            }
            *i += 1;
        }
        r
    } else {
        let s = t[*i].trim_end_matches('?');
        *i += 1;
        s.parse().unwrap_or(f64::NAN)
    }
}

fn parse_values(s: &str, a: &Arena, vs: &[u32], m: &mut Model) {
    let t = toks(s);
    let byname: HashMap<&str, u32> = vs.iter().map(|v| (a.vars[*v as usize].name.as_str(), *v)).collect();
    let mut i = 1;
    while i + 1 < t.len() {
        if t[i] != "(" {
            i += 1;
            continue;
        }
        let Some(&v) = byname.get(t[i + 1].as_str()) else {
            i += 1;
            continue;
        };
        i += 2;
        match a.vars[v as usize].kind {
            VarKind::Bv => {
                let x = &t[i];
                let val = if x == "true" {
                    1
                } else if x == "false" {
                    0
                } else if let Some(h) = x.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).unwrap()
                } else if let Some(b) = x.strip_prefix("#b") {
                    u128::from_str_radix(b, 2).unwrap()
                } else {
                    panic!("value {x}")
                };
                m.bv.insert(v, val);
                i += 1;
            }
            VarKind::Int => {
                let x = t[i].trim_end_matches(".0");
                m.bv.insert(v, x.parse().unwrap_or(0));
                i += 1;
            }
            VarKind::Real => {
                let x = parse_num(&t, &mut i);
                m.re.insert(v, x);
            }
        }
        while i < t.len() && t[i] != ")" {
            i += 1;
        }
        i += 1;
    }
}
