//! The harness interface (`es_*` functions).
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::real::{Poly, Rat};
use std::rc::Rc;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}

fn cond(e: &mut Engine, v: &V, w: u32) -> E {
    let x = e.ex(v, w);
    if w == 1 {
        return x;
    }
    let z = e.a.konst(0, w);
    let q = e.a.eq(x, z);
    e.a.not(q)
}

fn input(e: &mut Engine, s: &mut State, name: &str, w: u32, kind: VarKind) -> E {
    let key = (s.tape.len(), format!("{name}{w}"));
    let v = match e.inputs.get(&key) {
        Some(v) => *v,
        None => {
            let v = e.a.var(&format!("{name}{}", key.0), w, kind);
            e.inputs.insert(key, v);
            v
        }
    };
    v
}
fn push(s: &mut State, v: V) {
    s.tape.push(Tape { e: v, kind: 0, key: [V::C(0), V::C(0), V::C(0), V::C(0)], idx: 0 });
}

fn text(e: &mut Engine, s: &State, p: &V, n: &V) -> String {
    match (p, n) {
        (V::C(p), V::C(n)) => e.cstring(s, *p, *n as usize),
        _ => "?".into(),
    }
}

pub fn api(e: &mut Engine, s: &mut State, name: &str, c: &CallI, args: &[V]) -> R<V> {
    let aw = |i: usize| c.args[i].0.bits();
    match name {
        "u8" | "u16" | "u32" | "u64" => {
            let w: u32 = name[1..].parse().unwrap();
            let v = input(e, s, "b", w, VarKind::Bv);
            push(s, V::S(v));
            Ok(V::S(v))
        }
        "bool" => {
            let v = input(e, s, "t", 1, VarKind::Bv);
            let z = e.a.zext(v, 8);
            push(s, V::S(z));
            let w = c.ret.bits();
            if w == 1 {
                return Ok(V::S(v));
            }
            let z = e.a.zext(v, w);
            Ok(V::S(z))
        }
        "range" | "int" | "int64" => {
            let (V::C(lo), V::C(hi)) = (&args[0], &args[1]) else { return err("es_range bounds") };
            let (lo, hi) = (*lo as u128, *hi as u128);
            if lo == hi {
                push(s, V::C(lo as u64));
                return Ok(V::C(lo as u64));
            }
            if name == "range" {
                // the narrowest variable that fits
                let bits = 128 - hi.leading_zeros();
                let v = input(e, s, &format!("r{hi}_{lo}_"), bits, VarKind::Bv);
                let z = e.a.zext(v, 64);
                let k = e.a.konst(hi, bits);
                let c1 = e.a.ule(v, k);
                let k = e.a.konst(lo, bits);
                let c2 = e.a.ule(k, v);
                for q in [c1, c2] {
                    if !e.is_known(s, q) {
                        e.assume(s, q)?;
                    }
                }
                push(s, V::S(z));
                return Ok(V::S(z));
            }
            let w = c.ret.bits();
            let v = input(e, s, &format!("n{hi}_{lo}_"), w, VarKind::Int);
            let k = e.a.konst(hi, w);
            let c1 = e.a.ule(v, k);
            let k = e.a.konst(lo, w);
            let c2 = e.a.ule(k, v);
            for q in [c1, c2] {
                if !e.is_known(s, q) {
                    e.assume(s, q)?;
                }
            }
            push(s, V::S(v));
            Ok(V::S(v))
        }
        "real" => {
            let (V::C(lo), V::C(hi)) = (&args[0], &args[1]) else { return err("es_real bounds") };
            let (lo, hi) = (f64::from_bits(*lo), f64::from_bits(*hi));
            let v = input(e, s, "x", 64, VarKind::Real);
            let p = Poly::atom(v);
            let mut cs = vec![];
            if let Some(r) = Rat::from_f64(lo) {
                let d = p.sub(&Poly::konst(r)).unwrap();
                let c = e.rlt0(&d);
                cs.push(e.a.not(c));
            }
            if let Some(r) = Rat::from_f64(hi) {
                let d = Poly::konst(r).sub(&p).unwrap();
                let c = e.rlt0(&d);
                cs.push(e.a.not(c));
            }
            for q in cs {
                if !e.is_known(s, q) {
                    e.assume(s, q)?;
                }
            }
            let x = e.a.poly_node(p);
            push(s, V::S(x));
            Ok(V::S(x))
        }
        "assume" => {
            let q = cond(e, &args[0], aw(0));
            e.assume(s, q)?;
            Ok(V::C(0))
        }
        "bound" => {
            // leaves the stated bound when false
            let q = cond(e, &args[0], aw(0));
            let t = text(e, s, &args[1], &args[2]);
            if !e.decide(s, q)? {
                return Err(Stop::Bound(t));
            }
            Ok(V::C(0))
        }
        "check" => {
            e.st.checks += 1;
            let q = cond(e, &args[0], aw(0));
            if let Some(k) = e.a.cval(q) {
                if k == 1 {
                    return Ok(V::C(0));
                }
                let t = text(e, s, &args[1], &args[2]);
                let m = s.model.clone();
                e.violation(s, &m, &t, "assertion", true)?;
                return Err(Stop::Dead);
            }
            e.st.checks_sym += 1;
            let nq = e.a.not(q);
            if let Some(m) = e.query(s, nq)? {
                let t = text(e, s, &args[1], &args[2]);
                let m = Engine::merged(s, &m);
                e.violation(s, &m, &t, "assertion", true)?;
                e.assume(s, q)?;
            }
            Ok(V::C(0))
        }
        "close" => {
            e.st.checks += 1;
            let t = text(e, s, &args[3], &args[4]);
            let V::C(tol) = &args[2] else { return err("tolerance") };
            let tol = f64::from_bits(*tol);
            if let (V::C(a), V::C(b)) = (&args[0], &args[1]) {
                let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                if close(a, b, tol) {
                    return Ok(V::C(0));
                }
                let m = s.model.clone();
                e.violation(s, &m, &format!("{t}: got {a}, want {b}"), "assertion", true)?;
                return Err(Stop::Dead);
            }
            if args[0] == args[1] {
                return Ok(V::C(0));
            }
            e.st.checks_sym += 1;
            let ra = e.real_operand(s, &args[0])?;
            let rb = e.real_operand(s, &args[1])?;
            let (p, q) = match (ra, rb) {
                (Some(p), Some(q)) => (p, q),
                _ => {
                    // a non-finite value against a finite one
                    let m = s.model.clone();
                    e.violation(s, &m, &t, "assertion", true)?;
                    return Err(Stop::Dead);
                }
            };
            let d = e.padd(&p, &q.neg());
            let r = Rat::from_f64(tol).unwrap();
            for strong in [true, false] {
                let tt = if strong { Poly::konst(Rat::from_f64(1.0 / 64.0).unwrap()) } else { Poly::konst(r) };
                let mut bad = false;
                for sgn in [false, true] {
                    let dd = if sgn { d.neg() } else { d.clone() };
                    // d > tol
                    let x = e.padd(&tt, &dd.neg());
                    let c = e.rlt0(&x);
                    if let Some(k) = e.a.cval(c) {
                        if k == 0 {
                            continue;
                        }
                    }
                    let res = if strong { e.query(s, c).unwrap_or(None) } else { e.query(s, c)? };
                    if let Some(m) = res {
                        let m = Engine::merged(s, &m);
                        e.violation(s, &m, &t, "assertion", strong)?;
                        bad = true;
                        break;
                    }
                }
                if bad {
                    return Err(Stop::Dead);
                }
                if d.as_const().map_or(false, |c| c.is_zero()) {
                    break;
                }
            }
            Ok(V::C(0))
        }
        "observe" => {
            s.obs.push((args[0].clone(), false));
            Ok(V::C(0))
        }
        "observe_f" => {
            s.obs.push((args[0].clone(), true));
            Ok(V::C(0))
        }
        "conc" => {
            let w = aw(0);
            let k = e.concretize(s, &args[0], w)?;
            Ok(mkc(k, w))
        }
        "cover" => {
            let t = text(e, s, &args[0], &args[1]);
            s.covers.push(t.into());
            Ok(V::C(0))
        }
        "stub" => Ok(V::C(1)),
        "exact_roots" => {
            e.exact_roots = true;
            Ok(V::C(0))
        }
        "case" => Ok(V::C(e.cfg.case)),
        "param" => {
            let V::C(i) = &args[0] else { return err("param") };
            Ok(V::C(e.cfg.params.get(*i as usize).copied().unwrap_or(0)))
        }
        "entropy" => {
            let v = input(e, s, "entropy", 64, VarKind::Bv);
            push(s, V::S(v));
            Ok(V::S(v))
        }
        "rng" => {
            let key = [args[0].clone(), args[1].clone(), args[2].clone(), args[3].clone()];
            let V::C(idx) = args[4] else { return err("rng index") };
            // same stream as an earlier one?
            let mut keys: Vec<[V; 4]> = vec![];
            for t in &s.tape {
                if t.kind == 1 && !keys.contains(&t.key) {
                    keys.push(t.key.clone());
                }
            }
            let mut k = None;
            if keys.contains(&key) {
                k = Some(key.clone());
            } else {
                for q in keys {
                    let mut c = e.a.tru;
                    for i in 0..4 {
                        let (x, y) = (e.ex(&q[i], 64), e.ex(&key[i], 64));
                        let t = e.a.eq(x, y);
                        c = e.a.and(c, t);
                    }
                    if e.decide(s, c)? {
                        k = Some(q);
                        break;
                    }
                }
            }
            let k = k.unwrap_or(key);
            if let Some(x) = e.rngs.iter().find(|r| r.0 == k && r.1 == idx) {
                let v = x.2;
                if !s.tape.iter().any(|t| t.kind == 1 && t.key == k && t.idx == idx) {
                    s.tape.push(Tape { e: V::S(v), kind: 1, key: k, idx });
                }
                return Ok(V::S(v));
            }
            let v = e.a.var(&format!("rng{idx}"), 64, VarKind::Bv);
            e.rngs.push((k.clone(), idx, v));
            s.tape.push(Tape { e: V::S(v), kind: 1, key: k, idx });
            Ok(V::S(v))
        }
        "uf" => {
            // id, a, b, c, lo, hi
            let V::C(id) = args[0] else { return err("uf id") };
            let mut a = vec![];
            for i in 1..4 {
                match e.real_operand(s, &args[i])? {
                    Some(p) => {
                        let n = e.a.poly_node((*p).clone());
                        a.push(n);
                    }
                    None => return Ok(V::C(f64::NAN.to_bits())),
                }
            }
            let (V::C(lo), V::C(hi)) = (&args[4], &args[5]) else { return err("uf range") };
            let u = e.a.uf(&format!("uf{id}"), f64::from_bits(*lo), f64::from_bits(*hi), a);
            let n = e.a.poly_node(Poly::atom(u));
            Ok(V::S(n))
        }
        "hold" => match &args[0] {
            V::S(x) => Ok(V::C(*x as u64)),
            _ => err("es_hold of a number"),
        },
        "held" => match &args[0] {
            V::C(i) if (*i as usize) < e.a.nodes.len() => Ok(V::S(*i as E)),
            _ => err("es_held of an unknown number"),
        },
        "note" => {
            let t = text(e, s, &args[0], &args[1]);
            s.notes.push(t.into());
            Ok(V::C(0))
        }
        _ => err(format!("es_{name}")),
    }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol
}

impl Engine {
    pub fn is_known(&self, s: &State, q: E) -> bool {
        match self.a.is_not(q) {
            Some(n) => s.known.contains_key(&n),
            None => s.known.contains_key(&q),
        }
    }
    pub fn real_operand(&mut self, s: &mut State, v: &V) -> R<Option<Rc<Poly>>> {
        Ok(match self.rv(s, v)? {
            RV::P(p) => Some(p),
            RV::Sp(_) => None,
        })
    }
    pub fn tape_string(&mut self, s: &State, m: &Model) -> String {
        let mut o = String::new();
        for t in &s.tape {
            let v = match &t.e {
                V::C(x) => *x,
                V::S(e) => self.a.eval(*e, m) as u64,
                _ => 0,
            };
            if t.kind == 0 {
                o.push_str(&format!("i{v} "));
            } else {
                let ks: Vec<String> = t
                    .key
                    .iter()
                    .map(|k| match k {
                        V::C(x) => x.to_string(),
                        V::S(e) => (self.a.eval(*e, m) as u64).to_string(),
                        _ => "0".into(),
                    })
                    .collect();
                o.push_str(&format!("r{},{}={v} ", ks.join(","), t.idx));
            }
        }
        o
    }
    /// A counterexample: replayed against the real code before it counts.
    pub fn violation(&mut self, s: &State, m: &Model, msg: &str, kind: &str, strong: bool) -> R<()> {
        let tape = self.tape_string(s, m);
        let r = self.replay.run(self.cfg.case, &self.cfg.params, &tape);
        let rep = r.status == "fail" || r.status == "panic";
        let n = self.vio_seen.entry(msg.to_string()).or_insert(0);
        *n += 1;
        if rep {
            self.vio.push(Violation {
                msg: msg.to_string(),
                tape,
                native: r.msg.clone(),
                kind: kind.to_string(),
                strong,
            });
            return Err(Stop::Found);
        }
        self.unreproduced.push((msg.to_string(), tape, format!("{} {}", r.status, r.msg)));
        if self.unreproduced.len() >= 20 {
            return Err(Stop::Found);
        }
        Ok(())
    }
}
