//! Canonical polynomials over real-valued atoms with i128 rational coefficients.
use crate::expr::E;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Rat::ZERO);
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = (b & ((1 << 52) - 1)) as i128;
        let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        while m & 1 == 0 {
            m >>= 1;
            e += 1;
        }
        let s = if b >> 63 == 1 { -1 } else { 1 };
        if e >= 0 {
            if e > 70 {
                return None;
            }
            Some(Rat { n: s * (m << e), d: 1 })
        } else {
            if -e > 120 {
                return None;
            }
            Some(Rat { n: s * m, d: 1i128 << (-e) })
        }
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d, o.d);
        let l = (self.d / g).checked_mul(o.d)?;
        let a = self.n.checked_mul(o.d / g)?;
        let b = o.n.checked_mul(self.d / g)?;
        Some(Rat::new(a.checked_add(b)?, l))
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        let n = (self.n / g1).checked_mul(o.n / g2)?;
        let d = (self.d / g2).checked_mul(o.d / g1)?;
        Some(Rat { n, d })
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn inv(self) -> Rat {
        Rat::new(self.d, self.n)
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn smt(self) -> String {
        let a = self.n.unsigned_abs();
        let s = if self.d == 1 { format!("{a}.0") } else { format!("(/ {a}.0 {}.0)", self.d) };
        if self.n < 0 {
            format!("(- {s})")
        } else {
            s
        }
    }
}

pub type Mono = Vec<(E, u32)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Poly {
    pub terms: Vec<(Mono, Rat)>, // sorted by monomial, no zero coefficients
}

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { terms: vec![] }
    }
    pub fn konst(r: Rat) -> Poly {
        if r.is_zero() {
            Poly::zero()
        } else {
            Poly { terms: vec![(vec![], r)] }
        }
    }
    pub fn atom(e: E) -> Poly {
        Poly { terms: vec![(vec![(e, 1)], Rat::ONE)] }
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.terms.len() {
            0 => Some(Rat::ZERO),
            1 if self.terms[0].0.is_empty() => Some(self.terms[0].1),
            _ => None,
        }
    }
    pub fn atoms(&self) -> Vec<E> {
        let mut v: Vec<E> = self.terms.iter().flat_map(|(m, _)| m.iter().map(|x| x.0)).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn add(&self, o: &Poly) -> Option<Poly> {
        let mut r = Vec::with_capacity(self.terms.len() + o.terms.len());
        let (a, b) = (&self.terms, &o.terms);
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i].clone());
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                r.push(b[j].clone());
                j += 1;
            } else {
                let c = a[i].1.add(b[j].1)?;
                if !c.is_zero() {
                    r.push((a[i].0.clone(), c));
                }
                i += 1;
                j += 1;
            }
        }
        Some(Poly { terms: r })
    }
    pub fn scale(&self, k: Rat) -> Option<Poly> {
        if k.is_zero() {
            return Some(Poly::zero());
        }
        let mut r = Vec::with_capacity(self.terms.len());
        for (m, c) in &self.terms {
            r.push((m.clone(), c.mul(k)?));
        }
        Some(Poly { terms: r })
    }
    pub fn neg(&self) -> Poly {
        self.scale(Rat::int(-1)).unwrap()
    }
    pub fn sub(&self, o: &Poly) -> Option<Poly> {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        if self.terms.len() * o.terms.len() > 40_000 {
            return None;
        }
        let mut m: std::collections::BTreeMap<Mono, Rat> = Default::default();
        for (x, c) in &self.terms {
            for (y, d) in &o.terms {
                let k = mono_mul(x, y);
                let v = c.mul(*d)?;
                let e = m.entry(k).or_insert(Rat::ZERO);
                *e = e.add(v)?;
            }
        }
        Some(Poly { terms: m.into_iter().filter(|(_, c)| !c.is_zero()).collect() })
    }
    /// leading (last) coefficient
    pub fn lead(&self) -> Rat {
        self.terms.last().map(|t| t.1).unwrap_or(Rat::ZERO)
    }
}
