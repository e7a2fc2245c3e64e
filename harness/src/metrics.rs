//! Metric values against definitions written here from scratch.
use crate::es;
use elinor::*;

/// One query: the judgement of each ranked document (None = unjudged) and the
/// judgements of documents that were not retrieved.
pub struct Case {
    pub ranked: Vec<Option<u32>>,
    pub extra: Vec<u32>,
}

/// Document ids that make the id order unrelated to the ranking.
pub fn ranked_id(i: usize) -> u16 {
    ((i * 37 + 11) % 4096) as u16
}
pub fn extra_id(j: usize) -> u16 {
    (4096 + (j * 29 + 5) % 4096) as u16
}

impl Case {
    pub fn stores(&self) -> (TrueRelStore<u16>, PredRelStore<u16>) {
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        for (i, r) in self.ranked.iter().enumerate() {
            if let Some(r) = r {
                t.add_record(7u16, ranked_id(i), *r).unwrap();
            }
            p.add_record(7u16, ranked_id(i), ((self.ranked.len() as f64 / 2.0 - i as f64) * 1e6).into()).unwrap();
        }
        for (j, r) in self.extra.iter().enumerate() {
            t.add_record(7u16, extra_id(j), *r).unwrap();
        }
        (t.build(), p.build())
    }
    pub fn n_rels(&self) -> usize {
        let mut n = 0;
        for r in self.ranked.iter().flatten().chain(self.extra.iter()) {
            if *r >= 1 {
                n += 1;
            }
        }
        n
    }
    pub fn n_judged(&self) -> usize {
        self.ranked.iter().flatten().count() + self.extra.len()
    }
    pub fn is_rel(&self, i: usize) -> bool {
        match self.ranked[i] {
            Some(r) => r >= 1,
            None => false,
        }
    }
    /// number of ranks the cutoff lets through
    pub fn depth(&self, k: usize) -> usize {
        if k == 0 || k > self.ranked.len() {
            self.ranked.len()
        } else {
            k
        }
    }
    pub fn hits_to(&self, d: usize) -> usize {
        let mut h = 0;
        for i in 0..d {
            if self.is_rel(i) {
                h += 1;
            }
        }
        h
    }
}

/// The value of a one-query evaluation.
pub fn score(t: &TrueRelStore<u16>, p: &PredRelStore<u16>, m: Metric) -> f64 {
    score_of(t, p, m, &7u16)
}
pub fn score_of<K: Clone + Ord + std::fmt::Display>(t: &TrueRelStore<K>, p: &PredRelStore<K>, m: Metric, query: &K) -> f64 {
    let e = evaluate(t, p, m).unwrap();
    es::check(e.scores().len() == 1, "one score");
    es::check(e.metric() == m, "metric kept");
    e.scores()[query]
}

/// p0 ranked documents, p1 extra judged documents, p2 = 0: every document may be
/// judged or not, with any judgement; p2 = m > 0: only m of the documents are
/// free, the others follow a fixed pattern numbered p3 (its kind in the higher bits).
/// p4 = 1: small judgements and few cutoffs, for long lists.
pub fn gen_case(judge: fn() -> u32) -> Case {
    let n = es::param(0) as usize;
    let x = es::param(1) as usize;
    let m = es::param(2) as usize;
    let seed = es::param(3) as usize;
    let mut c = Case { ranked: vec![], extra: vec![] };
    let step = if m == 0 { 1 } else { ((n + x) / m).max(1) };
    // patterns of fixed documents: 0 mixed, 1 few judged, 2 few relevant, 3 all
    // relevant, 4 the first half unjudged
    let (kind, seed) = (seed / 8, seed % 8);
    let mixed = |i: usize| (i * 7 + seed * 5 + i * i) % 11;
    let fixed = |i: usize| match kind {
        1 => if (i * 7 + seed) % 9 == 0 { 3 + mixed(i) % 4 } else { 0 },
        2 => if (i * 3 + seed) % 8 == 0 { 6 } else { 3 },
        3 => 6 + i % 4,
        4 => if i < n / 2 { 0 } else { mixed(i) },
        _ => mixed(i),
    };
    let free = |i: usize| m == 0 || (i % step == seed % step && i / step < m);
    for i in 0..n {
        c.ranked.push(if free(i) {
            if es::bool() {
                Some(judge())
            } else {
                None
            }
        } else {
            match fixed(i) {
                0..=2 => None,
                3..=5 => Some(0),
                v => Some(v as u32 - 5),
            }
        });
    }
    for j in 0..x {
        c.extra.push(if free(n + j) { judge() } else { (mixed(n + j) % 4) as u32 });
    }
    c
}

fn any_judgement() -> u32 {
    if es::param(4) == 1 {
        es::conc(es::range(0, 3)) as u32
    } else {
        es::judgement()
    }
}

fn at_least_one(c: &Case) -> bool {
    // a query without any judgement is unknown to the judgement store
    c.n_judged() > 0
}

fn binary_reference(c: &Case, which: u64, k: usize) -> (Metric, f64) {
    let n = c.ranked.len();
    let d = c.depth(k);
    let div = if k == 0 { n } else { k };
    let rels = c.n_rels();
    let hits = c.hits_to(d);
    let q = |a: f64, b: f64| if b == 0.0 { 0.0 } else { a / b };
    match which {
        0 => (Metric::Hits { k }, hits as f64),
        1 => (Metric::Success { k }, if hits > 0 { 1.0 } else { 0.0 }),
        2 => (Metric::Precision { k }, if hits == 0 { 0.0 } else { hits as f64 / div as f64 }),
        3 => (Metric::Recall { k }, q(hits as f64, rels as f64)),
        4 => {
            // harmonic mean of hits/div and hits/rels
            if hits == 0 {
                (Metric::F1 { k }, 0.0)
            } else {
                (Metric::F1 { k }, 2.0 * hits as f64 / (div as f64 + rels as f64))
            }
        }
        5 => {
            let d = if rels < n { rels } else { n };
            (Metric::RPrecision, q(c.hits_to(d) as f64, rels as f64))
        }
        6 => {
            let mut s = 0.0;
            for i in 0..d {
                if c.is_rel(i) {
                    s += c.hits_to(i + 1) as f64 / (i + 1) as f64;
                }
            }
            (Metric::AP { k }, q(s, rels as f64))
        }
        7 => {
            let mut v = 0.0;
            for i in 0..d {
                if c.is_rel(i) {
                    v = 1.0 / (i + 1) as f64;
                    break;
                }
            }
            (Metric::RR { k }, v)
        }
        _ => {
            let non = c.n_judged() - rels;
            let lim = if non < rels { non } else { rels };
            let mut above = 0;
            let mut s = 0.0;
            for i in 0..n {
                match c.ranked[i] {
                    None => {}
                    Some(0) => above += 1,
                    Some(_) => {
                        let a = if above < rels { above } else { rels };
                        s += if a == 0 { 1.0 } else { 1.0 - a as f64 / lim as f64 };
                    }
                }
            }
            (Metric::Bpref, q(s, rels as f64))
        }
    }
}

/// A cutoff: any 64-bit value.
pub fn any_k() -> usize {
    if es::param(4) == 1 {
        // for long lists: none, about as many as there are, or any larger one
        let n = es::param(0);
        return match es::conc(es::range(0, 6)) {
            0 => 0,
            6 => es::int64(n + 3, u64::MAX),
            j => n - 3 + j,
        } as usize;
    }
    es::int64(0, u64::MAX) as usize
}

/// case = metric (0 hits .. 8 bpref)
#[no_mangle]
pub extern "C" fn h_binary() {
    let c = gen_case(any_judgement);
    es::assume(at_least_one(&c));
    let which = es::case();
    let k = if which == 5 || which == 8 { 0 } else { any_k() };
    let (m, want) = binary_reference(&c, which, k);
    let (t, p) = c.stores();
    let got = score(&t, &p, m);
    es::observe_f(got);
    es::close(got, want, "value");
    if c.n_rels() == 0 {
        es::cover("no relevant document");
    }
    if got > 0.0 {
        es::cover("positive");
    }
    if k > c.ranked.len() {
        es::cover("cutoff beyond the ranking");
    }
}

fn graded() -> u32 {
    if es::param(4) == 1 {
        return any_judgement();
    }
    es::int(0, u32::MAX)
}
fn graded_1000() -> u32 {
    if es::param(4) == 1 {
        return any_judgement();
    }
    es::int(0, 1000)
}
fn graded_small() -> u32 {
    if es::param(4) == 1 {
        return any_judgement();
    }
    es::range(0, 3) as u32
}

fn gain(burges: bool, rel: u32) -> f64 {
    if burges {
        2.0f64.powf(rel as f64) - 1.0
    } else {
        rel as f64
    }
}

fn dcg_of(c: &Case, k: usize, burges: bool) -> f64 {
    let mut s = 0.0;
    for i in 0..c.depth(k) {
        if let Some(r) = c.ranked[i] {
            s += gain(burges, r) / ((i + 2) as f64).log2();
        }
    }
    s
}

/// DCG of all judged documents by descending judgement.
fn ideal_of(c: &Case, k: usize, burges: bool) -> f64 {
    let mut all: Vec<u32> = c.ranked.iter().flatten().copied().chain(c.extra.iter().copied()).collect();
    // selection sort
    for i in 0..all.len() {
        for j in i + 1..all.len() {
            if all[j] > all[i] {
                all.swap(i, j);
            }
        }
    }
    let d = if k == 0 || k > all.len() { all.len() } else { k };
    let mut s = 0.0;
    for (i, r) in all.iter().enumerate().take(d) {
        s += gain(burges, *r) / ((i + 2) as f64).log2();
    }
    s
}

/// case 0 dcg, 1 dcg_burges; +2: judgements 0..=3 only
#[no_mangle]
pub extern "C" fn h_dcg() {
    let burges = es::case() & 1 == 1;
    let c = gen_case(if es::case() & 2 == 2 {
        graded_small
    } else if burges {
        graded_1000
    } else {
        graded
    });
    es::assume(at_least_one(&c));
    let k = any_k();
    let want = dcg_of(&c, k, burges);
    let (t, p) = c.stores();
    let got = score(&t, &p, if burges { Metric::DCGBurges { k } } else { Metric::DCG { k } });
    es::observe_f(got);
    es::close_rel(got, want, "DCG");
    es::check(got >= 0.0, "DCG is not negative");
    if got > 0.0 {
        es::cover("positive");
    }
}

/// One document with any judgement: the gain never goes negative and DCG stays a number.
#[no_mangle]
pub extern "C" fn h_dcg_range() {
    let burges = es::case() & 1 == 1;
    let r = es::int(0, u32::MAX);
    let mut t = TrueRelStoreBuilder::new();
    t.add_record(7u16, 1u16, r).unwrap();
    let mut p = PredRelStoreBuilder::new();
    p.add_record(7u16, 1u16, 1.0.into()).unwrap();
    let got = score(&t.build(), &p.build(), if burges { Metric::DCGBurges { k: 0 } } else { Metric::DCG { k: 0 } });
    es::check(!got.is_nan(), "DCG is a number");
    es::check(got >= 0.0, "DCG is not negative");
    es::check((got == 0.0) == (r == 0), "DCG is zero exactly for judgement 0");
}

/// One document: the gain of every judgement up to p0 (split value by value), and around every power of two (p0 = 0).
#[no_mangle]
pub extern "C" fn h_gain() {
    let r = match es::param(0) {
        0 => {
            let e = es::conc(es::range(1, 32)) as u32;
            ((1u64 << e) - 2 + es::conc(es::range(0, 3))) as u32
        }
        n => es::conc(es::range(0, n)) as u32,
    };
    let mut t = TrueRelStoreBuilder::new();
    t.add_record(7u16, 1u16, r).unwrap();
    let mut p = PredRelStoreBuilder::new();
    p.add_record(7u16, 1u16, 1.0.into()).unwrap();
    let (m, want) = if es::case() == 0 {
        (Metric::DCG { k: 0 }, r as f64)
    } else if r < 1024 {
        (Metric::DCGBurges { k: 0 }, f64::from_bits((1023 + r as u64) << 52) - 1.0)
    } else {
        (Metric::DCGBurges { k: 0 }, f64::INFINITY)
    };
    let got = score(&t.build(), &p.build(), m);
    es::check(got == want || (got - want).abs() <= 1e-12 * want, "gain");
    es::observe_f(got);
}

/// case 0 ndcg, 1 ndcg_burges; +2: judgements 0..=3 only
#[no_mangle]
pub extern "C" fn h_ndcg() {
    let burges = es::case() & 1 == 1;
    let c = gen_case(if es::case() & 2 == 2 {
        graded_small
    } else if burges {
        graded_1000
    } else {
        graded
    });
    es::assume(at_least_one(&c));
    let k = any_k();
    let dcg = dcg_of(&c, k, burges);
    let ideal = ideal_of(&c, k, burges);
    let (t, p) = c.stores();
    let got = score(&t, &p, if burges { Metric::NDCGBurges { k } } else { Metric::NDCG { k } });
    es::observe_f(got);
    if c.n_rels() == 0 {
        es::close(got, 1.0, "nDCG without relevant documents");
        es::cover("no relevant document");
    } else {
        es::close_rel(got * ideal, dcg, "nDCG");
        es::cover("relevant document");
        if !burges {
            // with equal values this is nDCG <= 1
            es::check(dcg <= ideal + 1e-9 * ideal, "nDCG is at most 1");
        }
    }
}

/// C11: every metric (case 0..12) gives a number in its range, for any cutoff.
#[no_mangle]
pub extern "C" fn h_range() {
    let which = es::case();
    let c = gen_case(if which < 9 { any_judgement } else { graded_small });
    es::assume(at_least_one(&c));
    let k = if which == 5 || which == 8 { 0 } else { any_k() };
    let (t, p) = c.stores();
    let m = match which {
        0 => Metric::Hits { k },
        1 => Metric::Success { k },
        2 => Metric::Precision { k },
        3 => Metric::Recall { k },
        4 => Metric::F1 { k },
        5 => Metric::RPrecision,
        6 => Metric::AP { k },
        7 => Metric::RR { k },
        8 => Metric::Bpref,
        9 => Metric::DCG { k },
        10 => Metric::NDCG { k },
        11 => Metric::DCGBurges { k },
        _ => Metric::NDCGBurges { k },
    };
    let got = score(&t, &p, m);
    es::observe_f(got);
    es::check(!got.is_nan(), "not NaN");
    es::check(got >= 0.0, "not negative");
    match which {
        0 => {
            let d = c.depth(k);
            es::check(got <= d as f64, "hits at most the documents considered");
            let mut integer = false;
            for i in 0..=d {
                if got == i as f64 {
                    integer = true;
                }
            }
            es::check(integer, "hits is an integer");
        }
        9 | 11 => es::check(got.is_finite(), "finite"),
        _ => es::check(got <= 1.0 + 1e-9, "at most 1"),
    }
    if which < 9 && c.n_rels() == 0 {
        es::check(got == 0.0, "0 without relevant documents");
        es::cover("no relevant document");
    }
}

/// C11: one document with a judgement whose Burges gain exceeds a double (known finding).
#[no_mangle]
pub extern "C" fn h_ndcg_extreme() {
    let r = [1023u32, 1024, 5000, u32::MAX][es::conc(es::range(0, 3)) as usize];
    let mut t = TrueRelStoreBuilder::new();
    t.add_record(7u16, 1u16, r).unwrap();
    let mut p = PredRelStoreBuilder::new();
    p.add_record(7u16, 1u16, 1.0.into()).unwrap();
    let got = score(&t.build(), &p.build(), Metric::NDCGBurges { k: 0 });
    if r < 1024 {
        es::check(got == 1.0, "nDCG of the ideal ranking");
    } else {
        es::check(!got.is_nan(), "nDCG with a Burges gain above the largest double is a number");
    }
}
