//! Evaluation over several queries (C04, C05, C12).
use crate::es;
use crate::metrics::{any_k, extra_id, ranked_id};
use elinor::*;

pub fn metric(which: u64, k: usize) -> Metric {
    match which {
        0 => Metric::Hits { k },
        1 => Metric::Success { k },
        2 => Metric::Precision { k },
        3 => Metric::Recall { k },
        4 => Metric::F1 { k },
        5 => Metric::RPrecision,
        6 => Metric::AP { k },
        7 => Metric::RR { k },
        8 => Metric::Bpref,
        9 => Metric::DCG { k },
        10 => Metric::NDCG { k },
        11 => Metric::DCGBurges { k },
        _ => Metric::NDCGBurges { k },
    }
}

fn judgement(which: u64) -> u32 {
    if which < 9 {
        es::judgement()
    } else {
        es::range(0, 3) as u32
    }
}

/// C04. p0 judged queries, p1 predicted queries, ids any byte; each judged query
/// has documents 1 and 2, each predicted query document 1 and a private one.
#[no_mangle]
pub extern "C" fn h_queries() {
    let which = es::case();
    let (nt, np) = (es::param(0), es::param(1));
    let m = metric(which, 0);
    let mut t = TrueRelStoreBuilder::new();
    let mut tq: Vec<(u16, u32, u32)> = vec![];
    for _ in 0..nt {
        let q = es::u16();
        es::assume(!tq.iter().any(|x| x.0 == q));
        let (a, b) = (judgement(which), judgement(which));
        t.add_record(q, 1u16, a).unwrap();
        t.add_record(q, 2u16, b).unwrap();
        tq.push((q, a, b));
    }
    let mut p = PredRelStoreBuilder::new();
    let mut pq: Vec<(u16, bool)> = vec![];
    for _ in 0..np {
        let q = es::u16();
        es::assume(!pq.iter().any(|x| x.0 == q));
        let first = es::bool();
        p.add_record(q, 1u16, if first { 3.0 } else { 1.0 }.into()).unwrap();
        p.add_record(q, 9u16, 2.0.into()).unwrap();
        pq.push((q, first));
    }
    let (t, p) = (t.build(), p.build());
    let missing = pq.iter().any(|x| !tq.iter().any(|y| y.0 == x.0));
    match evaluate(&t, &p, m) {
        Err(e) => {
            es::check(missing, "fails only for a query without judgements");
            es::check(matches!(e, ElinorError::MissingEntry(_)), "MissingEntry");
            es::cover("missing");
        }
        Ok(r) => {
            es::check(!missing, "a query without judgements is reported");
            es::cover("evaluated");
            es::check(r.metric() == m, "requested metric");
            es::check(r.scores().len() == pq.len(), "one score per predicted query");
            for (q, first) in &pq {
                let (_, a, b) = *tq.iter().find(|x| x.0 == *q).unwrap();
                // the query alone
                let mut t1 = TrueRelStoreBuilder::new();
                t1.add_record(0u16, 1u16, a).unwrap();
                t1.add_record(0u16, 2u16, b).unwrap();
                let mut p1 = PredRelStoreBuilder::new();
                p1.add_record(0u16, 1u16, if *first { 3.0 } else { 1.0 }.into()).unwrap();
                p1.add_record(0u16, 9u16, 2.0.into()).unwrap();
                let alone = evaluate(&t1.build(), &p1.build(), m).unwrap();
                match r.scores().get(q) {
                    None => es::check(false, "predicted query has a score"),
                    Some(s) => es::close(*s, alone.scores()[&0u16], "score from the query alone"),
                }
            }
        }
    }
}

/// C04: which metric is computed. Every metric on one query, against the same
/// query among others.
#[no_mangle]
pub extern "C" fn h_dispatch() {
    let which = es::case();
    let k = any_k();
    let m = metric(which, k);
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    let rels: Vec<u32> = (0..3).map(|_| judgement(which)).collect();
    for (i, r) in rels.iter().enumerate() {
        t.add_record(1u16, ranked_id(i), *r).unwrap();
        p.add_record(1u16, ranked_id(i), (9.0 - i as f64).into()).unwrap();
    }
    let alone = evaluate(&t_clone(&rels), &p_clone(&rels), m).unwrap();
    t.add_record(0u16, 1u16, 1).unwrap();
    t.add_record(2u16, 1u16, 0).unwrap();
    p.add_record(2u16, 1u16, 5.0.into()).unwrap();
    p.add_record(2u16, 3u16, 6.0.into()).unwrap();
    let r = evaluate(&t.build(), &p.build(), m).unwrap();
    es::check(r.metric() == m && alone.metric() == m, "requested metric");
    es::check(r.scores().len() == 2 && !r.scores().contains_key(&0u16), "only predicted queries");
    es::close(r.scores()[&1u16], alone.scores()[&1u16], "unaffected by other queries");
}
fn t_clone(rels: &[u32]) -> TrueRelStore<u16> {
    let mut t = TrueRelStoreBuilder::new();
    for (i, r) in rels.iter().enumerate() {
        t.add_record(1u16, ranked_id(i), *r).unwrap();
    }
    t.build()
}
fn p_clone(rels: &[u32]) -> PredRelStore<u16> {
    let mut p = PredRelStoreBuilder::new();
    for i in 0..rels.len() {
        p.add_record(1u16, ranked_id(i), (9.0 - i as f64).into()).unwrap();
    }
    p.build()
}

/// C05. p0 queries; one-document DCG makes every score an arbitrary integer.
#[no_mangle]
pub extern "C" fn h_aggregates() {
    let n = es::param(0) as usize;
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    let mut s: Vec<f64> = vec![];
    for i in 0..n {
        let r = es::int(0, u32::MAX);
        t.add_record(i as u16, 1u16, r).unwrap();
        p.add_record(i as u16, 1u16, 1.0.into()).unwrap();
        s.push(r as f64);
    }
    // a judged query without predictions
    t.add_record(200u16, 1u16, 77).unwrap();
    let e = evaluate(&t.build(), &p.build(), Metric::DCG { k: 0 }).unwrap();
    let nf = n as f64;
    let mut sum = 0.0;
    for x in &s {
        sum += *x;
    }
    es::close_rel(e.mean() * nf, sum, "mean");
    // n^2 variance = sum over pairs of squared differences
    let mut sq = 0.0;
    for i in 0..n {
        for j in i + 1..n {
            sq += (s[i] - s[j]) * (s[i] - s[j]);
        }
    }
    es::close_rel(e.variance(), sq / (nf * nf), "population variance");
    let sd = e.std_dev();
    es::check(sd >= 0.0, "standard deviation is not negative");
    es::close_rel(sd * sd, e.variance(), "standard deviation squared is the variance");
    es::observe_f(e.mean());
}

/// C05 over many queries: p0 of them, the score of one (p1) any integer.
#[no_mangle]
pub extern "C" fn h_aggregates_many() {
    let n = es::param(0) as usize;
    let at = es::param(1) as usize;
    let x = es::int(0, u32::MAX);
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    let fixed = |i: usize| (i * i % 11 + i % 3) as u32;
    let (mut sum, mut squares) = (0u64, 0u64);
    for i in 0..n {
        let r = if i == at { x } else { fixed(i) };
        t.add_record(i as u16, 1u16, r).unwrap();
        p.add_record(i as u16, 1u16, 1.0.into()).unwrap();
        if i != at {
            sum += fixed(i) as u64;
            squares += (fixed(i) * fixed(i)) as u64;
        }
    }
    let e = evaluate(&t.build(), &p.build(), Metric::DCG { k: 0 }).unwrap();
    let (nf, x) = (n as f64, x as f64);
    let sum = sum as f64 + x;
    es::check(e.scores().len() == n, "one score per query");
    es::close_rel(e.mean() * nf, sum, "mean");
    es::close_rel(e.variance() * nf * nf, nf * (squares as f64 + x * x) - sum * sum, "population variance");
    let sd = e.std_dev();
    es::check(sd >= 0.0, "standard deviation is not negative");
    es::close_rel(sd * sd, e.variance(), "standard deviation squared is the variance");
}

/// C05 on actual metric values. case = metric, p0 queries with two documents each.
#[no_mangle]
pub extern "C" fn h_aggregates_metric() {
    let which = es::case();
    let n = es::param(0) as usize;
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    for i in 0..n {
        for d in 0..2u16 {
            t.add_record(i as u16, d, judgement(which)).unwrap();
            p.add_record(i as u16, d, (2.0 - d as f64).into()).unwrap();
        }
    }
    let e = evaluate(&t.build(), &p.build(), metric(which, 0)).unwrap();
    let nf = n as f64;
    let mut sum = 0.0;
    for x in e.scores().values() {
        sum += *x;
    }
    let mean = sum / nf;
    let mut v = 0.0;
    for x in e.scores().values() {
        v += (*x - mean) * (*x - mean);
    }
    es::close(e.mean(), mean, "mean");
    es::close(e.variance(), v / nf, "population variance");
    es::close(e.std_dev(), (v / nf).sqrt(), "standard deviation");
    es::check(e.variance() >= 0.0, "variance is not negative");
}

/// C05 with the rounding of the doubles: p0 queries whose reciprocal ranks are any of 1, 1/2, .. 1/p1, 0.
#[no_mangle]
pub extern "C" fn h_variance() {
    let n = es::param(0) as usize;
    let m = es::param(1) as u16;
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    let mut at = vec![];
    for i in 0..n {
        let r = es::conc(es::range(0, m as u64)) as u16;
        for d in 0..m {
            t.add_record(i as u16, d, (d == r) as u32).unwrap();
            p.add_record(i as u16, d, (9.0 - d as f64).into()).unwrap();
        }
        at.push(r);
    }
    let e = evaluate(&t.build(), &p.build(), Metric::RR { k: 0 }).unwrap();
    let mut sum = 0.0;
    let mut equal = true;
    for r in &at {
        sum += if *r == m { 0.0 } else { 1.0 / (*r as f64 + 1.0) };
        equal = equal && *r == at[0];
    }
    let mean = sum / n as f64;
    let mut v = 0.0;
    for r in &at {
        let x = if *r == m { 0.0 } else { 1.0 / (*r as f64 + 1.0) };
        v += (x - mean) * (x - mean);
    }
    v /= n as f64;
    es::close_tol(e.mean(), mean, 1e-12, "mean");
    es::close_tol(e.variance(), v, 1e-12, "population variance");
    es::check(e.variance() >= 0.0, "variance is not negative");
    es::check(e.std_dev() >= 0.0, "standard deviation is a number");
    if equal {
        es::check(e.variance() < 1e-12, "no variance when all scores agree");
        es::cover("all scores agree");
    } else {
        es::check(e.variance() > 1e-12, "variance when scores differ");
        es::cover("scores differ");
    }
}

/// C12: p0 documents with any distinct-or-equal scores, and a second score
/// vector ordered in the same way, added in another order; p1 = k (0..).
#[no_mangle]
pub extern "C" fn h_monotone() {
    let which = es::case();
    let n = es::param(0) as usize;
    let k = es::param(1) as usize;
    let m = metric(which, k);
    let mut t = TrueRelStoreBuilder::new();
    let mut t2 = TrueRelStoreBuilder::new();
    let mut rels = vec![];
    for i in 0..n {
        let r = judgement(which);
        t.add_record(1u16, i as u16, r).unwrap();
        rels.push(r);
    }
    for i in (0..n).rev() {
        // binary metrics see only whether the judgement is at least 1
        let r2 = if which < 9 { judgement(which) } else { rels[i] };
        es::assume((r2 >= 1) == (rels[i] >= 1));
        t2.add_record(1u16, i as u16, r2).unwrap();
    }
    let xs: Vec<f64> = (0..n).map(|_| es::f64_bits()).collect();
    let ys: Vec<f64> = (0..n).map(|_| es::f64_bits()).collect();
    for i in 0..n {
        es::assume(xs[i] == xs[i] && ys[i] == ys[i]);
        for j in 0..i {
            es::assume((xs[i] < xs[j]) == (ys[i] < ys[j]));
            es::assume((xs[i] > xs[j]) == (ys[i] > ys[j]));
        }
    }
    let mut p = PredRelStoreBuilder::new();
    let mut p2 = PredRelStoreBuilder::new();
    for i in 0..n {
        p.add_record(1u16, i as u16, xs[i].into()).unwrap();
    }
    for i in (0..n).rev() {
        p2.add_record(1u16, i as u16, ys[i].into()).unwrap();
    }
    let a = evaluate(&t.build(), &p.build(), m).unwrap();
    let b = evaluate(&t2.build(), &p2.build(), m).unwrap();
    es::close(a.scores()[&1u16], b.scores()[&1u16], "same ranking and judgements, same score");
}

/// C12: p0 ranked documents. case = metric + 16 * transformation:
/// 0: documents below the cutoff replaced (cutoff metrics, 1 <= k <= p0)
/// 1: unjudged documents judged 0 (all but bpref)
/// 2: judged documents that are not retrieved and not relevant dropped (all but bpref)
/// 3: unjudged documents inserted at the end (whole ranking, all but precision and f1)
#[no_mangle]
pub extern "C" fn h_irrelevant() {
    let which = es::case() & 15;
    let tr = es::case() >> 4;
    let n = es::param(0) as usize;
    let k = if tr == 0 { es::range(1, n as u64) as usize } else { any_k_small(n) };
    let m = metric(which, k);
    let mut t = TrueRelStoreBuilder::new();
    let mut t2 = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    let mut p2 = PredRelStoreBuilder::new();
    let r0 = judgement(which);
    t.add_record(1u16, extra_id(0), r0).unwrap();
    t2.add_record(1u16, extra_id(0), r0).unwrap();
    if tr == 2 {
        t.add_record(1u16, extra_id(1), 0).unwrap();
        t.add_record(1u16, extra_id(2), 0).unwrap();
    }
    for i in 0..n {
        let judged = es::bool();
        let id = ranked_id(i);
        if judged {
            let r = judgement(which);
            t.add_record(1u16, id, r).unwrap();
            t2.add_record(1u16, id, r).unwrap();
        } else if tr == 1 {
            t2.add_record(1u16, id, 0).unwrap();
        }
        p.add_record(1u16, id, (50.0 - i as f64).into()).unwrap();
        if tr == 0 {
            if i < k {
                p2.add_record(1u16, id, (50.0 - i as f64).into()).unwrap();
            } else if es::bool() {
                // moved further down, in reverse order
                p2.add_record(1u16, id, (i as f64).into()).unwrap();
            }
        } else {
            p2.add_record(1u16, id, (50.0 - i as f64).into()).unwrap();
        }
    }
    if tr == 3 {
        p2.add_record(1u16, extra_id(5), (-1.0).into()).unwrap();
    }
    let a = evaluate(&t.build(), &p.build(), m).unwrap();
    let b = evaluate(&t2.build(), &p2.build(), m).unwrap();
    es::close(a.scores()[&1u16], b.scores()[&1u16], "what must not matter does not matter");
}
fn any_k_small(n: usize) -> usize {
    es::range(0, n as u64 + 1) as usize
}

/// C04 over many queries: p0 judged and predicted ones, plus one judged and one
/// predicted query of any id. case 0: DCG of one document (any integer);
/// case 1: hits.
#[no_mangle]
pub extern "C" fn h_queries_many() {
    let case = es::case();
    let n = es::param(0) as usize;
    let free_at = es::param(1) as usize;
    let m = if case == 0 { Metric::DCG { k: 0 } } else { Metric::Hits { k: 0 } };
    let id = |i: usize| ((i * 7) % 1009) as u16 * 2;
    let value = |r: u32| if case == 0 || r == 0 { r as f64 } else { 1.0 };
    let judged = es::u16();
    let predicted = es::u16();
    let (jr, fr) = (es::u32(), es::u32());
    es::assume(!(0..n).any(|i| id(i) == judged));
    es::assume(!(0..n).any(|i| id(i) == predicted));
    let rel = |i: usize| if i == free_at { fr } else { (i % 5) as u32 };
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    for i in 0..n {
        t.add_record(id(i), 1u16, rel(i)).unwrap();
        t.add_record(id(i), 2u16, 9).unwrap();
        p.add_record(id(i), 1u16, (i as f64 - 3.0).into()).unwrap();
    }
    t.add_record(judged, 1u16, jr).unwrap();
    p.add_record(predicted, 1u16, 0.5.into()).unwrap();
    let (t, p) = (t.build(), p.build());
    match evaluate(&t, &p, m) {
        Err(e) => {
            es::check(judged != predicted, "fails only for a query without judgements");
            es::check(matches!(e, ElinorError::MissingEntry(_)), "MissingEntry");
            es::cover("missing");
        }
        Ok(r) => {
            es::check(judged == predicted, "a query without judgements is reported");
            es::cover("evaluated");
            es::check(r.scores().len() == n + 1, "one score per predicted query");
            for i in 0..n {
                match r.scores().get(&id(i)) {
                    None => es::check(false, "predicted query has a score"),
                    Some(s) => es::close(*s, value(rel(i)), "score from the query alone"),
                }
            }
            match r.scores().get(&predicted) {
                None => es::check(false, "predicted query has a score"),
                Some(s) => es::close(*s, value(jr), "score from the query alone"),
            }
        }
    }
}
