//! Sizes beyond 16 bits: 70000 documents, records, queries or keys of which one is free.
use crate::es;
use crate::metrics::score_of;
use elinor::statistical_tests::{pairs_from_maps, tuples_from_maps};
use elinor::*;
use std::collections::BTreeMap;

/// The judgement at rank i. p1 = 0: mostly relevant ones, 1: none is before rank 66000, 2: few.
fn judged(i: usize) -> Option<u32> {
    if es::param(1) == 2 {
        match i {
            10 | 65534 | 65535 | 65536 | 69999 => Some(1),
            _ if i % 2 == 0 => Some(0),
            _ => None,
        }
    } else if es::param(1) == 0 {
        match i % 32 {
            15 => None,
            31 => Some(0),
            r => Some(1 + (r % 3 == 0) as u32),
        }
    } else {
        Some(if i >= 66000 && i % 2 == 0 { 1 + (i % 3 == 0) as u32 } else { 0 })
    }
}

/// case: metric 0..12 (average precision with p1 = 2 only: it is quadratic); p0 documents, p1 pattern,
/// p2 the rank of the free one.
#[no_mangle]
pub extern "C" fn h_huge_metric() {
    let (which, n, at) = (es::case(), es::param(0) as usize, es::param(2) as usize);
    let free = match es::conc(es::range(0, 2)) {
        0 => None,
        1 => Some(0),
        _ => Some(2),
    };
    let k = if which == 5 || which == 8 { 0 } else { [0, 65537, n + 1][es::conc(es::range(0, 2)) as usize] };
    let rel = |i: usize| if i == at { free } else { judged(i) };
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    for i in 0..n {
        // ids descend with the rank
        let id = (n - i) as u32;
        if let Some(r) = rel(i) {
            t.add_record(7u32, id, r).unwrap();
        }
        p.add_record(7u32, id, (-(i as f64)).into()).unwrap();
    }
    let d = if k == 0 || k > n { n } else { k };
    let div = if k == 0 { n } else { k } as f64;
    let (mut hits, mut first, mut rels, mut above, mut non) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut count = [0u64; 3];
    for i in 0..n {
        if let Some(r) = rel(i) {
            count[r as usize] += 1;
            if r == 0 {
                non += 1;
                continue;
            }
            rels += 1;
            if i < d {
                hits += 1;
                if first == 0 {
                    first = i as u64 + 1;
                }
            }
        }
    }
    let gain = |r: u32| if which >= 11 { [0.0, 1.0, 3.0][r as usize] } else { r as f64 };
    let log = |i: usize| ((i + 2) as f64).log2();
    let dcg = || {
        let mut s = 0.0;
        for i in 0..d {
            if let Some(r) = rel(i) {
                s += gain(r) / log(i);
            }
        }
        s
    };
    let ideal = || {
        let all = (rels + non) as usize;
        let d = if k == 0 || k > all { all } else { k };
        let mut s = 0.0;
        for i in 0..d {
            let r = if (i as u64) < count[2] {
                2
            } else if (i as u64) < rels {
                1
            } else {
                0
            };
            s += gain(r) / log(i);
        }
        s
    };
    let (m, want) = match which {
        0 => (Metric::Hits { k }, hits as f64),
        1 => (Metric::Success { k }, (hits > 0) as u64 as f64),
        2 => (Metric::Precision { k }, hits as f64 / div),
        3 => (Metric::Recall { k }, hits as f64 / rels as f64),
        4 => (Metric::F1 { k }, 2.0 * hits as f64 / (div + rels as f64)),
        5 => {
            let mut h = 0u64;
            for i in 0..rels as usize {
                if rel(i).map_or(false, |r| r > 0) {
                    h += 1;
                }
            }
            (Metric::RPrecision, h as f64 / rels as f64)
        }
        6 => {
            let (mut h, mut s) = (0u64, 0.0);
            for i in 0..d {
                if rel(i).map_or(false, |r| r > 0) {
                    h += 1;
                    s += h as f64 / (i + 1) as f64;
                }
            }
            (Metric::AP { k }, s / rels as f64)
        }
        7 => (Metric::RR { k }, if first == 0 { 0.0 } else { 1.0 / first as f64 }),
        8 => {
            let mut s = 0.0;
            let lim = non.min(rels) as f64;
            for i in 0..n {
                match rel(i) {
                    None => (),
                    Some(0) => above += 1,
                    Some(_) => s += if above == 0 { 1.0 } else { 1.0 - above.min(rels) as f64 / lim },
                }
            }
            (Metric::Bpref, s / rels as f64)
        }
        9 => (Metric::DCG { k }, dcg()),
        10 => (Metric::NDCG { k }, dcg() / ideal()),
        11 => (Metric::DCGBurges { k }, dcg()),
        _ => (Metric::NDCGBurges { k }, dcg() / ideal()),
    };
    let got = score_of(&t.build(), &p.build(), m, &7u32);
    es::observe_f(got);
    if which != 0 && which != 9 && which != 11 {
        es::check((got >= 0.0) & (got <= 1.0 || k == 0 && which > 9), "within [0,1]");
    }
    es::close_rel(got, want, "value");
    es::cover("compared");
}

/// p0 records over two queries, then one of an id among, around and beyond theirs.
#[no_mangle]
pub extern "C" fn h_huge_store() {
    let n = es::param(0) as u32;
    let mut b = TrueRelStoreBuilder::new();
    let id = |i: u32| (i as u64 * 7919 % n as u64) as u32 + 1;
    for i in 0..n {
        es::check(b.add_record(i % 2, id(i), i % 7).is_ok(), "a new pair is accepted");
    }
    let (q, d) = (es::conc(es::range(0, 1)) as u32, [id(0), id(1), id(65536), id(65537), 0, n + 1][es::conc(es::range(0, 5)) as usize]);
    let s = [0u32, 3, 9, u32::MAX][es::conc(es::range(0, 3)) as usize];
    let there = d > 0 && d <= n && [id(0), id(65536)].contains(&d) == (q == 0);
    let r = b.add_record(q, d, s);
    es::check(r.is_err() == there, "rejected exactly when the pair is repeated");
    let all = n as usize + !there as usize;
    let st = b.build();
    es::check(st.n_docs() == all, "the number of documents");
    es::check(st.n_queries() == 2, "the number of queries");
    let half = |q: u32| (0..n).filter(|i| i % 2 == q).count();
    for k in 0..2 {
        let len = half(k) + (!there && k == q) as usize;
        es::check(st.get_map(&k).map(|m| m.len()) == Some(len), "the size of a map");
        es::check(st.get_sorted(&k).map(|m| m.len()) == Some(len), "the size of a ranking");
    }
    if !there {
        es::check(st.get_score(&q, &d) == Some(&s), "the added score");
        es::check(st.get_score(&(1 - q), &d).is_some() == (d > 0 && d <= n), "another query's score");
        es::cover("added");
    } else {
        es::cover("repeated");
    }
    for i in [0, 1, 254, 255, 256, 65534, 65535, 65536, 65537, n - 1] {
        es::check(st.get_score(&(i % 2), &id(i)) == Some(&(i % 7)), "the score of a record");
    }
    let v = st.into_records();
    es::check(v.len() == all, "every record is listed");
    for w in v.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        es::check(
            (a.query_id < b.query_id) | ((a.query_id == b.query_id) & ((a.score > b.score) | ((a.score == b.score) & (a.doc_id < b.doc_id)))),
            "by query, score and document",
        );
    }
}

/// p0 judged and predicted queries; one of them may lack judgements, another has any score.
#[no_mangle]
pub extern "C" fn h_huge_queries() {
    let (n, at) = (es::param(0) as u32, es::param(1) as u32);
    let lacks = es::bool();
    let (free, s) = ((at + n / 2) % n, es::int(0, 1000));
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    let mut sum = 0.0;
    for q in 0..n {
        let r = if q == free { s } else { q % 4 };
        if q != at || !lacks {
            t.add_record(q, 1u32, r).unwrap();
        }
        p.add_record(q, 1u32, 1.0.into()).unwrap();
        if q != free {
            sum += r as f64;
        }
    }
    match evaluate(&t.build(), &p.build(), Metric::DCG { k: 0 }) {
        Err(e) => {
            es::check(lacks, "fails only for a query without judgements");
            es::check(matches!(e, ElinorError::MissingEntry(_)), "MissingEntry");
            es::cover("missing");
        }
        Ok(e) => {
            es::check(!lacks, "a query without judgements is reported");
            es::check(e.scores().len() == n as usize, "one score per predicted query");
            es::check(e.scores()[&free] == s as f64, "the score of the query");
            let mean = (sum + s as f64) / n as f64;
            es::close_rel(e.mean(), mean, "the mean");
            if es::param(2) == 1 {
                let mut v = 0.0;
                for q in 0..n {
                    if q != free {
                        v += ((q % 4) as f64 - mean) * ((q % 4) as f64 - mean);
                    }
                }
                es::close_rel(e.variance(), (v + (s as f64 - mean) * (s as f64 - mean)) / n as f64, "the variance");
            }
            es::cover("evaluated");
        }
    }
}

/// Maps of p0 keys, of which one may be another one in the second map.
#[no_mangle]
pub extern "C" fn h_huge_maps() {
    let (n, at) = (es::param(0) as u32, es::param(1) as u32);
    let other = es::bool();
    let x = es::real(-1000.0, 1000.0);
    let mut a = BTreeMap::new();
    let mut b = BTreeMap::new();
    for i in 0..n {
        a.insert(i * 2, i as f64);
        b.insert(if i == at && other { i * 2 + 1 } else { i * 2 }, if i == at { x } else { -(i as f64) });
    }
    let pairs = pairs_from_maps(&a, &b);
    let tuples = tuples_from_maps([&b, &a, &b]);
    if other {
        es::check(matches!(pairs, Err(ElinorError::InvalidArgument(_))), "other keys are an InvalidArgument");
        es::check(matches!(tuples, Err(ElinorError::InvalidArgument(_))), "other keys are an InvalidArgument");
        es::cover("refused");
        return;
    }
    let (Ok(pairs), Ok(tuples)) = (pairs, tuples) else {
        es::check(false, "equal keys are accepted");
        return;
    };
    es::check(pairs.len() == n as usize && tuples.len() == n as usize, "one tuple per key");
    for i in 0..n as usize {
        let v = if i == at as usize { x } else { -(i as f64) };
        es::check(pairs[i].0 == i as f64 && pairs[i].1 == v, "the pair of the key");
        es::check(tuples[i].len() == 3 && tuples[i][0] == v && tuples[i][1] == i as f64 && tuples[i][2] == v, "the tuple of the key");
    }
    es::cover("aligned");
}
