//! The relevance store (C01, C02, C03).
use crate::es;
use elinor::relevance::{Record, RelevanceStore, RelevanceStoreBuilder};
use elinor::*;

/// A score domain with its own notion of order.
trait Score: Ord + Clone {
    fn any() -> Self;
    fn bits(&self) -> u64;
    /// self ranks strictly before other
    fn before(&self, o: &Self) -> bool;
}
impl Score for u32 {
    fn any() -> u32 {
        es::u32()
    }
    fn bits(&self) -> u64 {
        *self as u64
    }
    fn before(&self, o: &u32) -> bool {
        *self > *o
    }
}
impl Score for PredScore {
    fn any() -> PredScore {
        es::f64_bits().into()
    }
    fn bits(&self) -> u64 {
        self.0.to_bits()
    }
    fn before(&self, o: &PredScore) -> bool {
        let (a, b) = (self.0, o.0);
        if a != a {
            b == b
        } else {
            a > b
        }
    }
}

/// The records added so far that were accepted.
struct Model<T> {
    recs: Vec<(u16, u16, T)>,
}
impl<T: Score> Model<T> {
    fn find(&self, q: u16, d: u16) -> Option<usize> {
        self.recs.iter().position(|r| r.0 == q && r.1 == d)
    }
    fn queries(&self) -> Vec<u16> {
        let mut v: Vec<u16> = vec![];
        for r in &self.recs {
            if !v.contains(&r.0) {
                v.push(r.0);
            }
        }
        v
    }
    fn docs(&self, q: u16) -> usize {
        self.recs.iter().filter(|r| r.0 == q).count()
    }
}

/// p0 records; p1 = number of query ids (0: any byte), p2 = number of document ids (0: any byte)
fn add_all<T: Score>() -> (RelevanceStoreBuilder<u16, T>, Model<T>, bool) {
    let n = es::param(0);
    let (nq, nd) = (es::param(1), es::param(2));
    let mut b = RelevanceStoreBuilder::new();
    let mut m = Model { recs: vec![] };
    let mut dup = false;
    for _ in 0..n {
        let q = if nq == 0 { es::u16() } else { es::range(0, nq - 1) as u16 };
        let d = if nd == 0 { es::u16() } else { es::range(0, nd - 1) as u16 };
        let s = T::any();
        let r = b.add_record(q, d, s.clone());
        if m.find(q, d).is_some() {
            dup = true;
            es::check(matches!(r, Err(ElinorError::DuplicateEntry(_))), "a repeated pair is a DuplicateEntry");
            es::cover("duplicate");
        } else {
            es::check(r.is_ok(), "a new pair is accepted");
            m.recs.push((q, d, s));
        }
    }
    (b, m, dup)
}

fn agree<T: Score>(s: &RelevanceStore<u16, T>, m: &Model<T>) {
    es::check(s.n_docs() == m.recs.len(), "document count");
    let qs = m.queries();
    es::check(s.n_queries() == qs.len(), "query count");
    es::check(s.query_ids().count() == qs.len(), "query ids");
    for q in s.query_ids() {
        es::check(qs.contains(q), "listed query was added");
    }
    for (q, d, sc) in &m.recs {
        match s.get_score(q, d) {
            None => es::check(false, "added pair has a score"),
            Some(x) => es::check(x.bits() == sc.bits(), "score as added"),
        }
        match s.get_map(q) {
            None => es::check(false, "added query has a map"),
            Some(mp) => {
                es::check(mp.len() == m.docs(*q), "map size");
                match mp.get(d) {
                    None => es::check(false, "map has the document"),
                    Some(x) => es::check(x.bits() == sc.bits(), "map score"),
                }
            }
        }
        match s.get_sorted(q) {
            None => es::check(false, "added query has a ranking"),
            Some(l) => {
                es::check(l.len() == m.docs(*q), "ranking size");
                es::check(l.iter().any(|r| r.doc_id == *d && r.score.bits() == sc.bits()), "document is ranked");
            }
        }
    }
    let recs = s.records();
    es::check(recs.len() == m.recs.len(), "listing size");
    for (q, d, sc) in &m.recs {
        es::check(
            recs.iter().any(|r| r.query_id == *q && r.doc_id == *d && r.score.bits() == sc.bits()),
            "record is listed",
        );
    }
}

fn store_content<T: Score>() {
    let (b, m, _) = add_all::<T>();
    let s = b.build();
    agree(&s, &m);
    // an arbitrary pair that was not added
    let (q, d) = (es::u16(), es::u16());
    if m.find(q, d).is_none() {
        es::check(s.get_score(&q, &d).is_none(), "absent pair has no score");
        match s.get_map(&q) {
            Some(mp) => {
                es::check(m.docs(q) > 0, "map of an absent query");
                es::check(!mp.contains_key(&d), "absent document in the map");
            }
            None => {
                es::check(m.docs(q) == 0, "query lost");
                es::check(s.get_sorted(&q).is_none(), "ranking of an absent query");
            }
        }
    }
    // listings: borrowing and consuming agree, and rebuild the same store
    let recs = s.records();
    let own = s.into_records();
    es::check(own.len() == recs.len(), "listings have the same size");
    for (a, b) in recs.iter().zip(own.iter()) {
        es::check(
            a.query_id == b.query_id && a.doc_id == b.doc_id && a.score.bits() == b.score.bits(),
            "listings agree",
        );
    }
    match RelevanceStore::from_records(own) {
        Err(_) => es::check(false, "records of a store have distinct pairs"),
        Ok(s2) => agree(&s2, &m),
    }
}

/// C01. case 0: judgements, 1: prediction scores
#[no_mangle]
pub extern "C" fn h_store() {
    if es::case() == 0 {
        store_content::<u32>()
    } else {
        store_content::<PredScore>()
    }
}

fn ranking<T: Score>() {
    let (b, m, _) = add_all::<T>();
    let s = b.build();
    for q in m.queries() {
        check_ranking(s.get_sorted(&q).unwrap(), &m, q);
    }
}

fn check_ranking<T: Score>(l: &[Relevance<u16, T>], m: &Model<T>, q: u16) {
    es::check(l.len() == m.docs(q), "every document is ranked once");
    for i in 0..l.len() {
        let at = m.find(q, l[i].doc_id);
        match at {
            None => es::check(false, "ranked document was added"),
            Some(k) => es::check(m.recs[k].2.bits() == l[i].score.bits(), "ranked score"),
        }
        if i + 1 < l.len() {
            let (a, b) = (&l[i], &l[i + 1]);
            let ok = a.score.before(&b.score) || (!b.score.before(&a.score) && a.doc_id < b.doc_id);
            es::check(ok, "score descending, then document id ascending");
            if !a.score.before(&b.score) {
                es::cover("tie");
            }
        }
    }
}

/// C02. case 0: judgements, 1: prediction scores
#[no_mangle]
pub extern "C" fn h_ranking() {
    if es::case() == 0 {
        ranking::<u32>()
    } else {
        ranking::<PredScore>()
    }
}

/// C02 beyond the small-sort threshold: p0 documents, p1 of them with any score.
#[no_mangle]
pub extern "C" fn h_ranking_long() {
    let n = es::param(0) as usize;
    let free = es::param(1) as usize;
    if es::case() == 0 {
        long::<u32>(n, free, |i| ((i * 13) % 7) as u32)
    } else {
        long::<PredScore>(n, free, |i| (((i * 13) % 7) as f64 - 3.0).into())
    }
}
fn long<T: Score>(n: usize, free: usize, f: fn(usize) -> T) {
    let mut b = RelevanceStoreBuilder::new();
    let mut m = Model { recs: vec![] };
    let step = n / free.max(1);
    let modulus = if n < 1009 { 1009 } else { 10007 };
    for i in 0..n {
        let d = ((i * 89 + 3) % modulus) as u16;
        let s = if i % step == step / 2 && i / step < free { T::any() } else { f(i) };
        es::check(b.add_record(1u16, d, s.clone()).is_ok(), "a new pair is accepted");
        m.recs.push((1u16, d, s));
    }
    let s = b.build();
    check_ranking(s.get_sorted(&1u16).unwrap(), &m, 1);
}

/// C03: building from an iterator fails exactly when two records share a pair.
#[no_mangle]
pub extern "C" fn h_from_records() {
    let n = es::param(0);
    let (nq, nd) = (es::param(1), es::param(2));
    let mut recs = vec![];
    for _ in 0..n {
        let q = if nq == 0 { es::u16() } else { es::range(0, nq - 1) as u16 };
        let d = if nd == 0 { es::u16() } else { es::range(0, nd - 1) as u16 };
        recs.push(Record { query_id: q, doc_id: d, score: es::u32() });
    }
    let mut dup = false;
    for i in 0..recs.len() {
        for j in 0..i {
            if recs[i].query_id == recs[j].query_id && recs[i].doc_id == recs[j].doc_id {
                dup = true;
            }
        }
    }
    let m = Model { recs: recs.iter().map(|r| (r.query_id, r.doc_id, r.score)).collect() };
    match RelevanceStore::from_records(recs) {
        Ok(s) => {
            es::check(!dup, "records with a repeated pair are rejected");
            agree(&s, &m);
            es::cover("accepted");
        }
        Err(e) => {
            es::check(dup, "distinct pairs are accepted");
            es::check(matches!(e, ElinorError::DuplicateEntry(_)), "DuplicateEntry");
            es::cover("duplicate");
        }
    }
}

/// C03: a rejected record leaves the earlier ones as they were.
#[no_mangle]
pub extern "C" fn h_duplicates() {
    let (b, m, _) = if es::case() == 0 {
        add_all::<u32>()
    } else {
        let (b, m, _) = add_all::<PredScore>();
        agree(&b.build(), &m);
        return;
    };
    agree(&b.build(), &m);
}

/// Long histories: p0 fixed records over five queries, then p1 with any ids; p2 = 1: and any pair looked up.
#[no_mangle]
pub extern "C" fn h_store_long() {
    if es::case() == 0 {
        store_long::<u32>(|i| ((i * 13) % 7) as u32)
    } else {
        store_long::<PredScore>(|i| (((i * 13) % 7) as f64 - 3.0).into())
    }
}
fn store_long<T: Score>(f: fn(usize) -> T) {
    let (n, free) = (es::param(0) as usize, es::param(1) as usize);
    let mut b = RelevanceStoreBuilder::new();
    let mut m = Model { recs: vec![] };
    for i in 0..n + free {
        let (q, d, s) = if i < n {
            (((i * 7 + 3) % 5) as u16, ((i * 89 + 3) % 10007) as u16, f(i))
        } else {
            (es::u16(), es::u16(), T::any())
        };
        let r = b.add_record(q, d, s.clone());
        if m.find(q, d).is_some() {
            es::check(matches!(r, Err(ElinorError::DuplicateEntry(_))), "a repeated pair is a DuplicateEntry");
            es::cover("duplicate");
        } else {
            es::check(r.is_ok(), "a new pair is accepted");
            m.recs.push((q, d, s));
        }
    }
    let s = b.build();
    agree(&s, &m);
    for q in m.queries() {
        check_ranking(s.get_sorted(&q).unwrap(), &m, q);
    }
    if es::param(2) == 0 {
        return;
    }
    let (q, d) = (es::u16(), es::u16());
    es::check(s.get_score(&q, &d).is_some() == m.find(q, d).is_some(), "present exactly when added");
}

fn any_string(max: u64) -> String {
    let n = es::range(0, max);
    let mut s = String::new();
    for i in 0..max {
        if i < n {
            s.push(es::range(0, 127) as u8 as char);
        }
    }
    s
}

/// C01/C03 with string identifiers of at most p0 ASCII characters, looked up by &str.
#[no_mangle]
pub extern "C" fn h_store_str() {
    let n = es::param(0);
    let (q1, d1, q2, d2) = (any_string(n), any_string(n), any_string(n), any_string(n));
    let mut b = TrueRelStoreBuilder::new();
    es::check(b.add_record(q1.clone(), d1.clone(), 1).is_ok(), "a new pair is accepted");
    let same = q1 == q2 && d1 == d2;
    let r = b.add_record(q2.clone(), d2.clone(), 2);
    es::check(r.is_err() == same, "rejected exactly when the pair is repeated");
    let s = b.build();
    es::check(s.get_score(q1.as_str(), d1.as_str()) == Some(&1), "first record");
    es::check(s.get_score(q2.as_str(), d2.as_str()) == Some(if same { &1 } else { &2 }), "second record");
    es::check(s.n_docs() == if same { 1 } else { 2 }, "document count");
}
