//! Records in JSON (C25).
use crate::es;
use elinor::relevance::Record;
use elinor::*;
use serde_json::{Map, Number, Value};

fn text(n: u64) -> String {
    let mut b = vec![];
    for _ in 0..n {
        b.push(es::u8());
    }
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            es::assume(false);
            String::new()
        }
    }
}
fn str_of<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    match v {
        Value::Object(m) => match m.get(k) {
            Some(Value::String(s)) => Some(s),
            _ => None,
        },
        _ => None,
    }
}

/// JSON values: p0-, p1-byte identifiers; case 0: any judgement, 1: any finite prediction score
#[no_mangle]
pub extern "C" fn h_json_value() {
    let (q, d) = (text(es::param(0)), text(es::param(1)));
    if es::case() == 0 {
        let score = es::u32();
        let r = Record { query_id: q.clone(), doc_id: d.clone(), score };
        let v = serde_json::to_value(&r).unwrap();
        es::check(v.as_object().map(|m| m.len()) == Some(3), "three fields");
        es::check(str_of(&v, "query_id") == Some(q.as_str()), "field query_id");
        es::check(str_of(&v, "doc_id") == Some(d.as_str()), "field doc_id");
        es::check(v.get("score").and_then(|s| s.as_u64()) == Some(score as u64), "field score");
        match serde_json::from_value::<Record<String, u32>>(v) {
            Ok(b) => {
                es::check(b.query_id == q && b.doc_id == d && b.score == score, "the same record");
                es::cover("back");
            }
            Err(_) => es::check(false, "a written record reads back"),
        }
    } else {
        let x = es::f64_bits();
        es::assume(x.is_finite());
        let r = Record { query_id: q.clone(), doc_id: d.clone(), score: PredScore::from(x) };
        let v = serde_json::to_value(&r).unwrap();
        es::check(v.as_object().map(|m| m.len()) == Some(3), "three fields");
        es::check(str_of(&v, "query_id") == Some(q.as_str()), "field query_id");
        es::check(str_of(&v, "doc_id") == Some(d.as_str()), "field doc_id");
        es::check(v.get("score").and_then(|s| s.as_f64()).map(f64::to_bits) == Some(x.to_bits()), "field score");
        match serde_json::from_value::<Record<String, PredScore>>(v) {
            Ok(b) => {
                es::check(b.query_id == q && b.doc_id == d && b.score.0.to_bits() == x.to_bits(), "the same record");
                es::cover("back");
            }
            Err(_) => es::check(false, "a written record reads back"),
        }
    }
}

/// JSON text: p0-, p1-byte identifiers and any judgement of p3..=p3+p2 through to_string and from_str
#[no_mangle]
pub extern "C" fn h_json_text() {
    let (q, d) = (text(es::param(0)), text(es::param(1)));
    let score = (es::param(3) + es::range(0, es::param(2))) as u32;
    let r = Record { query_id: q.clone(), doc_id: d.clone(), score };
    let s = serde_json::to_string(&r).unwrap();
    match serde_json::from_str::<Record<String, u32>>(&s) {
        Ok(b) => {
            es::check(b.query_id == q && b.doc_id == d && b.score == score, "the same record");
            es::cover("back");
        }
        Err(_) => es::check(false, "a written record reads back"),
    }
}

/// A prediction score of p0 digits before and p1 after the point, any ones (at least one of
/// the first not zero, so that there is no leading one), as JSON text is read as
/// that number; case bit 0: negative, bit 1: with the exponent p2
#[no_mangle]
pub extern "C" fn h_json_digits() {
    let (n, k) = (es::param(0), es::param(1));
    let mut t = String::from("{\"query_id\":\"q\",\"doc_id\":\"d\",\"score\":");
    if es::case() & 1 == 1 {
        t.push('-');
    }
    let mut v = 0u64;
    for i in 0..n + k {
        if i == n {
            t.push('.');
        }
        let d = es::int((i == 0 && n > 1) as u32, 9) as u8;
        v = v * 10 + d as u64;
        t.push((b'0' + d) as char);
    }
    let mut e = -(k as i64);
    if es::case() & 2 == 2 {
        e += es::param(2) as i64;
        t.push_str(&format!("e{}", es::param(2)));
    }
    t.push('}');
    // both are exact, and so the quotient or product is the nearest double
    let p = 10f64.powi(e.unsigned_abs() as i32);
    let mut x = if e < 0 { v as f64 / p } else { v as f64 * p };
    if es::case() & 1 == 1 {
        x = -x;
    }
    match serde_json::from_str::<Record<String, PredScore>>(&t) {
        Ok(r) => {
            es::check(r.query_id == "q" && r.doc_id == "d", "the record of the fields");
            es::check(r.score.0 == x, "the score of its digits");
            es::cover("read");
        }
        Err(_) => es::check(false, "a record of a number is read"),
    }
}

/// A record with a prediction score of up to p0/10^p1 (case bit 0: negative, bit 1: times 2^-20) through text
#[no_mangle]
pub extern "C" fn h_json_score() {
    let n = es::conc(es::range(0, es::param(0)));
    let mut x = n as f64 / 10f64.powi(es::param(1) as i32);
    if es::case() & 1 == 1 {
        x = -x;
    }
    if es::case() & 2 == 2 {
        // not a short decimal, yet short enough
        x = n as f64 / 1024.0;
    }
    score_text(x, "the same score");
    es::cover("back");
}
fn score_text(x: f64, what: &str) {
    let q = text(1);
    let r = Record { query_id: q.clone(), doc_id: "d".to_string(), score: PredScore::from(x) };
    let t = serde_json::to_string(&r).unwrap();
    match serde_json::from_str::<Record<String, PredScore>>(&t) {
        Ok(b) => {
            es::check(b.query_id == q && b.doc_id == "d", "the record's identifiers");
            es::check(b.score.0.to_bits() == x.to_bits(), what);
        }
        Err(_) => es::check(false, "a written record reads back"),
    }
}

/// Doubles that serde_json, without its feature float_roundtrip, reads inexactly.
#[no_mangle]
pub extern "C" fn h_json_inexact() {
    const X: [f64; 4] = [123456789.12345679, 25.793823623424494, -3.5e30, 1.0494035463009501];
    score_text(X[es::conc(es::range(0, 3)) as usize], "a score of more than fifteen digits or a large exponent survives JSON text");
}

/// JSON text with the fields in any order (case 0 judgement, 1 prediction score), p0-byte identifiers
/// without characters JSON escapes, one-digit scores
#[no_mangle]
pub extern "C" fn h_json_order() {
    let n = es::param(0);
    let plain = |s: &String| {
        for b in s.as_bytes() {
            es::assume(*b >= 32 && *b != b'"' && *b != b'\\');
        }
    };
    let (q, d) = (text(n), text(n));
    plain(&q);
    plain(&d);
    let k = es::range(0, 9) as u8;
    let fields = [format!("\"query_id\":\"{q}\""), format!("\"doc_id\": \"{d}\""), format!("\"score\":{}", (b'0' + k) as char)];
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][es::conc(es::range(0, 5)) as usize];
    let s = format!("{{ {}, {},{}}}", fields[order[0]], fields[order[1]], fields[order[2]]);
    let back = if es::case() == 0 {
        serde_json::from_str::<Record<String, u32>>(&s).ok().map(|r| (r.query_id, r.doc_id, r.score as f64))
    } else {
        serde_json::from_str::<Record<String, PredScore>>(&s).ok().map(|r| (r.query_id, r.doc_id, r.score.0))
    };
    match back {
        Some((a, b, c)) => {
            es::check(a == q && b == d && c == k as f64, "the record of the fields");
            es::cover("read");
        }
        None => es::check(false, "fields in any order are read"),
    }
}

/// A record lacking a field, or with a field of another type, is refused.
#[no_mangle]
pub extern "C" fn h_json_missing() {
    let mut m = Map::new();
    let which = es::conc(es::range(0, 5));
    if which != 0 {
        m.insert("query_id".to_string(), if which == 3 { Value::Bool(true) } else { Value::String(text(1)) });
    }
    if which != 1 {
        m.insert("doc_id".to_string(), if which == 4 { Value::Null } else { Value::String(text(1)) });
    }
    if which != 2 {
        let neg = es::range(0, 8);
        m.insert("score".to_string(), if which == 5 { Value::Number(Number::from(-1i64 - neg as i64)) } else { Value::Number(Number::from(es::u32())) });
    }
    es::check(serde_json::from_value::<Record<String, u32>>(Value::Object(m)).is_err(), "an incomplete or ill-typed record is refused");
    es::cover("refused");
}

/// A store written record by record and read back is the same store (case 0 judgements, 1 predictions)
#[no_mangle]
pub extern "C" fn h_json_store() {
    let n = es::param(0);
    if es::case() == 0 {
        let mut b = TrueRelStoreBuilder::new();
        let mut want = vec![];
        for _ in 0..n {
            let (q, d, s) = ((b'a' + es::range(0, 1) as u8) as char, (b'a' + es::range(0, 25) as u8) as char, es::u32());
            if b.add_record(q.to_string(), d.to_string(), s).is_ok() {
                want.push(());
            }
        }
        let st = b.build();
        let js: Vec<Value> = st.records().iter().map(|r| serde_json::to_value(r).unwrap()).collect();
        es::check(js.len() == want.len(), "one line per record");
        let back = TrueRelStore::from_records(js.into_iter().map(|v| serde_json::from_value::<Record<String, u32>>(v).unwrap())).unwrap();
        es::check(back.into_records() == st.into_records(), "the same store");
    } else {
        let mut b = PredRelStoreBuilder::new();
        for _ in 0..n {
            let (q, d, s) = ((b'a' + es::range(0, 1) as u8) as char, (b'a' + es::range(0, 25) as u8) as char, es::f64_bits());
            es::assume(s.is_finite());
            let _ = b.add_record(q.to_string(), d.to_string(), s.into());
        }
        let st = b.build();
        let js: Vec<Value> = st.records().iter().map(|r| serde_json::to_value(r).unwrap()).collect();
        let back = PredRelStore::from_records(js.into_iter().map(|v| serde_json::from_value::<Record<String, PredScore>>(v).unwrap())).unwrap();
        es::check(back.into_records() == st.into_records(), "the same store");
    }
    es::cover("stored");
}
