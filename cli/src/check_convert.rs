//! C26: `elinor-convert`.
use crate::es;
use elinor::{PredRecord, TrueRecord};

fn letter(lo: u8, n: u64) -> char {
    (lo + es::range(0, n - 1) as u8) as char
}

const EARLIER: &[u8] = &[b'x'; 400];
const SCORES: [(&str, f64); 12] = [
    ("0", 0.0),
    ("1", 1.0),
    ("2", 2.0),
    ("7", 7.0),
    ("255", 255.0),
    ("256", 256.0),
    ("300", 300.0),
    ("65536", 65536.0),
    ("16777217", 16777217.0),
    ("2147483647", 2147483647.0),
    ("+4", 4.0),
    ("3", 3.0),
];
// (of those that serde_json, which reads the output here, reads exactly)
const REALS: [&str; 12] =
    ["0.1", "-0.30000000000000004", "16777217.25", "1e-7", "-3.5e20", "123456789.123", "5", ".5", "-0.0", "1e300", "3.", "2.2250738585072014e-308"];
const IDS: [&str; 7] = ["document-", "\u{fc}-\u{6f22}-", "\"quoted\"", "back\\slash", "<html>&amp;", "{\"json\":1}", "a/b:c,d;"];

/// case bit 0: run file; bit 1: writes may fail; bit 2: the document ids of the
/// free lines are p2 printable characters; bit 3: the ids have any byte, bit 4: the
/// input cannot be read from some byte on; bit 5: a line lacks its score; bit 6: the last line
/// is not terminated, the lines before end with CR LF, and there is no earlier output file.
/// p0 free lines after p1 fixed ones.
#[no_mangle]
pub extern "C" fn h_convert() {
    vstd::reset();
    let pred = es::case() & 1 == 1;
    let faults = es::case() & 2 == 2;
    let wide = es::case() & 4 == 4;
    let (free, fixed) = (es::param(0) as usize, es::param(1) as usize);
    let n = free + fixed;
    let mut text: Vec<u8> = vec![];
    let mut bad = false;
    let mut want: Vec<(String, String, f64)> = vec![];
    let mut repeated = false;
    for i in 0..n {
        let (q, d, s) = if i < fixed {
            (format!("topic{}", i * 5 % 7), format!("{}{}", IDS[i % 7], i * 3), 0)
        } else if wide {
            let d: String = (0..es::param(2)).map(|_| letter(b'!', 94)).collect();
            (letter(b'!', 94).to_string(), d, es::range(0, 1) as u32 * 3)
        } else {
            (letter(b'p', 3).to_string(), letter(b'a', 4).to_string(), es::range(0, 9) as u32)
        };
        text.extend_from_slice(q.as_bytes());
        text.extend_from_slice(if pred { b" Q0 " } else { b" 0 " });
        if es::case() & 8 == 8 && i + 1 == n {
            // not UTF-8
            let b = es::u8();
            es::assume(b >= 128);
            text.push(b);
            bad = true;
        }
        text.extend_from_slice(d.as_bytes());
        text.push(b' ');
        if pred {
            text.extend_from_slice(b"7 ");
        }
        let value = if es::case() & 32 == 32 && i + 1 == n {
            bad = true;
            0.0
        } else if i < fixed && !pred {
            text.extend_from_slice(SCORES[i % 12].0.as_bytes());
            SCORES[i % 12].1
        } else if i < fixed {
            text.extend_from_slice(REALS[i % 12].as_bytes());
            text.extend_from_slice(b" x");
            REALS[i % 12].parse().unwrap()
        } else {
            text.push(b'0' + s as u8);
            if pred {
                text.extend_from_slice(b".5 x");
            }
            s as f64 + if pred { 0.5 } else { 0.0 }
        };
        if es::case() & 64 == 64 {
            if i + 1 < n {
                text.extend_from_slice(b"\r\n");
            }
        } else {
            text.push(b'\n');
        }
        repeated |= want.iter().any(|w| w.0 == q && w.1 == d);
        want.push((q, d, value));
    }
    let w = vstd::world();
    w.put("in", &text);
    if es::case() & 64 == 0 {
        // replaced
        w.put("out", EARLIER);
    }
    w.args = ["-i", "in", "-o", "out", "-r", if pred { "pred" } else { "true" }].iter().map(|x| x.to_string()).collect();
    if faults {
        w.room = Some(es::range(0, if fixed > 0 { 65535 } else { 127 }));
        w.partial = fixed == 0;
    }
    if es::case() & 16 == 16 {
        w.readable = Some(es::range(0, text.len() as u64));
    }
    let ok = crate::convert::es_main();
    let w = vstd::world();
    if !ok {
        es::check(repeated || bad || w.failed, "a valid file is converted");
        es::cover("refused");
        return;
    }
    es::check(!repeated, "a repeated record is refused");
    es::check(!bad, "a malformed line is refused");
    es::check(w.readable.is_none(), "an input that cannot be read is refused");
    es::cover("converted");
    let out = String::from_utf8(w.get("out").cloned().unwrap_or_default()).unwrap();
    let mut lines = 0;
    let mut seen = vec![false; n];
    for l in out.lines() {
        lines += 1;
        let (q, d, s) = if pred {
            let Ok(r) = serde_json::from_str::<PredRecord<String>>(l) else {
                es::check(false, "the output line is a record");
                return;
            };
            (r.query_id, r.doc_id, f64::from(r.score))
        } else {
            let Ok(r) = serde_json::from_str::<TrueRecord<String>>(l) else {
                es::check(false, "the output line is a record");
                return;
            };
            (r.query_id, r.doc_id, r.score as f64)
        };
        match want.iter().position(|w| w.0 == q && w.1 == d) {
            None => es::check(false, "the record is in the input"),
            Some(i) => {
                es::check(!seen[i], "once");
                seen[i] = true;
                es::check(s == want[i].2, "the record's score");
            }
        }
    }
    es::check(lines == n, "every record is written");
}

/// A run whose score is infinite: preserved or refused.
#[no_mangle]
pub extern "C" fn h_convert_infinite() {
    vstd::reset();
    const INFINITE: [&str; 4] = ["inf", "-inf", "1e999", "-1e999"];
    let i = es::conc(es::range(0, 3)) as usize;
    let w = vstd::world();
    w.put("in", format!("q 0 d 1 {} x\n", INFINITE[i]).as_bytes());
    w.args = ["-i", "in", "-o", "out", "-r", "pred"].iter().map(|x| x.to_string()).collect();
    if !crate::convert::es_main() {
        es::cover("refused");
        return;
    }
    let out = String::from_utf8(vstd::world().get("out").cloned().unwrap_or_default()).unwrap();
    let score = out.lines().next().and_then(|l| serde_json::from_str::<PredRecord<String>>(l).ok()).map(|r| f64::from(r.score));
    es::check(score == Some(if i % 2 == 0 { f64::INFINITY } else { f64::NEG_INFINITY }), "an infinite score is preserved or refused");
}
