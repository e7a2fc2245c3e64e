//! TREC input (C14 judgement lines, C15 run lines).
use crate::es;
use elinor::trec::{parse_pred_rels_in_trec, parse_true_rels_in_trec};
use elinor::*;

/// Unicode White_Space, written out.
fn white(c: char) -> bool {
    match c as u32 {
        9..=13 | 32 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000 => true,
        _ => false,
    }
}
fn columns(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut start = None;
    for (i, c) in s.char_indices() {
        if white(c) {
            if let Some(a) = start {
                v.push(&s[a..i]);
                start = None;
            }
        } else if start.is_none() {
            start = Some(i);
        }
    }
    if let Some(a) = start {
        v.push(&s[a..]);
    }
    v
}
/// An i32 in decimal with an optional sign.
fn number(s: &str) -> Option<i32> {
    let b = s.as_bytes();
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() {
        return None;
    }
    let mut v: i64 = 0;
    for &c in d {
        if !(b'0'..=b'9').contains(&c) {
            return None;
        }
        v = v * 10 + (c - b'0') as i64;
        if v > 1 << 40 {
            return None;
        }
    }
    let v = if neg { -v } else { v };
    if v < i32::MIN as i64 || v > i32::MAX as i64 {
        return None;
    }
    Some(v as i32)
}

/// (query, document, score bits), or None for a malformed line
fn reference(run: bool, s: &str) -> Option<(String, String, u64)> {
    let c = columns(s);
    if c.len() < if run { 5 } else { 4 } {
        return None;
    }
    let bits = if run {
        c[4].parse::<f64>().ok()?.to_bits()
    } else {
        let v = number(c[3])?;
        (if v < 0 { 0 } else { v as u32 }) as u64
    };
    Some((c[0].to_string(), c[2].to_string(), bits))
}

fn parse(run: bool, lines: &[&str]) -> Result<Vec<(String, String, u64)>> {
    Ok(if run {
        let s = parse_pred_rels_in_trec(lines.iter())?;
        s.into_records().into_iter().map(|r| (r.query_id, r.doc_id, r.score.0.to_bits())).collect()
    } else {
        let s = parse_true_rels_in_trec(lines.iter())?;
        s.into_records().into_iter().map(|r| (r.query_id, r.doc_id, r.score as u64)).collect()
    })
}

fn check_line(run: bool, s: &str) {
    let want = reference(run, s);
    match parse(run, &[s]) {
        Ok(r) => match want {
            Some(w) => {
                es::check(r.len() == 1, "one record per line");
                es::check(r[0].0 == w.0, "query id is the first column");
                es::check(r[0].1 == w.1, "document id is the third column");
                es::check(r[0].2 == w.2, "score is the parsed column");
                es::observe(r[0].2);
                es::cover("record");
            }
            None => es::check(false, "a malformed line is rejected"),
        },
        Err(ElinorError::InvalidFormat(_)) => {
            es::check(want.is_none(), "a well-formed line is accepted");
            es::cover("malformed");
        }
        Err(_) => es::check(false, "rejected with InvalidFormat"),
    }
}

fn text(b: &[u8]) -> &str {
    match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            es::assume(false);
            ""
        }
    }
}

/// case 0 judgements, 1 run; p0 any ASCII characters.
#[no_mangle]
pub extern "C" fn h_trec_ascii() {
    let mut b = vec![];
    for _ in 0..es::param(0) {
        b.push(es::range(0, 127) as u8);
    }
    check_line(es::case() == 1, text(&b));
}

/// case 0 judgements, 1 run: a template line in which column p0 is replaced by any p1 bytes.
#[no_mangle]
pub extern "C" fn h_trec_column() {
    let run = es::case() == 1;
    let cols: &[&[u8]] = if run { &[b"q1", b"Q0", b"d1", b"3", b"-2.5", b"x", b"y"] } else { &[b"q1", b"0", b"d1", b"7", b"x", b"y"] };
    let mut b = vec![];
    for (i, c) in cols.iter().enumerate() {
        if i > 0 {
            b.push(b' ');
        }
        if i as u64 == es::param(0) {
            for _ in 0..es::param(1) {
                b.push(es::u8());
            }
        } else {
            b.extend_from_slice(c);
        }
    }
    check_line(run, text(&b));
}

/// case 0 judgements, 1 run: a score column of p0 characters drawn from those numbers are made of.
#[no_mangle]
pub extern "C" fn h_trec_number() {
    let run = es::case() == 1;
    let mut b = if run { b"q Q0 d 1 ".to_vec() } else { b"q 0 d ".to_vec() };
    for _ in 0..es::param(0) {
        let c = es::u8();
        es::assume(c.is_ascii_digit() || c == b'-' || c == b'+' || (run && (c == b'.' || c == b'e' || c == b'E')));
        b.push(c);
    }
    if es::param(1) == 1 {
        b.extend_from_slice(b" tag");
    }
    check_line(run, text(&b));
}

/// judgements around the ends of i32: the last p0 of the digits are free; case 0 positive, 1 negative
#[no_mangle]
pub extern "C" fn h_trec_extreme() {
    let mut b = b"q 0 d ".to_vec();
    if es::case() == 1 {
        b.push(b'-');
    }
    let free = es::param(0) as usize;
    for (i, c) in b"2147483648".iter().enumerate() {
        b.push(if i + free >= 10 { b'0' + es::range(0, 9) as u8 } else { *c });
    }
    check_line(false, text(&b));
}

/// case 0 judgements, 1 run: p0 lines, each with any one-letter query and document, any
/// one-digit score, or malformed in one of three ways.
#[no_mangle]
pub extern "C" fn h_trec_lines() {
    let run = es::case() == 1;
    let n = es::param(0) as usize;
    let mut lines = vec![];
    let mut want = vec![];
    let (mut bad, mut dup) = (false, false);
    for i in 0..n {
        let q = es::range(33, 126) as u8;
        let d = es::range(33, 126) as u8;
        let s = es::range(0, 9) as u8;
        let kind = if es::param(1) as usize == i + 1 { es::conc(es::range(0, 3)) } else { 0 };
        let mut l: Vec<u8> = vec![q, b' ', b'0', b' ', d, b' '];
        if run {
            l.extend_from_slice(b"1 ");
        }
        match kind {
            0 => l.push(b'0' + s),
            1 => {}
            2 => l.extend_from_slice(b"x1"),
            _ => l.clear(),
        }
        if kind != 0 {
            bad = true;
        } else {
            let w = (q, d, if run { (s as f64).to_bits() } else { s as u64 });
            for o in &want {
                let o: &(u8, u8, u64) = o;
                if o.0 == q && o.1 == d {
                    dup = true;
                }
            }
            want.push(w);
        }
        lines.push(String::from_utf8(l).unwrap());
    }
    let refs: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    match parse(run, &refs) {
        Ok(r) => {
            es::check(!bad && !dup, "malformed lines and repeated pairs are rejected");
            es::check(r.len() == want.len(), "one record per line");
            for w in &want {
                let mut found = false;
                for x in &r {
                    if x.0.as_bytes() == [w.0] && x.1.as_bytes() == [w.1] {
                        es::check(x.2 == w.2, "score of the line");
                        found = true;
                    }
                }
                es::check(found, "the line's record");
            }
            es::cover("parsed");
        }
        Err(ElinorError::InvalidFormat(_)) => {
            es::check(bad, "InvalidFormat only for malformed lines");
            es::cover("malformed");
        }
        Err(ElinorError::DuplicateEntry(_)) => {
            es::check(dup, "DuplicateEntry only for repeated pairs");
            es::cover("duplicate");
        }
        Err(_) => es::check(false, "error kind"),
    }
}

/// case 0 judgements, 1 run: p0 fixed lines of several queries and after p1 of them one whose ids and
/// score are single characters that may repeat an earlier pair.
#[no_mangle]
pub extern "C" fn h_trec_many() {
    let run = es::case() == 1;
    let (n, at) = (es::param(0) as usize, es::param(1) as usize);
    let mut lines: Vec<Vec<u8>> = vec![];
    let mut want: Vec<([u8; 2], u64)> = vec![];
    for i in 0..n + 1 {
        let (q, d, s) = if i == at {
            (es::range(b'a' as u64, b'h' as u64) as u8, es::range(33, 126) as u8, es::range(0, 9) as u8)
        } else {
            (b'a' + (i * 5 % 7) as u8, 33 + (i * 31 % 94) as u8, (i * i % 10) as u8)
        };
        let mut l = vec![q, if i % 3 == 0 { b'\t' } else { b' ' }, b'0', b' ', d, b' '];
        if run {
            l.extend_from_slice(b"1 ");
        }
        l.push(b'0' + s);
        if i % 2 == 0 {
            l.extend_from_slice(b" tag");
        }
        lines.push(l);
        want.push(([q, d], if run { (s as f64).to_bits() } else { s as u64 }));
    }
    let mut dup = false;
    for i in 0..n + 1 {
        if i != at && want[i].0 == want[at].0 {
            dup = true;
        }
    }
    let refs: Vec<&str> = lines.iter().map(|l| std::str::from_utf8(l).unwrap()).collect();
    match parse(run, &refs) {
        Ok(r) => {
            es::check(!dup, "a repeated pair is rejected");
            es::check(r.len() == want.len(), "one record per line");
            for w in &want {
                es::check(
                    r.iter().any(|x| x.0.as_bytes() == [w.0[0]] && x.1.as_bytes() == [w.0[1]] && x.2 == w.1),
                    "the line's record",
                );
            }
            es::cover("parsed");
        }
        Err(ElinorError::DuplicateEntry(_)) => {
            es::check(dup, "DuplicateEntry only for repeated pairs");
            es::cover("duplicate");
        }
        Err(_) => es::check(false, "error kind"),
    }
}

/// case 0 judgements, 1 run: a line whose query id, document id and ignored columns have p0 characters, one
/// character of each of the ids being free, and columns separated by p1 blanks.
#[no_mangle]
pub extern "C" fn h_trec_wide() {
    let run = es::case() == 1;
    let n = es::param(0) as usize;
    let gap = es::param(1) as usize;
    let id = |k: usize| {
        let mut v: Vec<u8> = (0..n).map(|i| 33 + ((i * 7 + k * 13) % 94) as u8).collect();
        v[(n - 1) * k % n] = es::u8();
        v
    };
    let mut b = id(1);
    let sep = |b: &mut Vec<u8>| {
        for i in 0..gap {
            b.push(if i % 2 == 0 { b' ' } else { b'\t' });
        }
    };
    sep(&mut b);
    b.extend((0..n).map(|_| b'Q'));
    sep(&mut b);
    let d = id(2);
    b.extend(d);
    sep(&mut b);
    if run {
        b.extend((0..n).map(|_| b'9'));
        sep(&mut b);
    }
    b.extend_from_slice(b"42");
    sep(&mut b);
    for _ in 0..n {
        b.extend_from_slice(b"x ");
    }
    check_line(run, text(&b));
}

/// case 0 judgements, 1 run: a line of p0 to p1 columns, each of them one of those that a parser might treat apart.
#[no_mangle]
pub extern "C" fn h_trec_mix() {
    let run = es::case() == 1;
    let n = es::conc(es::range(es::param(0), es::param(1))) as usize;
    let ids: &[&str] = &["q", "0", "#q", "Q0"];
    let ignored: &[&str] = &["0", "Q0", "1", "-1", "iter"];
    let ranks: &[&str] = &["1", "0", "-", "1.5", "rank"];
    let scores: &[&str] = if run {
        &["0", "-1", "1e3", ".5", "-0.0", "1e-320", "12,5", "score", "inf"]
    } else {
        &["0", "-1", "3", "007", "+2", "2147483647", "1.0", "rel", "-2147483648"]
    };
    let tail: &[&str] = &["x", "0", "#"];
    let mut line = String::new();
    for i in 0..n {
        if i > 0 {
            line.push(if i == 2 { '\t' } else { ' ' });
        }
        let menu = match (i, run) {
            (0, _) => ids,
            (1, _) => ignored,
            (2, _) => &["d", "-", "\u{feff}d", "\"d"],
            (3, true) => ranks,
            (3, false) | (4, true) => scores,
            _ => tail,
        };
        line.push_str(menu[es::conc(es::range(0, menu.len() as u64 - 1)) as usize]);
    }
    check_line(run, &line);
}
