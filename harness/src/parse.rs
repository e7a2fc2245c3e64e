//! Metric names.
use crate::es;
use elinor::*;

const NAMES: [&str; 13] = [
    "hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "ndcg", "dcg_burges",
    "ndcg_burges",
];

fn metric(i: usize, k: usize) -> Metric {
    match i {
        0 => Metric::Hits { k },
        1 => Metric::Success { k },
        2 => Metric::Precision { k },
        3 => Metric::Recall { k },
        4 => Metric::F1 { k },
        5 => Metric::RPrecision,
        6 => Metric::AP { k },
        7 => Metric::RR { k },
        8 => Metric::Bpref,
        9 => Metric::DCG { k },
        10 => Metric::NDCG { k },
        11 => Metric::DCGBurges { k },
        _ => Metric::NDCGBurges { k },
    }
}

/// What the documentation says `s` means.
fn reference(s: &[u8]) -> Option<Metric> {
    for (i, name) in NAMES.iter().enumerate() {
        let n = name.as_bytes();
        if s.len() < n.len() || &s[..n.len()] != n {
            continue;
        }
        if s.len() == n.len() {
            return Some(metric(i, 0));
        }
        if s[n.len()] != b'@' || s.len() == n.len() + 1 {
            continue;
        }
        let mut k: u128 = 0;
        let mut ok = true;
        for &b in &s[n.len() + 1..] {
            if !b.is_ascii_digit() {
                ok = false;
                break;
            }
            k = k * 10 + (b - b'0') as u128;
        }
        if ok && k <= usize::MAX as u128 {
            return Some(metric(i, k as usize));
        }
    }
    None
}

fn same(a: Metric, b: Metric) -> bool {
    a == b
}

fn check_string(b: &[u8]) {
    let s = match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => return es::assume(false),
    };
    let want = reference(b);
    let got = s.parse::<Metric>();
    match (got, want) {
        (Ok(g), Some(w)) => {
            es::cover("accepted");
            es::check(same(g, w), "the named metric and cutoff");
        }
        (Err(ElinorError::InvalidFormat(_)), None) => es::cover("rejected"),
        (Err(_), None) => es::check(false, "rejected with InvalidFormat"),
        (Ok(_), None) => es::check(false, "an undocumented string is rejected"),
        (Err(_), Some(_)) => es::check(false, "a documented string is accepted"),
    }
}

/// Any string of p0 bytes.
#[no_mangle]
pub extern "C" fn h_parse_free() {
    let n = es::param(0) as usize;
    let mut b = vec![];
    for _ in 0..n {
        b.push(es::u8());
    }
    check_string(&b);
}

/// case = name; the name, then (p1 = 1) '@', then any p0 bytes.
#[no_mangle]
pub extern "C" fn h_parse_suffix() {
    let mut b = NAMES[es::case() as usize].as_bytes().to_vec();
    if es::param(1) == 1 {
        b.push(b'@');
    }
    for _ in 0..es::param(0) {
        b.push(es::u8());
    }
    check_string(&b);
}

/// case = name; the name (p0 = 1: with "@12") with any byte inserted or replaced at any position.
#[no_mangle]
pub extern "C" fn h_parse_mutated() {
    let mut b = NAMES[es::case() as usize].as_bytes().to_vec();
    if es::param(0) == 1 {
        b.extend_from_slice(b"@12");
    }
    let p = es::conc(es::range(0, b.len() as u64)) as usize;
    let x = es::u8();
    match es::conc(es::range(0, 2)) {
        0 => b.insert(p, x),
        1 if p < b.len() => b[p] = x,
        2 if p < b.len() => {
            b.remove(p);
        }
        _ => {}
    }
    check_string(&b);
}

/// case = name; '@' and p0 digits: p1 leading ones any, the others follow usize::MAX
#[no_mangle]
pub extern "C" fn h_parse_digits() {
    let mut b = NAMES[es::case() as usize].as_bytes().to_vec();
    b.push(b'@');
    let n = es::param(0) as usize;
    let free = es::param(1) as usize;
    let max = b"18446744073709551615";
    for i in 0..n {
        b.push(if i + free >= n { b'0' + es::range(0, 9) as u8 } else if n <= 20 { max[i + 20 - n] } else if i < n - 20 { b'0' } else { max[i - (n - 20)] });
    }
    check_string(&b);
}

/// case = metric: printing and parsing gives the metric back; cutoffs p0..=p1 (0 = no limit);
/// p2 = 1: the cutoffs around every power of two instead
#[no_mangle]
pub extern "C" fn h_print() {
    let hi = if es::param(1) == 0 { u64::MAX } else { es::param(1) };
    let i = es::case() as usize;
    let k = if i == 5 || i == 8 {
        0
    } else if es::param(2) == 1 {
        // around every power of two
        let e = es::conc(es::range(0, 63));
        let d = es::conc(es::range(0, 2));
        (1u64 << e).wrapping_add(d).wrapping_sub(1) as usize
    } else {
        es::int64(es::param(0), hi) as usize
    };
    let m = metric(i, k);
    let s = m.to_string();
    es::check(s.as_bytes().starts_with(NAMES[i].as_bytes()), "printed with its name");
    if k == 0 {
        es::check(s == NAMES[i], "no cutoff is printed when there is none");
        es::cover("no cutoff");
    } else {
        es::check(s.as_bytes()[NAMES[i].len()] == b'@', "cutoff after '@'");
        es::cover("cutoff");
    }
    match s.parse::<Metric>() {
        Ok(g) => es::check(same(g, m), "parses back to the same metric"),
        Err(_) => es::check(false, "the printed name parses"),
    }
}
