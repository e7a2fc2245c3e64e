//! Pairing and tupling score maps (C16).
use crate::es;
use elinor::statistical_tests::{pairs_from_maps, tuples_from_maps};
use elinor::*;
use std::collections::BTreeMap;

type Rows = Vec<(u8, f64)>;

/// Keeps the last value of a key, in ascending key order.
fn put(rows: &mut Rows, k: u8, v: f64) {
    let mut i = 0;
    while i < rows.len() && rows[i].0 < k {
        i += 1;
    }
    if i < rows.len() && rows[i].0 == k {
        rows[i].1 = v;
    } else {
        rows.insert(i, (k, v));
    }
}

fn check_maps(pairs: bool, maps: &[BTreeMap<u8, f64>], rows: &[Rows]) {
    let mut same = !rows.is_empty();
    for r in rows {
        if r.len() != rows[0].len() {
            same = false;
        } else {
            for i in 0..r.len() {
                if r[i].0 != rows[0][i].0 {
                    same = false;
                }
            }
        }
    }
    let got = if pairs {
        pairs_from_maps(&maps[0], &maps[1]).map(|v| v.into_iter().map(|(a, b)| vec![a, b]).collect::<Vec<_>>())
    } else {
        tuples_from_maps(maps.iter())
    };
    match got {
        Ok(t) => {
            es::check(same, "different key sets are rejected");
            es::check(t.len() == rows[0].len(), "one tuple per key");
            for i in 0..t.len() {
                es::check(t[i].len() == rows.len(), "one value per map");
                for j in 0..rows.len() {
                    es::check(t[i][j].to_bits() == rows[j][i].1.to_bits(), "value of the key in the map");
                    es::observe(t[i][j].to_bits());
                }
            }
            es::cover("tuples");
        }
        Err(ElinorError::InvalidArgument(_)) => {
            es::check(!same, "equal key sets are accepted");
            es::cover("rejected");
        }
        Err(_) => es::check(false, "error kind"),
    }
}

/// case 0 tuples, 1 pairs; p0 maps of at most p1 keys each, any keys and values
#[no_mangle]
pub extern "C" fn h_maps() {
    let mut maps = vec![];
    let mut rows = vec![];
    for _ in 0..es::param(0) {
        let mut m = BTreeMap::new();
        let mut r = vec![];
        for _ in 0..es::conc(es::range(0, es::param(1))) {
            let k = es::u8();
            let v = es::f64_bits();
            m.insert(k, v);
            put(&mut r, k, v);
        }
        maps.push(m);
        rows.push(r);
    }
    check_maps(es::case() == 1, &maps, &rows);
}

/// case 0 tuples, 1 pairs; p0 maps of p1 fixed keys where p2 insertions (in any map, anywhere)
/// use any key instead
#[no_mangle]
pub extern "C" fn h_maps_long() {
    let (nm, nk) = (es::param(0) as usize, es::param(1) as usize);
    let mut odd = vec![];
    for _ in 0..es::param(2) {
        let m = es::conc(es::range(0, nm as u64 - 1)) as usize;
        let i = es::conc(es::range(0, nk as u64 - 1)) as usize;
        odd.push((m, i, es::u8()));
    }
    let mut maps = vec![];
    let mut rows = vec![];
    for j in 0..nm {
        let mut m = BTreeMap::new();
        let mut r = vec![];
        for i in 0..nk {
            // each map inserts in its own order
            let p = (i * 7 + j * 3) % nk;
            let mut k = (p * 5 + 3) as u8;
            let v = (j * 1000 + p) as f64;
            for o in &odd {
                if o.0 == j && o.1 == p {
                    k = o.2;
                }
            }
            m.insert(k, v);
            put(&mut r, k, v);
        }
        maps.push(m);
        rows.push(r);
    }
    check_maps(es::case() == 1, &maps, &rows);
}
