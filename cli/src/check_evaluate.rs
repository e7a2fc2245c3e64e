//! C26: `elinor-evaluate`.
use crate::check_numbers::{four_decimals, DIGITS};
use crate::es;
use elinor::*;
use polars::prelude::*;
use std::str::FromStr;

pub fn metric(which: u64, k: usize) -> Metric {
    match which {
        0 => Metric::Hits { k },
        1 => Metric::Success { k },
        2 => Metric::Precision { k },
        3 => Metric::Recall { k },
        4 => Metric::F1 { k },
        5 => Metric::RPrecision,
        6 => Metric::AP { k },
        7 => Metric::RR { k },
        8 => Metric::Bpref,
        9 => Metric::DCG { k },
        10 => Metric::NDCG { k },
        11 => Metric::DCGBurges { k },
        _ => Metric::NDCGBurges { k },
    }
}

/// A CSV file as written, its first column as text.
pub fn table(path: &str, separator: u8) -> PolarsResult<DataFrame> {
    CsvReadOptions::default()
        .with_parse_options(CsvParseOptions::default().with_separator(separator))
        .with_dtype_overwrite(Some(Arc::new(vec![DataType::String])))
        .try_into_reader_with_file_path(Some(path.into()))?
        .finish()
}

/// The first field of a line and the rest.
pub fn field(l: &str) -> (&str, &str) {
    l.split_once('\t').unwrap_or((l, ""))
}

/// case: the metric; p0: 0 no output file, 1 comma, 2 tab; p1: 0 that metric,
/// 1 that metric and two others, 2 the default metrics; p2: any judgement of
/// that many documents; p3 predicted queries besides the first; p4: 1 writes may fail, 2 reads may fail,
/// 3 a predicted query lacks judgements, 4 a judgement is repeated, 5 a prediction is.
#[no_mangle]
pub extern "C" fn h_evaluate() {
    vstd::reset();
    let (csv, list, free, more) = (es::param(0), es::param(1), es::param(2) as usize, es::param(3) as usize);
    let name = |i: usize| match i {
        0 => "q 1".to_string(),
        1 => "x,\"2\"".to_string(),
        2 => "x\t3".to_string(),
        i => format!("{i}"),
    };
    let mut t = TrueRelStoreBuilder::<String>::new();
    let mut p = PredRelStoreBuilder::<String>::new();
    let (mut tt, mut pt) = (String::new(), String::new());
    let mut used = 0;
    let mut relevant = 0;
    for q in 0..more + 1 {
        for d in 0..3 {
            let s = if used < free && q == (more + 1) / 2 {
                used += 1;
                es::range(0, 9) as u32
            } else {
                ((q + d) % 3) as u32
            };
            let doc = format!("d{d}");
            tt.push_str(&format!("{{\"query_id\":{:?},\"doc_id\":\"{doc}\",\"score\":", name(q)));
            // 8 and 9 stand for large ones
            let s = match s {
                9 => {
                    tt.push_str("256");
                    256
                }
                8 if es::case() < 11 => {
                    tt.push_str("70000");
                    70000
                }
                8 => {
                    tt.push_str("30");
                    30
                }
                _ => {
                    tt.push((b'0' + s as u8) as char);
                    s
                }
            };
            tt.push_str("}\n");
            if s > 0 {
                relevant += 1;
            }
            t.add_record(name(q), doc, s).unwrap();
        }
        for d in 0..4 {
            if d == 1 && q == 1 {
                continue;
            }
            let doc = format!("d{}", (d + 1) % 4);
            let s = (d * 7 % 4) as f64 - 1.5;
            pt.push_str(&format!("{{\"doc_id\":\"{doc}\",\"score\":{s:?},\"query_id\":{:?}}}\n", name(q)));
            p.add_record(name(q), doc, s.into()).unwrap();
        }
    }
    // judged only
    tt.push_str("{\"query_id\":\"zz\",\"doc_id\":\"d0\",\"score\":1}\n");
    t.add_record("zz".to_string(), "d0".to_string(), 1).unwrap();
    relevant += 1;
    match es::param(4) {
        3 => pt.push_str("{\"doc_id\":\"d0\",\"score\":1.5,\"query_id\":\"zzz\"}\n"),
        4 => tt.push_str("{\"doc_id\":\"d0\",\"score\":1,\"query_id\":\"zz\"}\n"),
        5 => pt.push_str("{\"doc_id\":\"d2\",\"score\":9.5,\"query_id\":\"q 1\"}\n"),
        _ => (),
    }
    let refused = es::param(4) > 2;
    let (t, p) = (t.build(), p.build());
    let w = vstd::world();
    w.put("true", tt.as_bytes());
    w.put("pred", pt.as_bytes());
    let mut args: Vec<String> = ["-t", "true", "-p", "pred"].iter().map(|x| x.to_string()).collect();
    if csv > 0 {
        // an earlier file, to be replaced
        w.put("scores", &[b'7'; 2000]);
        args.push("--output-csv".into());
        args.push("scores".into());
    }
    if csv == 2 {
        args.push("--tab-separator".into());
    }
    let which = es::case();
    let mut metrics = vec![];
    if list < 2 {
        metrics.push(metric(which, 2));
        if list == 1 {
            metrics.push(metric(which, 0));
            metrics.push(metric((which + 4) % 13, 1));
            if metrics[0] == metrics[1] {
                metrics.remove(1);
            }
        }
        args.push("-m".into());
        for m in &metrics {
            args.push(format!("{m:#}"));
        }
    }
    w.args = args;
    if es::param(4) == 1 {
        w.room = Some(es::range(0, 127));
        w.partial = true;
    }
    if es::param(4) == 2 {
        w.readable = Some(es::range(0, 511));
    }
    let ok = crate::evaluate::es_main();
    es::check(ok || vstd::world().failed || refused, "valid inputs are evaluated");
    es::check(!ok || !refused, "repeated records and predicted queries without judgements are refused");
    if !ok {
        es::cover("refused");
        return;
    }
    let w = vstd::world();
    let lines: Vec<&str> = w.out.lines().collect();
    let expect = [
        ("n_queries_in_true", more + 2),
        ("n_queries_in_pred", more + 1),
        ("n_docs_in_true", (more + 1) * 3 + 1),
        ("n_docs_in_pred", if more > 0 { (more + 1) * 4 - 1 } else { 4 }),
        ("n_relevant_docs", relevant),
    ];
    let mut printed = vec![];
    let mut counts = 0;
    for l in &lines {
        let (k, v) = field(l);
        if let Some((_, n)) = expect.iter().find(|x| x.0 == k) {
            es::check(v.parse() == Ok(*n), "the count printed");
            counts += 1;
            continue;
        }
        let Ok(m) = Metric::from_str(k) else {
            es::check(false, "a line is a count or a metric");
            return;
        };
        es::check(list == 2 || metrics.contains(&m), "only requested metrics");
        es::check(!printed.contains(&m), "each metric once");
        printed.push(m);
        let Some((x, _)) = vstd::num::parse(v) else {
            es::check(false, "a number");
            return;
        };
        es::close_tol(x, evaluate(&t, &p, m).unwrap().mean(), DIGITS, "the mean printed");
        es::check(four_decimals(v), "the mean to four decimals");
    }
    es::check(counts == expect.len(), "every count is printed");
    es::check(if list == 2 { printed.len() > 1 } else { printed.len() == metrics.len() }, "every requested metric is printed");
    es::check(w.get("scores").is_some() == (csv > 0), "the file is written when asked for");
    if csv == 0 {
        return;
    }
    let Ok(d) = table("scores", if csv == 2 { b'\t' } else { b',' }) else {
        es::check(false, "the file is a table");
        return;
    };
    es::check(d.width() == printed.len() + 1, "a column per metric");
    es::check(d.height() == more + 1, "a row per predicted query");
    let ids = d.get_columns()[0].str().unwrap();
    for m in &printed {
        let r = evaluate(&t, &p, *m).unwrap();
        let Some(c) = d.get_columns().iter().skip(1).find(|c| Metric::from_str(c.name()) == Ok(*m)) else {
            es::check(false, "a column per metric");
            return;
        };
        let Ok(v) = c.cast(&DataType::Float64) else { return };
        let v = v.f64().unwrap();
        for q in 0..more + 1 {
            match (0..ids.len()).find(|i| ids.get(*i) == Some(name(q).as_str())) {
                None => es::check(false, "every predicted query has a row"),
                Some(i) => es::close_tol(v.get(i).unwrap(), r.scores()[&name(q)], 1e-9, "the score stored"),
            }
        }
    }
    es::cover("compared");
}
