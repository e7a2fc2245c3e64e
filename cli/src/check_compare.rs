//! C27: `elinor-compare`.
use crate::check_numbers::{four_decimals, DIGITS};
use crate::es;
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::*;

const TOPICS: [&str; 6] = ["a,b", "10", "x", "t 2", "1", "01"];
const NUMBERS: [&str; 6] = ["1", "01", "10", "-2", "007", "7"];
const SHARED: [&str; 2] = ["ap", "ndcg@3"];

/// The printed sections: title and rows of cells.
struct Sections<'a>(Vec<(&'a str, Vec<Vec<&'a str>>)>);
impl<'a> Sections<'a> {
    fn of(out: &'a str) -> Self {
        let mut v: Vec<(&str, Vec<Vec<&str>>)> = vec![];
        for l in out.lines() {
            if l.starts_with('#') {
                v.push((l, vec![]));
            } else if !l.is_empty() {
                if let Some(s) = v.last_mut() {
                    s.1.push(l.split('\t').collect());
                }
            }
        }
        Sections(v)
    }
    fn find(&self, from: usize, title: &str) -> Option<usize> {
        (from..self.0.len()).find(|i| self.0[*i].0.contains(title))
    }
    fn cell(&self, section: usize, row: &str, column: &str) -> Option<&'a str> {
        let t = &self.0[section].1;
        let c = t.first()?.iter().position(|x| x.trim() == column)?;
        let r = t.iter().skip(1).find(|r| r.first() == Some(&row))?;
        r.get(c).copied()
    }
    /// The cell is `want`, to the printed digits.
    fn number(&self, section: usize, row: &str, column: &str, want: f64, what: &str) {
        match self.cell(section, row, column) {
            None => es::check(false, what),
            Some("") => es::check(want.is_nan(), what),
            Some(x) => match vstd::num::parse(x) {
                None => es::check(false, what),
                Some((y, _)) => {
                    es::check(four_decimals(x), "four decimals");
                    es::close_tol(y, want, DIGITS, what);
                }
            },
        }
    }
}

/// The `i`th order of `n` rows.
fn order(mut i: usize, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for k in (1..=n).rev() {
        v.push(left.remove(i % k));
        i /= k;
    }
    v
}
fn factorial(n: usize) -> usize {
    (1..=n).product()
}

/// p0 systems, p1 topics, p2 free scores (of the first shared metric), p3: 0 raw,
/// 1 pretty printing; p4 resamples and iterations; p5: 1 tab separator.
/// p6: 1 one shared metric. p7: the number of iterations, when it is not that of resamples.
/// case bit 0: each system has the shared metrics only; bit 1: the topics are
/// called like numbers, some the same ones (1 and 01); bit 2: the rows are in the same order.
#[no_mangle]
pub extern "C" fn h_compare() {
    vstd::reset();
    rand::forget_draws();
    let case = es::case();
    let (n, topics, mut free) = (es::param(0) as usize, es::param(1) as usize, es::param(2) as usize);
    let iters = es::param(4);
    let n_iters = if es::param(7) > 0 { es::param(7) } else { iters };
    let shared = &SHARED[es::param(6) as usize..];
    let sep = if es::param(5) == 1 { '\t' } else { ',' };
    let topic = |i: usize| if case & 2 == 2 { NUMBERS[i] } else { TOPICS[i] };
    // scores[metric][system][topic]
    let mut scores = vec![];
    for m in 0..shared.len() {
        let mut v = vec![];
        for s in 0..n {
            let mut r = vec![];
            for t in 0..topics {
                r.push(if m == 0 && free > 0 && t < 2 {
                    free -= 1;
                    es::real(0.0, 1.0)
                } else {
                    // in sixteenths
                    ((3 + 7 * s + 5 * t + 2 * m + s * t * t) % 17) as f64 / 16.0
                });
            }
            v.push(r);
        }
        scores.push(v);
    }
    let w = vstd::world();
    let mut args: Vec<String> = vec![];
    for s in 0..n {
        let o = if s == 0 || case & 4 == 4 {
            (0..topics).collect()
        } else {
            order(es::conc(es::range(0, factorial(topics) as u64 - 1)) as usize, topics)
        };
        // columns: the shared metrics, and one of its own before or between
        let own = format!("p@{}", s + 1);
        let mut columns: Vec<&str> = shared.to_vec();
        if s % 2 == 1 {
            columns.reverse();
        }
        if case & 1 == 0 {
            columns.insert(s % (columns.len() + 1), &own);
            if n > 2 && s + 1 < n {
                // all but the last
                columns.insert(columns.len() - s % 2, "rr");
            }
        }
        let mut text = String::from("query_id");
        for c in &columns {
            text.push(sep);
            text.push_str(c);
        }
        text.push('\n');
        for t in o {
            let id = topic(t);
            if id.contains(sep) {
                text.push_str(&format!("\"{id}\""));
            } else {
                text.push_str(id);
            }
            for c in &columns {
                text.push(sep);
                match shared.iter().position(|x| x == c) {
                    Some(m) => text.push_str(&format!("{:?}", scores[m][s][t])),
                    None => text.push_str("0.25"),
                }
            }
            text.push('\n');
        }
        let path = format!("sys{s}");
        w.put(&path, text.as_bytes());
        args.push("-i".into());
        args.push(path);
    }
    if sep == '\t' {
        args.push("--tab-separator".into());
    }
    args.push("-p".into());
    args.push(if es::param(3) == 0 { "raw" } else { "pretty" }.into());
    if iters < 9 {
        args.push("--n-resamples".into());
        args.push(format!("{iters}"));
        args.push("--n-iters".into());
        args.push(format!("{n_iters}"));
    }
    w.args = args;
    let ok = crate::compare::es_main();
    let mut computable = true;
    for x in &scores {
        computable &= match n {
            1 => true,
            2 => StudentTTest::from_paired_samples((0..topics).map(|t| (x[0][t], x[1][t]))).is_ok(),
            _ => {
                let rows: Vec<Vec<f64>> = (0..topics).map(|t| (0..n).map(|k| x[k][t]).collect()).collect();
                TwoWayAnovaWithoutReplication::from_tupled_samples(rows.iter(), n).is_ok()
                    && TukeyHsdTest::from_tupled_samples(rows.iter(), n).is_ok()
            }
        };
    }
    es::check(ok == computable, "valid inputs are compared, unless the library has no result");
    if !ok {
        es::cover("no result");
        return;
    }
    let s = Sections::of(&vstd::world().out);
    let Some(i) = s.find(0, "Basic") else {
        es::check(false, "basic statistics");
        return;
    };
    es::check(s.cell(i, "n_systems", "Value").and_then(|x| x.parse().ok()) == Some(n), "n_systems");
    es::check(s.cell(i, "n_topics", "Value").and_then(|x| x.parse().ok()) == Some(topics), "n_topics");
    if n < 3 {
        let Some(i) = s.find(0, "# Means") else {
            es::check(false, "means");
            return;
        };
        es::check(s.0[i].1.len() == 1 + shared.len() + (n == 1 && case & 1 == 0) as usize, "one row per common metric");
        for (m, name) in shared.iter().enumerate() {
            for k in 0..n {
                let mut sum = 0.0;
                for x in &scores[m][k] {
                    sum += *x;
                }
                let system = format!("System_{}", k + 1);
                s.number(i, name, if n == 1 { "Score" } else { &system }, sum / topics as f64, "the mean of the system");
            }
        }
    }
    if n == 1 {
        es::cover("means");
        return;
    }
    for (m, name) in shared.iter().enumerate() {
        if n == 2 {
            two(&s, name, &scores[m], topics, [iters, n_iters], m, shared.len());
        } else {
            many(&s, name, &scores[m], topics, n_iters, m, shared.len());
        }
    }
    es::cover("compared");
}

/// Whether a printed p-value is that of the library's test with one of the drawn
/// states, over the topics in some order.
fn drawn(cell: Option<&str>, topics: usize, mut test: impl FnMut(&[usize], u64) -> f64, what: &str) {
    let Some(x) = cell.and_then(|x| vstd::num::parse(x)) else {
        es::check(false, what);
        return;
    };
    let (states, k) = rand::draws();
    for o in 0..factorial(topics) {
        let o = order(o, topics);
        for state in &states[..k] {
            let p = test(&o, *state);
            if (p - x.0).abs() <= DIGITS {
                return;
            }
        }
    }
    es::check(false, what);
}

fn two(s: &Sections<'_>, name: &str, x: &[Vec<f64>], topics: usize, iters: [u64; 2], m: usize, metrics: usize) {
    let pairs = || (0..topics).map(|t| (x[0][t], x[1][t]));
    let t = StudentTTest::from_paired_samples(pairs()).unwrap();
    let Some(i) = s.find(0, "t-test") else {
        es::check(false, "t-test");
        return;
    };
    es::check(s.0[i].1.len() == 1 + metrics, "one row per common metric");
    s.number(i, name, "Mean", t.mean(), "the mean difference");
    s.number(i, name, "Var", t.variance(), "the variance");
    s.number(i, name, "ES", t.effect_size(), "the effect size");
    s.number(i, name, "t-stat", t.t_stat(), "the t statistic");
    s.number(i, name, "p-value", t.p_value(), "the p-value");
    s.number(i, name, "95% MOE", t.margin_of_error(0.05).unwrap(), "the margin of error");
    let (Some(b), Some(f)) = (s.find(0, "ootstrap"), s.find(0, "Fisher")) else {
        es::check(false, "bootstrap and randomised tests");
        return;
    };
    if m + 1 < metrics {
        return;
    }
    drawn(s.cell(b, name, "p-value"), topics, |o, state| {
        BootstrapTester::new()
            .with_n_resamples(iters[0] as usize)
            .with_random_state(state)
            .test(o.iter().map(|t| (x[0][*t], x[1][*t])))
            .unwrap()
            .p_value()
    }, "the bootstrap p-value");
    drawn(s.cell(f, name, "p-value"), topics, |o, state| {
        RandomizedTukeyHsdTester::new(2)
            .with_n_iters(iters[1] as usize)
            .with_random_state(state)
            .test(o.iter().map(|t| [x[0][*t], x[1][*t]]))
            .unwrap()
            .p_values()[0][1]
    }, "the randomised p-value");
}

fn many(s: &Sections<'_>, name: &str, x: &[Vec<f64>], topics: usize, iters: u64, m: usize, metrics: usize) {
    let n = x.len();
    let rows: Vec<Vec<f64>> = (0..topics).map(|t| (0..n).map(|k| x[k][t]).collect()).collect();
    let a = TwoWayAnovaWithoutReplication::from_tupled_samples(rows.iter(), n).unwrap();
    let h = TukeyHsdTest::from_tupled_samples(rows.iter(), n).unwrap();
    let Some(at) = s.0.iter().position(|x| x.0.trim_start_matches('#').trim() == name) else {
        es::check(false, "a part per common metric");
        return;
    };
    let (Some(means), Some(anova), Some(es_), Some(p)) =
        (s.find(at, "means"), s.find(at, "ANOVA"), s.find(at, "Effect"), s.find(at, "p-values"))
    else {
        es::check(false, "the tables of a metric");
        return;
    };
    es::check(s.0[means].1.len() == n + 1, "one row per system");
    let moe = a.margin_of_error(0.05).unwrap();
    let system = |k: usize| format!("System_{}", k + 1);
    for k in 0..n {
        s.number(means, &system(k), "Mean", a.system_means()[k], "the mean of the system");
        s.number(means, &system(k), "95% MOE", moe, "the margin of error");
    }
    let t = [
        ("Between-systems", a.between_system_variation(), n - 1, a.between_system_variance(), a.between_system_f_stat(), a.between_system_p_value()),
        ("Between-topics", a.between_topic_variation(), topics - 1, a.between_topic_variance(), a.between_topic_f_stat(), a.between_topic_p_value()),
        ("Residual", a.residual_variation(), (n - 1) * (topics - 1), a.residual_variance(), f64::NAN, f64::NAN),
    ];
    for (factor, variation, df, variance, f, pv) in t {
        s.number(anova, factor, "Variation", variation, "the variation");
        es::check(s.cell(anova, factor, "DF").and_then(|x| x.parse().ok()) == Some(df), "the degrees of freedom");
        s.number(anova, factor, "Variance", variance, "the variance");
        s.number(anova, factor, "F-stat", f, "the F statistic");
        s.number(anova, factor, "p-value", pv, "the p-value");
    }
    for i in 0..n {
        for j in 0..n {
            s.number(es_, &system(i), &system(j), h.effect_sizes()[i][j], "the effect size");
        }
    }
    if m + 1 < metrics {
        return;
    }
    for i in 0..n {
        for j in 0..n {
            drawn(s.cell(p, &system(i), &system(j)), topics, |o, state| {
                RandomizedTukeyHsdTester::new(n)
                    .with_n_iters(iters as usize)
                    .with_random_state(state)
                    .test(o.iter().map(|t| rows[*t].clone()))
                    .unwrap()
                    .p_values()[i][j]
            }, "the randomised p-value");
        }
    }
}
