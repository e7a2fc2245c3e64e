//! Two-way ANOVA (C23, C18, C19) and Tukey's HSD test (C24).
use crate::es;
use crate::ttest::{fixed, score, special};
use elinor::errors::ElinorError;
use elinor::statistical_tests::{TukeyHsdTest, TwoWayAnovaWithoutReplication};
use statrs::distribution::{ContinuousCDF, FisherSnedecor, StudentsT};

/// p0 topics of p1 systems; p2 = 0: every score free, 1000: none, otherwise the first p2 scores
pub fn matrix() -> Vec<Vec<f64>> {
    let (t, s, m, seed) = (es::param(0) as usize, es::param(1) as usize, es::param(2) as usize, es::param(3) as usize);
    let mut v = vec![];
    let mut c = 0;
    for j in 0..t {
        let mut row = vec![];
        for i in 0..s {
            row.push(if m == 0 || (m < 1000 && c < m) { score() } else { fixed(j * s + i, seed) });
            c += 1;
        }
        v.push(row);
    }
    v
}

pub fn matrix_of(t: usize, s: usize, seed: usize) -> Vec<Vec<f64>> {
    (0..t).map(|j| (0..s).map(|i| fixed(j * s + i, seed)).collect()).collect()
}

pub struct Reference {
    pub systems: Vec<f64>,
    pub topics: Vec<f64>,
    pub sa: f64,
    pub sb: f64,
    pub se: f64,
    pub total: f64,
}
pub fn reference(x: &[Vec<f64>]) -> Reference {
    let (b, a) = (x.len(), x[0].len());
    let mut systems = vec![];
    let mut grand = 0.0;
    for i in 0..a {
        let mut s = 0.0;
        for row in x {
            s += row[i];
        }
        grand += s;
        systems.push(s / b as f64);
    }
    grand /= (a * b) as f64;
    let mut topics = vec![];
    for row in x {
        let mut s = 0.0;
        for v in row {
            s += v;
        }
        topics.push(s / a as f64);
    }
    let sq = |v: f64| v * v;
    let mut sa = 0.0;
    for m in &systems {
        sa += b as f64 * sq(m - grand);
    }
    let mut sb = 0.0;
    for m in &topics {
        sb += a as f64 * sq(m - grand);
    }
    let (mut se, mut total) = (0.0, 0.0);
    for j in 0..b {
        for i in 0..a {
            se += sq(x[j][i] - systems[i] - topics[j] + grand);
            total += sq(x[j][i] - grand);
        }
    }
    Reference { systems, topics, sa, sb, se, total }
}
#[no_mangle]
pub extern "C" fn h_anova() {
    es::exact_roots();
    let x = matrix();
    let a = es::param(1) as usize;
    if x.len() > 1 && a > 0 {
        es::bound(a > 1 && reference(&x).se > 0.0, "no residual variance or a single system (h_single_system, h_no_residual)");
    }
    let r = TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), a);
    if x.len() <= 1 {
        es::cover("too small");
        return es::check(matches!(r, Err(ElinorError::InvalidArgument(_))), "too few topics");
    }
    let t = match r {
        Ok(t) => t,
        Err(_) => return es::check(false, "computable when there is residual variance"),
    };
    es::cover("computed");
    let w = reference(&x);
    let b = x.len();
    es::check(t.n_systems() == a, "number of systems");
    es::check(t.n_topics() == b, "number of topics");
    let (sm, tm) = (t.system_means(), t.topic_means());
    es::check(sm.len() == a && tm.len() == b, "one mean each");
    for i in 0..a {
        es::close_any(sm[i], w.systems[i], "system mean");
    }
    for j in 0..b {
        es::close_any(tm[j], w.topics[j], "topic mean");
    }
    let (fa, fb) = ((a - 1) as f64, (b - 1) as f64);
    es::close_rel(t.between_system_variation(), w.sa, "between-system variation");
    es::close_rel(t.between_topic_variation(), w.sb, "between-topic variation");
    es::close_rel(t.residual_variation(), w.se, "residual variation");
    es::close_rel(
        t.between_system_variation() + t.between_topic_variation() + t.residual_variation(),
        w.total,
        "variations add up to the total",
    );
    es::close_rel(t.between_system_variance(), w.sa / fa, "between-system variance");
    es::close_rel(t.between_topic_variance(), w.sb / fb, "between-topic variance");
    es::close_rel(t.residual_variance(), w.se / (fa * fb), "residual variance");
    es::observe_f(t.residual_variance());
    let ve = w.se / (fa * fb);
    let (f1, f2) = (w.sa / fa / ve, w.sb / fb / ve);
    es::close_rel(t.between_system_f_stat(), f1, "between-system F");
    es::close_rel(t.between_topic_f_stat(), f2, "between-topic F");
    if es::param(4) == 0 {
        let p1 = FisherSnedecor::new(fa, fa * fb).unwrap().sf(t.between_system_f_stat());
        let p2 = FisherSnedecor::new(fb, fa * fb).unwrap().sf(t.between_topic_f_stat());
        es::close(t.between_system_p_value(), p1, "between-system p");
        es::close(t.between_topic_p_value(), p2, "between-topic p");
    }
}

/// margin of error at any real level
#[no_mangle]
pub extern "C" fn h_anova_margin() {
    es::exact_roots();
    let x = matrix();
    es::bound(reference(&x).se > 0.0, "no residual variance (h_no_residual)");
    let t = TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), x[0].len()).unwrap();
    let l = es::real(-2.0, 2.0);
    let m = t.margin_of_error(l);
    if l > 0.0 && l <= 1.0 {
        es::bound(l >= 1e-6, "levels below 1e-6");
        let w = reference(&x);
        let f = ((x.len() - 1) * (x[0].len() - 1)) as f64;
        let q = StudentsT::new(0.0, 1.0, f).unwrap().inverse_cdf(1.0 - l / 2.0);
        match m {
            Ok(m) => es::close_any(m, (w.se / f / x.len() as f64).sqrt() * q, "margin of error"),
            Err(_) => es::check(false, "a level of (0,1] is accepted"),
        }
        es::cover("margin");
    } else {
        es::check(matches!(m, Err(ElinorError::InvalidArgument(_))), "level outside (0,1] is rejected");
        es::cover("rejected");
    }
}

#[no_mangle]
pub extern "C" fn h_anova_margin_bits() {
    let t = TwoWayAnovaWithoutReplication::from_tupled_samples([[1.0, 0.5], [0.25, 0.5], [3.0, 0.0]], 2).unwrap();
    let l = es::f64_bits();
    es::assume(!(l > 0.0 && l <= 1.0));
    es::bound(l == l, "NaN (h_anova_margin_nan)");
    es::check(matches!(t.margin_of_error(l), Err(ElinorError::InvalidArgument(_))), "level outside (0,1] is rejected");
    es::cover("rejected");
}

/// a level that is not a number
#[no_mangle]
pub extern "C" fn h_anova_margin_nan() {
    let t = TwoWayAnovaWithoutReplication::from_tupled_samples([[1.0, 0.5], [0.25, 0.5], [3.0, 0.0]], 2).unwrap();
    let l = es::f64_bits();
    es::assume(l != l);
    es::check(matches!(t.margin_of_error(l), Err(ElinorError::InvalidArgument(_))), "NaN is rejected");
}

/// case 0 ANOVA, 1 Tukey HSD
fn rejected(x: &[Vec<f64>], a: usize, what: &str) {
    let r = if es::case() == 0 {
        TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), a).map(|_| ())
    } else {
        TukeyHsdTest::from_tupled_samples(x.iter(), a).map(|_| ())
    };
    es::check(matches!(r, Err(ElinorError::InvalidArgument(_)) | Err(ElinorError::Uncomputable(_))), what);
    es::cover("rejected");
}
/// p0 topics of one system (p1 = 1) or of none (p1 = 0)
#[no_mangle]
pub extern "C" fn h_single_system() {
    let a = es::param(1) as usize;
    let x: Vec<Vec<f64>> = (0..es::param(0)).map(|_| (0..a).map(|_| score()).collect()).collect();
    rejected(&x, a, "fewer than two systems are rejected");
}
/// p0 topics of p1 systems whose scores are the sum of a topic's and a system's effect
#[no_mangle]
pub extern "C" fn h_no_residual() {
    let (b, a) = (es::param(0) as usize, es::param(1) as usize);
    let c: Vec<f64> = (0..a).map(|_| score()).collect();
    let mut x = vec![];
    for _ in 0..b {
        let r = score();
        x.push(c.iter().map(|v| v + r).collect::<Vec<f64>>());
    }
    rejected(&x, a, "scores without residual variance are rejected");
}

#[no_mangle]
pub extern "C" fn h_tukey() {
    es::exact_roots();
    let x = matrix();
    let a = es::param(1) as usize;
    if x.len() > 1 && a > 0 {
        es::bound(a > 1 && reference(&x).se > 0.0, "no residual variance or a single system (h_single_system, h_no_residual)");
    }
    let r = TukeyHsdTest::from_tupled_samples(x.iter(), a);
    if x.len() <= 1 {
        es::cover("too small");
        return es::check(matches!(r, Err(ElinorError::InvalidArgument(_))), "too few topics");
    }
    let t = match r {
        Ok(t) => t,
        Err(_) => return es::check(false, "computable when there is residual variance"),
    };
    es::cover("computed");
    let w = reference(&x);
    es::check(t.n_systems() == a && t.n_topics() == x.len(), "dimensions");
    let sd = (w.se / ((a - 1) * (x.len() - 1)) as f64).sqrt();
    let e = t.effect_sizes();
    es::check(e.len() == a, "one row per system");
    for i in 0..a {
        es::check(e[i].len() == a, "one column per system");
        for j in 0..a {
            if i == j {
                es::close(e[i][j], 0.0, "zero diagonal");
            } else {
                es::close_any(e[i][j], (w.systems[i] - w.systems[j]) / sd, "standardised mean difference");
                es::close_any(e[i][j], -e[j][i], "antisymmetric");
                es::observe_f(e[i][j]);
            }
        }
    }
}

/// case 0 ANOVA, 1 Tukey HSD, 2 randomised Tukey HSD: p0 records of any length up to p1, any n_systems up to p1
#[no_mangle]
pub extern "C" fn h_ragged() {
    let max = es::param(1);
    let n = es::conc(es::range(0, max)) as usize;
    let mut bad = false;
    let mut x = vec![];
    for j in 0..es::param(0) {
        let l = es::conc(es::range(0, max)) as usize;
        if l != n {
            bad = true;
        }
        let mut r = vec![];
        for i in 0..l {
            r.push(fixed(j as usize * 5 + i, 1));
        }
        x.push(r);
    }
    if es::case() != 2 && n <= 1 && !bad && x.len() > 1 {
        return es::bound(false, "fewer than two systems (h_single_system)");
    }
    let few = x.len() <= if es::case() == 2 { 0 } else { 1 };
    let small = es::case() != 2 && n <= 1;
    let r = match es::case() {
        0 => TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), n).map(|_| ()),
        1 => TukeyHsdTest::from_tupled_samples(x.iter(), n).map(|_| ()),
        _ => elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester::new(n)
            .with_n_iters(1)
            .with_random_state(1)
            .test(x.iter())
            .map(|_| ()),
    };
    match r {
        Ok(()) => {
            es::check(!bad && !few && !small, "records of another length, too few records and too few systems are rejected");
            es::cover("accepted");
        }
        Err(ElinorError::InvalidArgument(_)) => {
            es::check(bad || few || small, "accepted otherwise");
            es::cover("rejected");
        }
        Err(_) => es::check(false, "error kind"),
    }
}

/// Extreme doubles, p0 topics of p1 systems of which the first p2 scores are any of them.
fn extremes() -> Vec<Vec<f64>> {
    let mut x = vec![];
    for j in 0..es::param(0) {
        let mut r = vec![];
        for i in 0..es::param(1) {
            r.push(if j * es::param(1) + i < es::param(2) { special() } else { 0.25 });
        }
        x.push(r);
    }
    x
}
/// Neither the sums nor the squares leave the range of doubles, and the residual is more than rounding.
fn moderate(x: &[Vec<f64>]) -> bool {
    let w = reference(x);
    w.se.is_finite() && w.total.is_finite() && w.se > 1e-300 && w.se > 1e-20 * w.total
}
fn numbers(x: &[Vec<f64>]) {
    let a = es::param(1) as usize;
    match TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), a) {
        Ok(t) => {
            es::check(!t.between_system_p_value().is_nan() && !t.between_topic_p_value().is_nan(), "p-values are numbers");
            es::check(!t.between_system_f_stat().is_nan() && !t.between_topic_f_stat().is_nan(), "F statistics are numbers");
            es::cover("computed");
        }
        Err(e) => {
            es::check(!moderate(x), "computable when there is residual variance");
            es::check(matches!(e, ElinorError::Uncomputable(_)), "error kind");
            es::cover("uncomputable");
        }
    }
}
/// numbers only, on extreme doubles whose variations are neither negligible nor out of range
#[no_mangle]
pub extern "C" fn h_anova_special() {
    let x = extremes();
    es::bound(moderate(&x), "variations that under- or overflow (h_anova_extreme)");
    numbers(&x);
}
/// the remaining ones
#[no_mangle]
pub extern "C" fn h_anova_extreme() {
    let x = extremes();
    es::assume(!moderate(&x));
    numbers(&x);
}
