//! Student's t-test (C17, C18, C19).
use crate::es;
use elinor::errors::ElinorError;
use elinor::statistical_tests::student_t_test::StudentTTest;
use statrs::distribution::{ContinuousCDF, StudentsT};

/// A score: any real number of a stated range.
pub fn score() -> f64 {
    es::real(-1000.0, 1000.0)
}
/// Fixed scores, multiples of 1/16.
pub fn fixed(i: usize, seed: usize) -> f64 {
    (((i * 29 + seed * 13 + i * i * 7) % 61) as f64 - 20.0) / 16.0
}
/// n pairs; m = 0: all free; otherwise only the first m are (so that no running total is
/// ever rounded: the executor works with exact reals once a symbolic value is involved).
pub fn pairs(n: usize, m: usize, seed: usize) -> Vec<(f64, f64)> {
    let mut v = vec![];
    for i in 0..n {
        if m == 0 || i < m {
            v.push((score(), score()));
        } else {
            v.push((fixed(2 * i, seed), fixed(2 * i + 1, seed)));
        }
    }
    v
}
/// mean and sum of squared deviations of the differences
pub fn moments(p: &[(f64, f64)]) -> (f64, f64) {
    let n = p.len() as f64;
    let mut s = 0.0;
    for (x, y) in p {
        s += x - y;
    }
    let mean = s / n;
    let mut q = 0.0;
    for (x, y) in p {
        let d = x - y - mean;
        q += d * d;
    }
    (mean, q)
}
pub fn all_equal(p: &[(f64, f64)]) -> bool {
    if p.is_empty() {
        return true;
    }
    let d0 = p[0].0 - p[0].1;
    for (x, y) in p {
        if x - y != d0 {
            return false;
        }
    }
    true
}

/// p0 pairs, of which p1 (0 = all) are any reals
#[no_mangle]
pub extern "C" fn h_ttest() {
    es::exact_roots();
    let p = pairs(es::param(0) as usize, es::param(1) as usize, es::param(2) as usize);
    let same = all_equal(&p);
    let r = StudentTTest::from_paired_samples(p.iter().copied());
    if p.len() <= 1 {
        return es::check(matches!(r, Err(ElinorError::InvalidArgument(_))), "too few samples");
    }
    let n = p.len() as f64;
    match r {
        Err(ElinorError::Uncomputable(_)) => {
            es::check(same, "computable when the differences vary");
            es::cover("no variance");
        }
        Err(_) => es::check(false, "error kind"),
        Ok(t) => {
            es::check(!same, "equal differences are uncomputable");
            if same {
                return;
            }
            let (mean, q) = moments(&p);
            es::check(t.n_topics() == p.len(), "number of topics");
            es::close_any(t.mean(), mean, "mean of the differences");
            es::close_rel(t.variance(), q / (n - 1.0), "unbiased variance of the differences");
            let sd = (q / (n - 1.0)).sqrt();
            es::close_any(t.effect_size(), mean / sd, "effect size");
            let ts = mean / (q / (n - 1.0) / n).sqrt();
            es::close_any(t.t_stat(), ts, "t statistic");
            let tail = StudentsT::new(0.0, 1.0, n - 1.0).unwrap();
            let ts = t.t_stat();
            let one = if ts >= 0.0 { tail.sf(ts) } else { tail.cdf(ts) };
            es::close(t.p_value(), 2.0 * one, "p-value");
            es::observe_f(t.mean());
            es::cover("computed");
            if mean < 0.0 {
                es::cover("negative mean");
            }
        }
    }
}

/// swapping the systems
#[no_mangle]
pub extern "C" fn h_ttest_swap() {
    es::exact_roots();
    let p = pairs(es::param(0) as usize, es::param(1) as usize, es::param(2) as usize);
    let a = StudentTTest::from_paired_samples(p.iter().copied());
    let b = StudentTTest::from_paired_samples(p.iter().map(|x| (x.1, x.0)));
    let a = match a {
        Ok(a) => a,
        Err(_) => return es::check(matches!(b, Err(_)), "both or neither computable"),
    };
    let b = match b {
        Ok(b) => b,
        Err(_) => return es::check(false, "both or neither computable"),
    };
    {
        es::close_any(a.mean(), -b.mean(), "mean negates");
        es::close_rel(a.variance(), b.variance(), "variance is kept");
        es::close_any(a.effect_size(), -b.effect_size(), "effect size negates");
        es::close_any(a.t_stat(), -b.t_stat(), "t negates");
        es::close(a.p_value(), b.p_value(), "p is kept");
        es::cover("computed");
    }
}

/// p0 pairs of extreme doubles
fn extremes() -> Vec<(f64, f64)> {
    (0..es::param(0)).map(|_| (special(), special())).collect()
}
/// Neither the sums nor the squares leave the range of doubles, and the variance is more than rounding.
fn moderate(p: &[(f64, f64)]) -> bool {
    let (mean, q) = moments(p);
    q.is_finite() && (mean * mean).is_finite() && q > 1e-300 && q > 1e-20 * mean * mean
}
fn numbers(p: &[(f64, f64)]) {
    match StudentTTest::from_paired_samples(p.iter().copied()) {
        Ok(t) => {
            es::check(!t.t_stat().is_nan() && !t.p_value().is_nan(), "t and p are numbers");
            es::check(t.p_value() >= 0.0 && t.p_value() <= 1.0, "p is a probability");
            es::cover("computed");
        }
        Err(e) => {
            es::check(!moderate(p), "computable when the differences vary");
            es::check(matches!(e, ElinorError::Uncomputable(_)), "error kind");
            es::cover("uncomputable");
        }
    }
}
/// Extreme doubles whose variance is neither negligible nor out of range, or zero.
#[no_mangle]
pub extern "C" fn h_ttest_special() {
    let p = extremes();
    es::bound(moderate(&p) || p[1..].iter().all(|x| *x == p[0] && x.0 - x.1 < 1e300 && x.1 - x.0 < 1e300), "variances that under- or overflow (h_ttest_extreme)");
    numbers(&p);
}
/// the remaining ones
#[no_mangle]
pub extern "C" fn h_ttest_extreme() {
    let p = extremes();
    es::assume(!moderate(&p) && p[1..].iter().any(|x| *x != p[0]));
    numbers(&p);
}
pub fn special() -> f64 {
    const T: [f64; 9] = [0.0, -0.0, 1.0, 0.1, 1e-170, -1e170, f64::MAX, -f64::MAX, 5e-324];
    T[es::conc(es::range(0, T.len() as u64 - 1)) as usize]
}

fn example() -> (StudentTTest, f64, f64, usize) {
    let p = pairs(es::param(0) as usize, es::param(1) as usize, es::param(2) as usize);
    es::assume(!all_equal(&p));
    let (mean, q) = moments(&p);
    let n = p.len();
    (StudentTTest::from_paired_samples(p).unwrap(), mean, (q / (n as f64 - 1.0) / n as f64).sqrt(), n)
}

/// margin of error and confidence interval at any real level
#[no_mangle]
pub extern "C" fn h_margin() {
    es::exact_roots();
    let (t, mean, scale, n) = example();
    let a = es::real(-2.0, 2.0);
    let m = t.margin_of_error(a);
    let c = t.confidence_interval(a);
    if a > 0.0 && a <= 1.0 {
        es::bound(a >= 1e-6, "levels below 1e-6");
        let q = StudentsT::new(0.0, 1.0, n as f64 - 1.0).unwrap().inverse_cdf(1.0 - a / 2.0);
        match (m, c) {
            (Ok(m), Ok((lo, hi))) => {
                es::close_any(m, scale * q, "margin of error");
                es::close_any(lo, mean - scale * q, "lower end");
                es::close_any(hi, mean + scale * q, "upper end");
                es::cover("interval");
            }
            _ => es::check(false, "a level of (0,1] is accepted"),
        }
    } else {
        es::check(matches!(m, Err(ElinorError::InvalidArgument(_))), "margin: level outside (0,1] is rejected");
        es::check(matches!(c, Err(ElinorError::InvalidArgument(_))), "interval: level outside (0,1] is rejected");
        es::cover("rejected");
    }
}

/// any double outside (0,1] is rejected
#[no_mangle]
pub extern "C" fn h_margin_bits() {
    let t = StudentTTest::from_paired_samples([(1.0, 0.5), (0.25, 0.5), (3.0, 0.0)]).unwrap();
    let a = es::f64_bits();
    es::assume(!(a > 0.0 && a <= 1.0));
    es::bound(a == a, "NaN (h_margin_nan)");
    es::check(matches!(t.margin_of_error(a), Err(ElinorError::InvalidArgument(_))), "margin: level outside (0,1] is rejected");
    es::check(matches!(t.confidence_interval(a), Err(ElinorError::InvalidArgument(_))), "interval: level outside (0,1] is rejected");
    es::cover("rejected");
}

/// a level that is not a number; case 0: margin of error, 1: confidence interval
#[no_mangle]
pub extern "C" fn h_margin_nan() {
    let t = StudentTTest::from_paired_samples([(1.0, 0.5), (0.25, 0.5), (3.0, 0.0)]).unwrap();
    let a = es::f64_bits();
    es::assume(a != a);
    let r = if es::case() == 0 { t.margin_of_error(a).map(|_| ()) } else { t.confidence_interval(a).map(|_| ()) };
    es::check(matches!(r, Err(ElinorError::InvalidArgument(_))), "NaN is rejected");
}
