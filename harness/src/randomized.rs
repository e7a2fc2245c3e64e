//! Bootstrap test (C20), randomised Tukey HSD test (C21), reproducibility (C22).
use crate::anova::matrix;
use crate::es;
use crate::ttest::{all_equal, fixed, moments, pairs};
use elinor::errors::ElinorError;
use elinor::statistical_tests::bootstrap_test::{BootstrapTest, BootstrapTester};
use elinor::statistical_tests::randomized_tukey_hsd_test::{RandomizedTukeyHsdTest, RandomizedTukeyHsdTester};
use rand::rngs::StdRng;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};

/// Fixed scores whose differences and their mean are multiples of 1/16, so that shifting
/// them, and the mean of equal ones, is exact in doubles however it is computed.
fn fixed_pairs(n: usize, seed: usize) -> Vec<(f64, f64)> {
    let mut v: Vec<(f64, f64)> = (0..n).map(|i| (fixed(2 * i, seed), fixed(2 * i + 1, seed))).collect();
    let mut total = 0.0;
    for x in &v {
        total += x.0 - x.1;
    }
    if n > 0 {
        v[n - 1].1 += ((total * 16.0) as i64).rem_euclid(n as i64) as f64 / 16.0;
    }
    v
}
/// case & 1: fixed scores, otherwise any reals
fn some_pairs() -> Vec<(f64, f64)> {
    let n = es::param(0) as usize;
    if es::case() & 1 == 1 {
        fixed_pairs(n, es::param(3) as usize)
    } else {
        pairs(n, es::param(2) as usize, es::param(3) as usize)
    }
}

/// p0 pairs, p1 resamples, p2 free pairs (0 = all), p3 numbers the fixed ones; any random numbers
#[no_mangle]
pub extern "C" fn h_bootstrap() {
    es::exact_roots();
    let p = some_pairs();
    let b = es::param(1) as usize;
    let state = es::u64();
    let same = all_equal(&p);
    let r = BootstrapTester::new().with_n_resamples(b).with_random_state(state).test(p.iter().copied());
    if p.len() <= 1 {
        es::cover("too few");
        return es::check(matches!(r, Err(ElinorError::InvalidArgument(_))), "too few samples");
    }
    let t = match r {
        Ok(t) => t,
        Err(ElinorError::Uncomputable(_)) => {
            es::cover("uncomputable");
            return es::check(same, "computable when the differences vary");
        }
        Err(_) => return es::check(false, "error kind"),
    };
    es::check(!same, "equal differences are uncomputable");
    if same {
        return;
    }
    let b = if b == 0 { 1 } else { b };
    es::check(t.n_topics() == p.len(), "number of topics");
    es::check(t.n_resamples() == b, "number of resamples");
    es::check(t.random_state() == state, "reported state");
    let n = p.len();
    let (mean, q) = moments(&p);
    let mut rng = StdRng::seed_from_u64(state);
    // certainly extreme / possibly extreme (they differ only by rounding of fixed scores)
    let (mut sure, mut maybe) = (0usize, 0usize);
    let slack = if es::case() & 1 == 1 { 1e-9 } else { 0.0 };
    for _ in 0..b {
        let mut d = vec![];
        for _ in 0..n {
            let i = rng.gen_range(0..n);
            d.push((p[i].0 - p[i].1 - mean, 0.0));
        }
        if all_equal(&d) {
            if mean == 0.0 {
                sure += 1;
                maybe += 1;
            }
            continue;
        }
        let (mr, qr) = moments(&d);
        // mr^2 / qr >= mean^2 / q
        let (l, r) = (mr * mr * q, mean * mean * qr);
        if slack == 0.0 {
            if l >= r {
                sure += 1;
                maybe += 1;
            }
        } else {
            if l >= r + slack {
                sure += 1;
            }
            if l >= r - slack {
                maybe += 1;
            }
        }
    }
    es::observe_f(t.p_value());
    let c = t.p_value() * b as f64;
    es::check(c >= sure as f64 - 1e-9 && c <= maybe as f64 + 1e-9, "p-value counts the extreme resamples");
    if sure == 0 {
        es::cover("nothing extreme");
    }
    if sure > 0 {
        es::cover("extreme");
    }
}

/// swapping the systems, and shifting both scores of a pair
#[no_mangle]
pub extern "C" fn h_bootstrap_invariant() {
    es::exact_roots();
    let p = some_pairs();
    let b = es::param(1) as usize;
    let state = es::u64();
    es::assume(!all_equal(&p));
    let t = BootstrapTester::new().with_n_resamples(b).with_random_state(state);
    let a = t.test(p.iter().copied()).unwrap().p_value();
    if es::case() & 2 == 0 {
        let s = t.test(p.iter().map(|x| (x.1, x.0))).unwrap().p_value();
        es::close(a, s, "swapping the systems keeps p");
    } else {
        let mut sh = p.clone();
        for x in sh.iter_mut() {
            let c = es::real(-1000.0, 1000.0);
            x.0 += c;
            x.1 += c;
        }
        let s = t.test(sh).unwrap().p_value();
        es::close(a, s, "shifting both scores of a pair keeps p");
    }
    es::cover("compared");
}

/// p0 topics, p1 systems, p2 free scores (0 = all), p3 numbers the fixed ones, p4 iterations; any random numbers
#[no_mangle]
pub extern "C" fn h_rtukey() {
    let x = matrix();
    let (a, b) = (es::param(1) as usize, es::param(4) as usize);
    let state = es::u64();
    let r = RandomizedTukeyHsdTester::new(a).with_n_iters(b).with_random_state(state).test(x.iter());
    if x.is_empty() {
        es::cover("too few");
        return es::check(matches!(r, Err(ElinorError::InvalidArgument(_))), "too few samples");
    }
    let t = match r {
        Ok(t) => t,
        Err(_) => return es::check(false, "accepted"),
    };
    let b = if b == 0 { 1 } else { b };
    es::check(t.n_systems() == a && t.n_topics() == x.len(), "dimensions");
    es::check(t.n_iters() == b, "number of iterations");
    es::check(t.random_state() == state, "reported state");
    let total = |rows: &[Vec<f64>], i: usize| {
        let mut s = 0.0;
        for r in rows {
            s += r[i];
        }
        s
    };
    let mut obs = vec![];
    for i in 0..a {
        obs.push(total(&x, i));
    }
    let mut counts = vec![0usize; a * a];
    let mut rng = StdRng::seed_from_u64(state);
    for _ in 0..b {
        let mut rows = x.clone();
        for r in rows.iter_mut() {
            r.shuffle(&mut rng);
        }
        let mut sums = vec![];
        for i in 0..a {
            sums.push(total(&rows, i));
        }
        let (mut hi, mut lo) = (sums[0], sums[0]);
        for v in &sums {
            if *v > hi {
                hi = *v;
            }
            if *v < lo {
                lo = *v;
            }
        }
        let range = hi - lo;
        for i in 0..a {
            for j in 0..i {
                let d = obs[i] - obs[j];
                let hit = range >= d && range >= -d;
                if hit {
                    counts[i * a + j] += 1;
                }
            }
        }
    }
    let p = t.p_values();
    es::check(p.len() == a, "one row per system");
    for i in 0..a {
        es::check(p[i].len() == a, "one column per system");
        es::close(p[i][i], 1.0, "ones on the diagonal");
        for j in 0..i {
            es::close(p[i][j] * b as f64, counts[i * a + j] as f64, "p-value counts the iterations");
            es::check(p[i][j] == p[j][i], "symmetric");
            es::observe_f(p[i][j]);
            if counts[i * a + j] == 0 {
                es::cover("none");
            } else {
                es::cover("some");
            }
        }
    }
}

/// Larger observed differences never have larger p-values.
#[no_mangle]
pub extern "C" fn h_rtukey_order() {
    let x = matrix();
    let (a, b) = (es::param(1) as usize, es::param(4) as usize);
    let t = RandomizedTukeyHsdTester::new(a).with_n_iters(b).with_random_state(es::u64()).test(x.iter()).unwrap();
    let p = t.p_values();
    let mut d = vec![];
    for i in 0..a {
        for j in 0..i {
            let mut s = 0.0;
            for r in &x {
                s += r[i] - r[j];
            }
            d.push((if s < 0.0 { -s } else { s }, p[i][j]));
        }
    }
    for u in &d {
        es::check(u.1 >= 0.0 && u.1 <= 1.0, "a probability");
        for v in &d {
            if u.1 > v.1 {
                es::check(u.0 <= v.0, "a larger difference never has a larger p-value");
                es::cover("ordered");
            }
        }
    }
}

/// case 0 bootstrap, 1 randomised Tukey; p0 topics, p1 resamples; the state is given
#[no_mangle]
pub extern "C" fn h_state_given() {
    let n = es::param(0) as usize;
    let b = es::param(1) as usize;
    let state = es::u64();
    if es::case() == 0 {
        let p = fixed_pairs(n, 2);
        let t = BootstrapTester::new().with_random_state(state).with_n_resamples(b);
        let (u, v) = (t.test(p.iter().copied()).unwrap(), t.test(p.iter().copied()).unwrap());
        es::check(u.random_state() == state && v.random_state() == state, "reported state");
        es::check(u.n_resamples() == b.max(1) && v.n_resamples() == b.max(1), "reported number of resamples");
        es::check(u.p_value() == v.p_value(), "two runs agree");
        es::observe_f(u.p_value());
    } else {
        let x = crate::anova::matrix_of(n, 3, 2);
        let t = RandomizedTukeyHsdTester::new(3).with_random_state(state).with_n_iters(b);
        let (u, v) = (t.test(x.iter()).unwrap(), t.test(x.iter()).unwrap());
        es::check(u.random_state() == state && v.random_state() == state, "reported state");
        es::check(u.n_iters() == b.max(1) && v.n_iters() == b.max(1), "reported number of iterations");
        same_matrix(&u, &v);
    }
    es::cover("two runs");
}
fn same_matrix(u: &RandomizedTukeyHsdTest, v: &RandomizedTukeyHsdTest) {
    let (a, b) = (u.p_values(), v.p_values());
    es::check(a.len() == b.len(), "same shape");
    for i in 0..a.len() {
        for j in 0..a.len() {
            es::check(a[i][j] == b[i][j], "two runs agree");
            es::observe_f(a[i][j]);
        }
    }
}

/// as above without a given state: running again with the reported one
#[no_mangle]
pub extern "C" fn h_state_drawn() {
    let n = es::param(0) as usize;
    let b = es::param(1) as usize;
    if es::case() == 0 {
        let p = fixed_pairs(n, 2);
        let t = BootstrapTester::new().with_n_resamples(b);
        let u = t.test(p.iter().copied()).unwrap();
        let v = t.with_random_state(u.random_state()).test(p.iter().copied()).unwrap();
        es::check(v.random_state() == u.random_state(), "the state given is the state reported");
        es::check(u.n_resamples() == b.max(1), "reported number of resamples");
        es::check(u.p_value() == v.p_value(), "the reported state reproduces the result");
    } else {
        let x = crate::anova::matrix_of(n, 3, 2);
        let t = RandomizedTukeyHsdTester::new(3).with_n_iters(b);
        let u = t.test(x.iter()).unwrap();
        let v = t.clone().with_random_state(u.random_state()).test(x.iter()).unwrap();
        es::check(v.random_state() == u.random_state(), "the state given is the state reported");
        es::check(u.n_iters() == b.max(1), "reported number of iterations");
        same_matrix(&u, &v);
    }
    es::cover("reproduced");
}

/// the convenience constructors: case 0 bootstrap, 1 randomised Tukey (with one system nothing is
/// random, so the documented 10,000 iterations can be followed)
#[no_mangle]
pub extern "C" fn h_defaults() {
    if es::case() == 0 {
        let r = BootstrapTest::from_paired_samples([(es::real(-9.0, 9.0), 0.0)]);
        es::check(matches!(r, Err(ElinorError::InvalidArgument(_))), "too few samples");
    } else {
        let x = [[es::real(-9.0, 9.0)], [es::real(-9.0, 9.0)]];
        let r = RandomizedTukeyHsdTest::from_tupled_samples(x, 1).unwrap();
        es::check(r.n_iters() == 10000, "10,000 iterations by default");
        es::check(r.p_values() == vec![vec![1.0]], "ones on the diagonal");
    }
    es::cover("defaults");
}
