use elinor::statistical_tests::randomized_tukey_hsd_test::*;
fn main() {
    let a = vec![vec![0.1, 0.9], vec![0.2, 0.7], vec![0.3, 0.95], vec![0.25, 0.8], vec![0.1, 0.6]];
    let b: Vec<Vec<f64>> = a.iter().map(|r| r.iter().map(|x| x - 16.0).collect()).collect();
    let t = |s: &Vec<Vec<f64>>| RandomizedTukeyHsdTester::new(2).with_n_iters(400).with_random_state(7).test(s.clone()).unwrap().p_values()[0][1];
    assert!((t(&a) - t(&b)).abs() < 0.2, "{} {}", t(&a), t(&b));
}
