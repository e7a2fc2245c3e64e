use elinor::statistical_tests::bootstrap_test::*;
fn main() {
    let t = BootstrapTester::new().with_n_resamples(20).with_random_state(0).test([(1.0, 0.0), (0.0, 1.5), (2.0, 1.0)]).unwrap();
    assert_eq!(t.random_state(), 0);
}
