use elinor::statistical_tests::bootstrap_test::*;
fn main() {
    let t = BootstrapTester::new().with_n_resamples(200).with_random_state(5).test([(1.0, 0.0), (0.0, 1.0), (2.0, 1.0), (1.0, 2.0)]).unwrap();
    assert_eq!(t.p_value(), 1.0);
}
