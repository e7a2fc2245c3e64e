use elinor::statistical_tests::*;
fn main() {
    let s = vec![vec![1.0, 2.0], vec![2.0, 2.5], vec![4.0, 1.0]];
    let a = TwoWayAnovaWithoutReplication::from_tupled_samples(s, 2).unwrap();
    assert!(a.margin_of_error(0.9).unwrap() < a.margin_of_error(0.6).unwrap() - 1e-6);
    assert!(a.margin_of_error(1.0).unwrap().abs() < 1e-9);
}
