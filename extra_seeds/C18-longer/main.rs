use elinor::statistical_tests::*;
fn main() {
    assert!(TwoWayAnovaWithoutReplication::from_tupled_samples([vec![1.0, 2.0, 9.0], vec![2.0, 2.5, 9.0], vec![4.0, 1.0, 1.0]], 2).is_err());
}
