use elinor::statistical_tests::*;
fn main() {
    let s = vec![vec![10.0, 2.0], vec![2.0, 25.0], vec![4.0, 1.0]];
    let a = TwoWayAnovaWithoutReplication::from_tupled_samples(s.clone(), 2).unwrap();
    let m = s.iter().flatten().sum::<f64>() / 6.0;
    let tot: f64 = s.iter().flatten().map(|x| (x - m) * (x - m)).sum();
    assert!((a.between_system_variation() + a.between_topic_variation() + a.residual_variation() - tot).abs() < 1e-6);
}
