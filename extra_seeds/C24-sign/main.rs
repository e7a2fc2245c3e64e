use elinor::statistical_tests::*;
fn main() {
    let s = vec![vec![1e-7, 2e-7], vec![2e-7, 6e-7], vec![4e-7, 5e-7]];
    let t = TukeyHsdTest::from_tupled_samples(s, 2).unwrap();
    assert!(t.effect_sizes()[0][1].abs() > 0.1);
}
