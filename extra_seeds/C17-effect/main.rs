use elinor::statistical_tests::*;
fn main() {
    let t = StudentTTest::from_paired_samples([(1e-4, 0.0), (2e-4, 0.0), (4e-4, 0.0)]).unwrap();
    assert!((t.effect_size() - t.mean() / t.variance().sqrt()).abs() < 1e-9);
}
