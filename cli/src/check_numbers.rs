//! Printed numbers.
/// Half of the fourth decimal.
pub const DIGITS: f64 = 5.001e-5;
/// The text of a number the executor holds (others show their digits) has four decimals at least.
pub fn four_decimals(v: &str) -> bool {
    !v.starts_with('<') || vstd::num::parse(v).map_or(false, |x| x.1 >= 4)
}
