//! The command line tools, in a modelled environment: `gen/` holds the current
//! sources of /repo/elinor-cli/src (written by check.py), `std::fs` and the
//! printing macros are those of `vstd`, `polars`, `prettytable` and `anyhow`
//! are contracts, and clap is the real one.
#[macro_use]
extern crate vstd as std;
extern crate self as elinor_cli;
#[macro_use]
mod macros;

#[path = "../gen/lib.rs"]
#[allow(warnings)]
mod cli_lib;
pub use cli_lib::*;
#[cfg(feature = "convert")]
#[path = "../gen/bin/convert.rs"]
#[allow(warnings)]
mod convert;
#[cfg(feature = "evaluate")]
#[path = "../gen/bin/evaluate.rs"]
#[allow(warnings)]
mod evaluate;
#[cfg(feature = "compare")]
#[path = "../gen/bin/compare.rs"]
#[allow(warnings)]
mod compare;
#[path = "../../harness/src/es.rs"]
mod es;
mod check_numbers;
#[cfg(feature = "convert")]
mod check_convert;
#[cfg(feature = "evaluate")]
mod check_evaluate;
#[cfg(feature = "compare")]
mod check_compare;

/// What a `main` gives.
pub trait Outcome {
    fn ok(self) -> bool;
}
impl Outcome for () {
    fn ok(self) -> bool {
        true
    }
}
impl<T, E> Outcome for Result<T, E> {
    fn ok(self) -> bool {
        self.is_ok()
    }
}
