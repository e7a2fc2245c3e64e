pub mod prelude {
    pub use polars::prelude::*;
}
