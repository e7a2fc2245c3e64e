//! Contract of the part of `polars` the command line tools use: frames of named
//! columns, CSV text, selection, left and inner joins, means.
pub mod prelude;

#[macro_export]
macro_rules! df {
    ($($name:expr => $values:expr),+ $(,)?) => {
        $crate::prelude::DataFrame::new(vec![$(<$crate::prelude::Series as $crate::prelude::NamedFrom<_>>::new($name.into(), $values)),+])
    };
}
