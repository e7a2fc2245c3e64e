//! The real clap, except that `parse` takes the arguments of the recorded world.
pub use real_clap::*;
pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        Self::parse_from(::std::iter::once("tool").chain(vstd::world().args.iter().map(|x| x.as_str())))
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(::std::iter::once("tool").chain(vstd::world().args.iter().map(|x| x.as_str())))
    }
    fn parse_from<I, T>(i: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<::std::ffi::OsString> + Clone,
    {
        match Self::try_parse_from(i) {
            Ok(x) => x,
            Err(_) => panic!("the arguments are rejected"),
        }
    }
    fn try_parse_from<I, T>(i: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<::std::ffi::OsString> + Clone,
    {
        let mut m = <Self as CommandFactory>::command().try_get_matches_from(i)?;
        <Self as FromArgMatches>::from_arg_matches_mut(&mut m)
    }
}
