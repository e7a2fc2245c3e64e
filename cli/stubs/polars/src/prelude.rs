use std::borrow::Cow;
use std::fmt;
use std::io::Write;
use std::path::PathBuf;
pub use std::sync::Arc;

#[derive(Debug)]
pub enum PolarsError {
    ColumnNotFound(String),
    ComputeError(String),
    Duplicate(String),
    SchemaMismatch(String),
    ShapeMismatch(String),
    NoData(String),
    IO(String),
}
impl fmt::Display for PolarsError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("polars error")
    }
}
impl std::error::Error for PolarsError {}
pub type PolarsResult<T> = Result<T, PolarsError>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct PlSmallStr(String);
impl PlSmallStr {
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn from_str(s: &str) -> Self {
        PlSmallStr(s.to_string())
    }
    pub fn from_static(s: &'static str) -> Self {
        PlSmallStr(s.to_string())
    }
    pub fn from_string(s: String) -> Self {
        PlSmallStr(s)
    }
    pub fn into_string(self) -> String {
        self.0
    }
}
impl From<&str> for PlSmallStr {
    fn from(s: &str) -> Self {
        PlSmallStr(s.to_string())
    }
}
impl From<&String> for PlSmallStr {
    fn from(s: &String) -> Self {
        PlSmallStr(s.clone())
    }
}
impl From<String> for PlSmallStr {
    fn from(s: String) -> Self {
        PlSmallStr(s)
    }
}
impl From<&PlSmallStr> for PlSmallStr {
    fn from(s: &PlSmallStr) -> Self {
        s.clone()
    }
}
impl std::ops::Deref for PlSmallStr {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl AsRef<str> for PlSmallStr {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl std::borrow::Borrow<str> for PlSmallStr {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for PlSmallStr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl PartialEq<str> for PlSmallStr {
    fn eq(&self, o: &str) -> bool {
        self.0 == o
    }
}
impl PartialEq<&str> for PlSmallStr {
    fn eq(&self, o: &&str) -> bool {
        self.0 == *o
    }
}
impl PartialEq<String> for PlSmallStr {
    fn eq(&self, o: &String) -> bool {
        self.0 == *o
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DataType {
    Boolean,
    UInt32,
    UInt64,
    Int32,
    Int64,
    Float64,
    String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum AnyValue<'a> {
    Null,
    Boolean(bool),
    String(&'a str),
    StringOwned(PlSmallStr),
    UInt32(u32),
    UInt64(u64),
    Int32(i32),
    Int64(i64),
    Float64(f64),
}

pub trait NumCast: Sized {
    fn cast(x: f64) -> Option<Self>;
}
impl NumCast for f64 {
    fn cast(x: f64) -> Option<f64> {
        Some(x)
    }
}
impl NumCast for u64 {
    fn cast(x: f64) -> Option<u64> {
        Some(x as u64)
    }
}
impl NumCast for i64 {
    fn cast(x: f64) -> Option<i64> {
        Some(x as i64)
    }
}
impl<'a> AnyValue<'a> {
    pub fn is_null(&self) -> bool {
        matches!(self, AnyValue::Null)
    }
    pub fn is_nan(&self) -> bool {
        matches!(self, AnyValue::Float64(x) if x.is_nan())
    }
    pub fn get_str(&self) -> Option<&str> {
        match self {
            AnyValue::String(x) => Some(x),
            AnyValue::StringOwned(x) => Some(x.as_str()),
            _ => None,
        }
    }
    pub fn extract<T: NumCast>(&self) -> Option<T> {
        match self {
            AnyValue::Float64(x) => T::cast(*x),
            AnyValue::UInt64(x) => T::cast(*x as f64),
            AnyValue::Int64(x) => T::cast(*x as f64),
            _ => None,
        }
    }
    pub fn try_extract<T: NumCast>(&self) -> PolarsResult<T> {
        self.extract().ok_or_else(|| PolarsError::ComputeError("extract".into()))
    }
}
impl fmt::Display for AnyValue<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            AnyValue::Null => f.write_str("null"),
            AnyValue::Boolean(x) => write!(f, "{x}"),
            AnyValue::String(x) => write!(f, "\"{x}\""),
            AnyValue::StringOwned(x) => write!(f, "\"{}\"", x.as_str()),
            AnyValue::UInt32(x) => write!(f, "{x}"),
            AnyValue::UInt64(x) => write!(f, "{x}"),
            AnyValue::Int32(x) => write!(f, "{x}"),
            AnyValue::Int64(x) => write!(f, "{x}"),
            AnyValue::Float64(x) => write!(f, "{x:?}"),
        }
    }
}

#[derive(Clone, Debug)]
enum Data {
    F64(Float64Chunked),
    Str(StringChunked),
    U64(UInt64Chunked),
    I64(Int64Chunked),
}

macro_rules! chunked {
    ($name:ident, $t:ty) => {
        #[derive(Clone, Debug, Default)]
        pub struct $name {
            v: Vec<Option<$t>>,
        }
        impl $name {
            pub fn len(&self) -> usize {
                self.v.len()
            }
            pub fn is_empty(&self) -> bool {
                self.v.is_empty()
            }
            pub fn null_count(&self) -> usize {
                self.v.iter().filter(|x| x.is_none()).count()
            }
        }
    };
}
chunked!(Float64Chunked, f64);
chunked!(StringChunked, String);
chunked!(UInt64Chunked, u64);
chunked!(Int64Chunked, i64);
macro_rules! numeric {
    ($name:ident, $t:ty) => {
        impl $name {
            pub fn get(&self, i: usize) -> Option<$t> {
                self.v.get(i).copied().flatten()
            }
            pub fn first(&self) -> Option<$t> {
                self.get(0)
            }
            pub fn last(&self) -> Option<$t> {
                self.v.last().copied().flatten()
            }
            pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, Option<$t>>> {
                self.v.iter().copied()
            }
            pub fn into_no_null_iter(&self) -> impl ExactSizeIterator<Item = $t> + DoubleEndedIterator + '_ {
                self.v.iter().map(|x| x.unwrap())
            }
            pub fn to_vec(&self) -> Vec<Option<$t>> {
                self.v.clone()
            }
            pub fn from_vec(_: PlSmallStr, v: Vec<$t>) -> $name {
                $name { v: v.into_iter().map(Some).collect() }
            }
            pub fn from_slice(_: PlSmallStr, v: &[$t]) -> $name {
                $name { v: v.iter().copied().map(Some).collect() }
            }
        }
        impl<'a> IntoIterator for &'a $name {
            type Item = Option<$t>;
            type IntoIter = std::iter::Copied<std::slice::Iter<'a, Option<$t>>>;
            fn into_iter(self) -> Self::IntoIter {
                self.v.iter().copied()
            }
        }
    };
}
numeric!(Float64Chunked, f64);
numeric!(UInt64Chunked, u64);
numeric!(Int64Chunked, i64);
macro_rules! collected {
    ($($t:ty => $k:ident($c:ident) $x:ident $e:expr;)*) => { $(
        impl std::iter::FromIterator<$t> for $c {
            fn from_iter<I: IntoIterator<Item = $t>>(i: I) -> $c {
                $c { v: i.into_iter().map(|$x| Some($e)).collect() }
            }
        }
        impl std::iter::FromIterator<Option<$t>> for $c {
            fn from_iter<I: IntoIterator<Item = Option<$t>>>(i: I) -> $c {
                $c { v: i.into_iter().map(|y| y.map(|$x| $e)).collect() }
            }
        }
        impl std::iter::FromIterator<$t> for Series {
            fn from_iter<I: IntoIterator<Item = $t>>(i: I) -> Series {
                Series { name: "".into(), d: Data::$k(i.into_iter().collect()) }
            }
        }
        impl std::iter::FromIterator<Option<$t>> for Series {
            fn from_iter<I: IntoIterator<Item = Option<$t>>>(i: I) -> Series {
                Series { name: "".into(), d: Data::$k(i.into_iter().collect()) }
            }
        }
    )* };
}
collected! {
    f64 => F64(Float64Chunked) x x;
    u64 => U64(UInt64Chunked) x x;
    i64 => I64(Int64Chunked) x x;
    String => Str(StringChunked) x x;
}
impl<'a> std::iter::FromIterator<&'a str> for Series {
    fn from_iter<I: IntoIterator<Item = &'a str>>(i: I) -> Series {
        i.into_iter().map(|x| x.to_string()).collect()
    }
}
pub trait IntoSeries {
    fn into_series(self) -> Series;
}
impl IntoSeries for Series {
    fn into_series(self) -> Series {
        self
    }
}
impl IntoSeries for Float64Chunked {
    fn into_series(self) -> Series {
        Series { name: "".into(), d: Data::F64(self) }
    }
}
impl IntoSeries for UInt64Chunked {
    fn into_series(self) -> Series {
        Series { name: "".into(), d: Data::U64(self) }
    }
}
impl IntoSeries for StringChunked {
    fn into_series(self) -> Series {
        Series { name: "".into(), d: Data::Str(self) }
    }
}
impl Float64Chunked {
    pub fn cont_slice(&self) -> PolarsResult<Vec<f64>> {
        self.v.iter().copied().collect::<Option<Vec<f64>>>().ok_or_else(|| PolarsError::ComputeError("nulls".into()))
    }
    pub fn sum(&self) -> Option<f64> {
        Some(self.v.iter().flatten().sum())
    }
    pub fn mean(&self) -> Option<f64> {
        let n = self.v.len() - self.null_count();
        if n == 0 {
            return None;
        }
        let mut s = 0.0;
        for x in self.v.iter().flatten() {
            s += *x;
        }
        Some(s / n as f64)
    }
}
impl StringChunked {
    pub fn get(&self, i: usize) -> Option<&str> {
        self.v.get(i).and_then(|x| x.as_deref())
    }
    pub fn iter(&self) -> impl ExactSizeIterator<Item = Option<&str>> + '_ {
        self.v.iter().map(|x| x.as_deref())
    }
    pub fn into_no_null_iter(&self) -> impl ExactSizeIterator<Item = &str> + '_ {
        self.v.iter().map(|x| x.as_deref().unwrap())
    }
}
fn deref(x: &Option<String>) -> Option<&str> {
    x.as_deref()
}
impl<'a> IntoIterator for &'a StringChunked {
    type Item = Option<&'a str>;
    type IntoIter = std::iter::Map<std::slice::Iter<'a, Option<String>>, fn(&Option<String>) -> Option<&str>>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.iter().map(deref as fn(&Option<String>) -> Option<&str>)
    }
}

#[derive(Clone, Debug)]
pub struct Series {
    name: PlSmallStr,
    d: Data,
}
pub type Column = Series;

pub trait Values {
    #[doc(hidden)]
    fn data(self) -> Wrapped;
}
#[doc(hidden)]
pub struct Wrapped(Data);
macro_rules! values {
    ($($t:ty => $k:ident($c:ident) $x:ident $e:expr;)*) => { $(
        impl Values for Vec<$t> {
            fn data(self) -> Wrapped { Wrapped(Data::$k($c { v: self.into_iter().map(|$x| Some($e)).collect() })) }
        }
        impl Values for Vec<Option<$t>> {
            fn data(self) -> Wrapped { Wrapped(Data::$k($c { v: self.into_iter().map(|y| y.map(|$x| $e)).collect() })) }
        }
        impl Values for &[$t] {
            fn data(self) -> Wrapped { Wrapped(Data::$k($c { v: self.iter().cloned().map(|$x| Some($e)).collect() })) }
        }
        impl Values for &Vec<$t> {
            fn data(self) -> Wrapped { Wrapped(Data::$k($c { v: self.iter().cloned().map(|$x| Some($e)).collect() })) }
        }
        impl<const N: usize> Values for [$t; N] {
            fn data(self) -> Wrapped { Wrapped(Data::$k($c { v: self.into_iter().map(|$x| Some($e)).collect() })) }
        }
        impl<const N: usize> Values for &[$t; N] {
            fn data(self) -> Wrapped { Wrapped(Data::$k($c { v: self.iter().cloned().map(|$x| Some($e)).collect() })) }
        }
    )* };
}
values! {
    f64 => F64(Float64Chunked) x x;
    u64 => U64(UInt64Chunked) x x;
    u32 => U64(UInt64Chunked) x x as u64;
    i64 => I64(Int64Chunked) x x;
    i32 => I64(Int64Chunked) x x as i64;
    String => Str(StringChunked) x x;
    &str => Str(StringChunked) x x.to_string();
    Cow<'_, str> => Str(StringChunked) x x.into_owned();
}
/// `polars` spells this `NamedFrom`.
pub trait NamedFrom<T> {
    fn new(name: PlSmallStr, v: T) -> Self;
}
impl<T: Values> NamedFrom<T> for Series {
    fn new(name: PlSmallStr, v: T) -> Series {
        Series { name, d: v.data().0 }
    }
}
impl Series {
    pub fn from_vec(name: PlSmallStr, v: Vec<f64>) -> Series {
        Series { name, d: v.data().0 }
    }
    pub fn name(&self) -> &PlSmallStr {
        &self.name
    }
    pub fn len(&self) -> usize {
        match &self.d {
            Data::F64(v) => v.v.len(),
            Data::Str(v) => v.v.len(),
            Data::U64(v) => v.v.len(),
            Data::I64(v) => v.v.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn dtype(&self) -> &DataType {
        match &self.d {
            Data::F64(_) => &DataType::Float64,
            Data::Str(_) => &DataType::String,
            Data::U64(_) => &DataType::UInt64,
            Data::I64(_) => &DataType::Int64,
        }
    }
    pub fn null_count(&self) -> usize {
        (0..self.len()).filter(|i| self.at(*i) == AnyValue::Null).count()
    }
    fn at(&self, i: usize) -> AnyValue<'_> {
        match &self.d {
            Data::F64(v) => v.v[i].map_or(AnyValue::Null, AnyValue::Float64),
            Data::Str(v) => v.v[i].as_ref().map_or(AnyValue::Null, |x| AnyValue::String(x)),
            Data::U64(v) => v.v[i].map_or(AnyValue::Null, AnyValue::UInt64),
            Data::I64(v) => v.v[i].map_or(AnyValue::Null, AnyValue::Int64),
        }
    }
    pub fn get(&self, i: usize) -> PolarsResult<AnyValue<'_>> {
        if i >= self.len() {
            return Err(PolarsError::ComputeError("out of bounds".into()));
        }
        Ok(self.at(i))
    }
    pub fn iter(&self) -> impl Iterator<Item = AnyValue<'_>> + '_ {
        (0..self.len()).map(|i| self.at(i))
    }
    pub fn f64(&self) -> PolarsResult<&Float64Chunked> {
        match &self.d {
            Data::F64(v) => Ok(v),
            _ => Err(PolarsError::SchemaMismatch("expected Float64".into())),
        }
    }
    pub fn str(&self) -> PolarsResult<&StringChunked> {
        match &self.d {
            Data::Str(v) => Ok(v),
            _ => Err(PolarsError::SchemaMismatch("expected String".into())),
        }
    }
    pub fn u64(&self) -> PolarsResult<&UInt64Chunked> {
        match &self.d {
            Data::U64(v) => Ok(v),
            _ => Err(PolarsError::SchemaMismatch("expected UInt64".into())),
        }
    }
    pub fn i64(&self) -> PolarsResult<&Int64Chunked> {
        match &self.d {
            Data::I64(v) => Ok(v),
            _ => Err(PolarsError::SchemaMismatch("expected Int64".into())),
        }
    }
    pub fn cast(&self, t: &DataType) -> PolarsResult<Series> {
        let n = self.len();
        let d = match t {
            DataType::Float64 => Data::F64(Float64Chunked {
                v: (0..n)
                    .map(|i| match self.at(i) {
                        AnyValue::Float64(x) => Some(x),
                        AnyValue::UInt64(x) => Some(x as f64),
                        AnyValue::Int64(x) => Some(x as f64),
                        AnyValue::String(x) => vstd::num::parse(x).map(|x| x.0),
                        _ => None,
                    })
                    .collect(),
            }),
            DataType::String => Data::Str(StringChunked {
                v: (0..n)
                    .map(|i| match self.at(i) {
                        AnyValue::Float64(x) => Some(format!("{x:?}")),
                        AnyValue::UInt64(x) => Some(format!("{x}")),
                        AnyValue::Int64(x) => Some(format!("{x}")),
                        AnyValue::String(x) => Some(x.to_string()),
                        _ => None,
                    })
                    .collect(),
            }),
            _ => return Err(PolarsError::ComputeError("cast".into())),
        };
        Ok(Series { name: self.name.clone(), d })
    }
    pub fn sum<T: NumCast>(&self) -> PolarsResult<T> {
        let s = self.cast(&DataType::Float64)?;
        T::cast(s.f64()?.sum().unwrap()).ok_or_else(|| PolarsError::ComputeError("sum".into()))
    }
    pub fn str_value(&self, i: usize) -> PolarsResult<Cow<'_, str>> {
        Ok(match self.get(i)? {
            AnyValue::String(x) => Cow::Borrowed(x),
            x => Cow::Owned(format!("{x}")),
        })
    }
    pub fn slice(&self, offset: i64, length: usize) -> Series {
        let n = self.len();
        let at = if offset < 0 { n.saturating_sub((-offset) as usize) } else { n.min(offset as usize) };
        let idx: Vec<_> = (at..n.min(at + length)).map(Some).collect();
        self.take(&idx)
    }
    pub fn head(&self, n: Option<usize>) -> Series {
        self.slice(0, n.unwrap_or(10))
    }
    pub fn tail(&self, n: Option<usize>) -> Series {
        let n = n.unwrap_or(10).min(self.len());
        self.slice((self.len() - n) as i64, n)
    }
    pub fn into_frame(self) -> DataFrame {
        DataFrame { columns: vec![self] }
    }
    pub fn to_float(&self) -> PolarsResult<Series> {
        self.cast(&DataType::Float64)
    }
    pub fn strict_cast(&self, t: &DataType) -> PolarsResult<Series> {
        self.cast(t)
    }
    pub fn mean(&self) -> Option<f64> {
        match self.cast(&DataType::Float64) {
            Ok(s) => s.f64().unwrap().mean(),
            _ => None,
        }
    }
    pub fn rename(&mut self, name: PlSmallStr) -> &mut Series {
        self.name = name;
        self
    }
    pub fn with_name(mut self, name: PlSmallStr) -> Series {
        self.name = name;
        self
    }
    pub fn as_materialized_series(&self) -> &Series {
        self
    }
    pub fn into_column(self) -> Series {
        self
    }
    fn take(&self, idx: &[Option<usize>]) -> Series {
        fn t<T: Clone>(v: &[Option<T>], idx: &[Option<usize>]) -> Vec<Option<T>> {
            idx.iter().map(|i| i.and_then(|i| v[i].clone())).collect()
        }
        let d = match &self.d {
            Data::F64(v) => Data::F64(Float64Chunked { v: t(&v.v, idx) }),
            Data::Str(v) => Data::Str(StringChunked { v: t(&v.v, idx) }),
            Data::U64(v) => Data::U64(UInt64Chunked { v: t(&v.v, idx) }),
            Data::I64(v) => Data::I64(Int64Chunked { v: t(&v.v, idx) }),
        };
        Series { name: self.name.clone(), d }
    }
    fn same(&self, i: usize, o: &Series, j: usize) -> bool {
        match (self.at(i), o.at(j)) {
            (AnyValue::Null, _) | (_, AnyValue::Null) => false,
            (a, b) => a == b,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct DataFrame {
    columns: Vec<Series>,
}
impl DataFrame {
    pub fn new(columns: Vec<Series>) -> PolarsResult<DataFrame> {
        for (i, c) in columns.iter().enumerate() {
            if c.len() != columns[0].len() {
                return Err(PolarsError::ShapeMismatch("lengths".into()));
            }
            if columns[..i].iter().any(|x| x.name == c.name) {
                return Err(PolarsError::Duplicate(c.name.to_string()));
            }
        }
        Ok(DataFrame { columns })
    }
    pub fn get_columns(&self) -> &[Series] {
        &self.columns
    }
    pub fn get_column_names(&self) -> Vec<&PlSmallStr> {
        self.columns.iter().map(|c| &c.name).collect()
    }
    pub fn get_column_names_str(&self) -> Vec<&str> {
        self.columns.iter().map(|c| c.name.as_str()).collect()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, Series> {
        self.columns.iter()
    }
    pub fn height(&self) -> usize {
        self.columns.first().map_or(0, |c| c.len())
    }
    pub fn width(&self) -> usize {
        self.columns.len()
    }
    pub fn shape(&self) -> (usize, usize) {
        (self.height(), self.width())
    }
    pub fn is_empty(&self) -> bool {
        self.height() == 0
    }
    pub fn column(&self, name: &str) -> PolarsResult<&Series> {
        self.columns.iter().find(|c| c.name == *name).ok_or_else(|| PolarsError::ColumnNotFound(name.to_string()))
    }
    pub fn columns<I, S>(&self, names: I) -> PolarsResult<Vec<&Series>>
    where
        I: IntoIterator<Item = S>,
        S: AsRef<str>,
    {
        names.into_iter().map(|n| self.column(n.as_ref())).collect()
    }
    pub fn take_columns(self) -> Vec<Series> {
        self.columns
    }
    pub fn get_column_names_owned(&self) -> Vec<PlSmallStr> {
        self.columns.iter().map(|c| c.name.clone()).collect()
    }
    pub fn get_column_index(&self, name: &str) -> Option<usize> {
        self.columns.iter().position(|c| c.name == *name)
    }
    pub fn try_get_column_index(&self, name: &str) -> PolarsResult<usize> {
        self.get_column_index(name).ok_or_else(|| PolarsError::ColumnNotFound(name.to_string()))
    }
    pub fn set_column_names<I, S>(&mut self, names: I) -> PolarsResult<()>
    where
        I: IntoIterator<Item = S>,
        S: Into<PlSmallStr>,
    {
        let v: Vec<PlSmallStr> = names.into_iter().map(|n| n.into()).collect();
        if v.len() != self.columns.len() {
            return Err(PolarsError::ShapeMismatch("names".into()));
        }
        for (i, n) in v.iter().enumerate() {
            if v[..i].contains(n) {
                return Err(PolarsError::Duplicate(n.to_string()));
            }
        }
        for (c, n) in self.columns.iter_mut().zip(v) {
            c.name = n;
        }
        Ok(())
    }
    pub fn dtypes(&self) -> Vec<DataType> {
        self.columns.iter().map(|c| *c.dtype()).collect()
    }
    pub fn get(&self, i: usize) -> Option<Vec<AnyValue<'_>>> {
        if i >= self.height() {
            return None;
        }
        Some(self.columns.iter().map(|c| c.at(i)).collect())
    }
    pub fn hstack(&self, columns: &[Series]) -> PolarsResult<DataFrame> {
        let mut v = self.columns.clone();
        v.extend(columns.iter().cloned());
        DataFrame::new(v)
    }
    pub fn drop_in_place(&mut self, name: &str) -> PolarsResult<Series> {
        let i = self.try_get_column_index(name)?;
        Ok(self.columns.remove(i))
    }
    pub fn drop_many<I, S>(&self, names: I) -> DataFrame
    where
        I: IntoIterator<Item = S>,
        S: Into<PlSmallStr>,
    {
        let v: Vec<PlSmallStr> = names.into_iter().map(|n| n.into()).collect();
        DataFrame { columns: self.columns.iter().filter(|c| !v.contains(&c.name)).cloned().collect() }
    }
    pub fn slice(&self, offset: i64, length: usize) -> DataFrame {
        DataFrame { columns: self.columns.iter().map(|c| c.slice(offset, length)).collect() }
    }
    pub fn tail(&self, n: Option<usize>) -> DataFrame {
        DataFrame { columns: self.columns.iter().map(|c| c.tail(n)).collect() }
    }
    pub fn select_at_idx(&self, i: usize) -> Option<&Series> {
        self.columns.get(i)
    }
    pub fn select<I, S>(&self, names: I) -> PolarsResult<DataFrame>
    where
        I: IntoIterator<Item = S>,
        S: Into<PlSmallStr>,
    {
        let mut v = vec![];
        for n in names {
            v.push(self.column(n.into().as_str())?.clone());
        }
        DataFrame::new(v)
    }
    pub fn drop(&self, name: &str) -> PolarsResult<DataFrame> {
        self.column(name)?;
        DataFrame::new(self.columns.iter().filter(|c| c.name != *name).cloned().collect())
    }
    pub fn with_column(&mut self, s: Series) -> PolarsResult<&mut DataFrame> {
        match self.columns.iter_mut().find(|c| c.name == s.name) {
            Some(c) => *c = s,
            None => self.columns.push(s),
        }
        Ok(self)
    }
    pub fn rename(&mut self, old: &str, new: PlSmallStr) -> PolarsResult<&mut DataFrame> {
        self.column(old)?;
        for c in &mut self.columns {
            if c.name == *old {
                c.name = new.clone();
            }
        }
        Ok(self)
    }
    pub fn head(&self, n: Option<usize>) -> DataFrame {
        let n = n.unwrap_or(10).min(self.height());
        let idx: Vec<_> = (0..n).map(Some).collect();
        DataFrame { columns: self.columns.iter().map(|c| c.take(&idx)).collect() }
    }
    fn sorted(&self, by: &str, descending: bool) -> PolarsResult<DataFrame> {
        let k = self.column(by)?;
        let mut idx: Vec<usize> = (0..self.height()).collect();
        // insertion: stable
        for i in 1..idx.len() {
            let mut j = i;
            while j > 0 {
                let (a, b) = (k.at(idx[j - 1]), k.at(idx[j]));
                let less = match (a, b) {
                    (AnyValue::String(a), AnyValue::String(b)) => b < a,
                    (AnyValue::Float64(a), AnyValue::Float64(b)) => b < a,
                    (AnyValue::Int64(a), AnyValue::Int64(b)) => b < a,
                    (AnyValue::UInt64(a), AnyValue::UInt64(b)) => b < a,
                    _ => false,
                };
                let equal = k.at(idx[j - 1]) == k.at(idx[j]);
                if if descending { less || equal } else { !less } {
                    break;
                }
                idx.swap(j - 1, j);
                j -= 1;
            }
        }
        let idx: Vec<_> = idx.into_iter().map(Some).collect();
        Ok(DataFrame { columns: self.columns.iter().map(|c| c.take(&idx)).collect() })
    }
    pub fn sort<I, S>(&self, by: I, o: SortMultipleOptions) -> PolarsResult<DataFrame>
    where
        I: IntoIterator<Item = S>,
        S: Into<PlSmallStr>,
    {
        let by: Vec<PlSmallStr> = by.into_iter().map(|x| x.into()).collect();
        let mut d = self.clone();
        for b in by.iter().rev() {
            d = d.sorted(b.as_str(), o.descending)?;
        }
        Ok(d)
    }
    fn joined(&self, o: &DataFrame, l: &[&str], r: &[&str], how: &JoinType) -> PolarsResult<DataFrame> {
        let mut keys = vec![];
        if l.len() != r.len() {
            return Err(PolarsError::ComputeError("keys".into()));
        }
        for (a, b) in l.iter().zip(r) {
            let (a, b) = (self.column(a)?, o.column(b)?);
            if a.dtype() != b.dtype() {
                return Err(PolarsError::SchemaMismatch("key types".into()));
            }
            keys.push((a, b));
        }
        let (mut li, mut ri) = (vec![], vec![]);
        for i in 0..self.height() {
            let before = li.len();
            for j in 0..o.height() {
                if keys.iter().all(|(a, b)| a.same(i, b, j)) {
                    li.push(Some(i));
                    ri.push(Some(j));
                }
            }
            if li.len() == before && *how != JoinType::Inner {
                li.push(Some(i));
                ri.push(None);
            }
        }
        if *how == JoinType::Full {
            return Err(PolarsError::ComputeError("a full join is outside the model".into()));
        }
        let mut v: Vec<Series> = self.columns.iter().map(|c| c.take(&li)).collect();
        for c in &o.columns {
            if r.iter().any(|n| c.name == **n) {
                continue;
            }
            let mut c = c.take(&ri);
            if v.iter().any(|x| x.name == c.name) {
                c.name = PlSmallStr(format!("{}_right", c.name));
            }
            v.push(c);
        }
        DataFrame::new(v)
    }
    pub fn join<I, S, J, T>(&self, o: &DataFrame, l: I, r: J, args: JoinArgs) -> PolarsResult<DataFrame>
    where
        I: IntoIterator<Item = S>,
        S: AsRef<str>,
        J: IntoIterator<Item = T>,
        T: AsRef<str>,
    {
        let l: Vec<String> = l.into_iter().map(|x| x.as_ref().to_string()).collect();
        let r: Vec<String> = r.into_iter().map(|x| x.as_ref().to_string()).collect();
        let l: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
        let r: Vec<&str> = r.iter().map(|x| x.as_str()).collect();
        self.joined(o, &l, &r, &args.how)
    }
    pub fn left_join<I, S, J, T>(&self, o: &DataFrame, l: I, r: J) -> PolarsResult<DataFrame>
    where
        I: IntoIterator<Item = S>,
        S: AsRef<str>,
        J: IntoIterator<Item = T>,
        T: AsRef<str>,
    {
        self.join(o, l, r, JoinArgs::new(JoinType::Left))
    }
    pub fn inner_join<I, S, J, T>(&self, o: &DataFrame, l: I, r: J) -> PolarsResult<DataFrame>
    where
        I: IntoIterator<Item = S>,
        S: AsRef<str>,
        J: IntoIterator<Item = T>,
        T: AsRef<str>,
    {
        self.join(o, l, r, JoinArgs::new(JoinType::Inner))
    }
}
impl std::ops::Index<&str> for DataFrame {
    type Output = Series;
    fn index(&self, n: &str) -> &Series {
        self.column(n).unwrap()
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct SortMultipleOptions {
    pub descending: bool,
}
impl SortMultipleOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_order_descending(mut self, x: bool) -> Self {
        self.descending = x;
        self
    }
    pub fn with_maintain_order(self, _: bool) -> Self {
        self
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum JoinType {
    Inner,
    Left,
    Full,
}
#[derive(Clone, Debug)]
pub struct JoinArgs {
    pub how: JoinType,
}
impl JoinArgs {
    pub fn new(how: JoinType) -> JoinArgs {
        JoinArgs { how }
    }
}
impl JoinType {
    #[allow(non_upper_case_globals)]
    pub const Outer: JoinType = JoinType::Full;
}
impl From<JoinType> for JoinArgs {
    fn from(how: JoinType) -> JoinArgs {
        JoinArgs { how }
    }
}

#[derive(Clone, Debug)]
pub enum Expr {
    Column(PlSmallStr),
    Columns(Vec<PlSmallStr>),
    Sum(Box<Expr>),
    Alias(Box<Expr>, PlSmallStr),
    Mean(Box<Expr>),
    Exclude(Box<Expr>, Vec<PlSmallStr>),
    Cast(Box<Expr>, DataType),
}
pub fn col<S: Into<PlSmallStr>>(n: S) -> Expr {
    Expr::Column(n.into())
}
pub fn cols<I, S>(names: I) -> Expr
where
    I: IntoIterator<Item = S>,
    S: Into<PlSmallStr>,
{
    Expr::Columns(names.into_iter().map(|n| n.into()).collect())
}
pub fn all() -> Expr {
    col("*")
}
pub trait Excluded {
    fn names(self) -> Vec<PlSmallStr>;
}
impl Excluded for &str {
    fn names(self) -> Vec<PlSmallStr> {
        vec![self.into()]
    }
}
impl<S: Into<PlSmallStr>> Excluded for Vec<S> {
    fn names(self) -> Vec<PlSmallStr> {
        self.into_iter().map(|x| x.into()).collect()
    }
}
impl<S: Into<PlSmallStr>, const N: usize> Excluded for [S; N] {
    fn names(self) -> Vec<PlSmallStr> {
        self.into_iter().map(|x| x.into()).collect()
    }
}
impl Expr {
    pub fn alias<S: Into<PlSmallStr>>(self, n: S) -> Expr {
        Expr::Alias(Box::new(self), n.into())
    }
    pub fn sum(self) -> Expr {
        Expr::Sum(Box::new(self))
    }
    pub fn mean(self) -> Expr {
        Expr::Mean(Box::new(self))
    }
    pub fn exclude<X: Excluded>(self, n: X) -> Expr {
        Expr::Exclude(Box::new(self), n.names())
    }
    pub fn cast(self, t: DataType) -> Expr {
        Expr::Cast(Box::new(self), t)
    }
    fn eval(&self, d: &DataFrame) -> PolarsResult<Vec<Series>> {
        Ok(match self {
            Expr::Column(n) if n == "*" => d.columns.clone(),
            Expr::Column(n) => vec![d.column(n)?.clone()],
            Expr::Columns(n) => {
                let mut v = vec![];
                for n in n {
                    v.push(d.column(n)?.clone());
                }
                v
            }
            Expr::Sum(e) => {
                let mut v = vec![];
                for c in e.eval(d)? {
                    v.push(Series { name: c.name.clone(), d: Data::F64(Float64Chunked { v: vec![Some(c.sum::<f64>()?)] }) });
                }
                v
            }
            Expr::Alias(e, n) => e.eval(d)?.into_iter().map(|c| c.with_name(n.clone())).collect(),
            Expr::Mean(e) => e
                .eval(d)?
                .into_iter()
                .map(|c| Series { name: c.name.clone(), d: Data::F64(Float64Chunked { v: vec![c.mean()] }) })
                .collect(),
            Expr::Exclude(e, n) => e.eval(d)?.into_iter().filter(|c| !n.contains(&c.name)).collect(),
            Expr::Cast(e, t) => {
                let mut v = vec![];
                for c in e.eval(d)? {
                    v.push(c.cast(t)?);
                }
                v
            }
        })
    }
    fn key(&self) -> String {
        match self {
            Expr::Column(n) => n.to_string(),
            Expr::Columns(n) => n[0].to_string(),
            Expr::Sum(e) | Expr::Alias(e, _) | Expr::Mean(e) | Expr::Exclude(e, _) | Expr::Cast(e, _) => e.key(),
        }
    }
}

#[derive(Debug)]
pub struct LazyFrame(PolarsResult<DataFrame>);
impl Clone for LazyFrame {
    fn clone(&self) -> LazyFrame {
        match &self.0 {
            Ok(d) => LazyFrame(Ok(d.clone())),
            Err(_) => LazyFrame(Err(PolarsError::ComputeError("earlier".into()))),
        }
    }
}
pub trait IntoLazy {
    fn lazy(self) -> LazyFrame;
}
impl IntoLazy for DataFrame {
    fn lazy(self) -> LazyFrame {
        LazyFrame(Ok(self))
    }
}
impl IntoLazy for LazyFrame {
    fn lazy(self) -> LazyFrame {
        self
    }
}
impl LazyFrame {
    fn then(self, f: impl FnOnce(DataFrame) -> PolarsResult<DataFrame>) -> LazyFrame {
        LazyFrame(self.0.and_then(f))
    }
    pub fn collect(self) -> PolarsResult<DataFrame> {
        self.0
    }
    pub fn select<E: AsRef<[Expr]>>(self, e: E) -> LazyFrame {
        self.then(|d| {
            let mut v = vec![];
            for x in e.as_ref() {
                v.extend(x.eval(&d)?);
            }
            // a single value is repeated
            let n = v.iter().map(|c| c.len()).max().unwrap_or(0);
            let v = v
                .into_iter()
                .map(|c| if c.len() == 1 && n > 1 { c.take(&vec![Some(0); n]) } else { c })
                .collect();
            DataFrame::new(v)
        })
    }
    pub fn with_columns<E: AsRef<[Expr]>>(self, e: E) -> LazyFrame {
        self.then(|mut d| {
            let mut v = vec![];
            for x in e.as_ref() {
                v.extend(x.eval(&d)?);
            }
            for c in v {
                d.with_column(c)?;
            }
            Ok(d)
        })
    }
    pub fn rename<I, J, S, T>(self, old: I, new: J, _strict: bool) -> LazyFrame
    where
        I: IntoIterator<Item = S>,
        J: IntoIterator<Item = T>,
        S: AsRef<str>,
        T: AsRef<str>,
    {
        self.then(|mut d| {
            for (o, n) in old.into_iter().zip(new) {
                d.rename(o.as_ref(), n.as_ref().into())?;
            }
            Ok(d)
        })
    }
    pub fn with_column(self, e: Expr) -> LazyFrame {
        self.with_columns([e])
    }
    pub fn mean(self) -> LazyFrame {
        self.select([col("*").mean()])
    }
    pub fn sort<I, S>(self, by: I, o: SortMultipleOptions) -> LazyFrame
    where
        I: IntoIterator<Item = S>,
        S: Into<PlSmallStr>,
    {
        self.then(|d| d.sort(by, o))
    }
    pub fn join<E: AsRef<[Expr]>>(self, o: LazyFrame, l: E, r: E, args: JoinArgs) -> LazyFrame {
        self.then(|d| {
            let o = o.0?;
            let l: Vec<String> = l.as_ref().iter().map(|e| e.key()).collect();
            let r: Vec<String> = r.as_ref().iter().map(|e| e.key()).collect();
            d.join(&o, l, r, args)
        })
    }
    pub fn left_join<A: Into<Expr>, B: Into<Expr>>(self, o: LazyFrame, l: A, r: B) -> LazyFrame {
        self.join(o, [l.into()], [r.into()], JoinArgs::new(JoinType::Left))
    }
    pub fn inner_join<A: Into<Expr>, B: Into<Expr>>(self, o: LazyFrame, l: A, r: B) -> LazyFrame {
        self.join(o, [l.into()], [r.into()], JoinArgs::new(JoinType::Inner))
    }
}
impl From<&str> for Expr {
    fn from(n: &str) -> Expr {
        col(n)
    }
}

// CSV

pub trait SerWriter<W> {
    fn new(w: W) -> Self;
    fn finish(&mut self, d: &mut DataFrame) -> PolarsResult<()>;
}
pub struct CsvWriter<W> {
    w: W,
    separator: u8,
    header: bool,
    precision: Option<usize>,
}
impl<W: Write> SerWriter<W> for CsvWriter<W> {
    fn new(w: W) -> Self {
        CsvWriter { w, separator: b',', header: true, precision: None }
    }
    fn finish(&mut self, d: &mut DataFrame) -> PolarsResult<()> {
        let s = self.separator as char;
        let mut t = String::new();
        if self.header {
            for (i, c) in d.columns.iter().enumerate() {
                if i > 0 {
                    t.push(s);
                }
                quoted(&mut t, &c.name, s);
            }
            t.push('\n');
        }
        for r in 0..d.height() {
            for (i, c) in d.columns.iter().enumerate() {
                if i > 0 {
                    t.push(s);
                }
                match c.at(r) {
                    AnyValue::String(x) => quoted(&mut t, x, s),
                    AnyValue::Float64(x) => match self.precision {
                        Some(p) => t.push_str(&format!("{x:.p$}")),
                        None => t.push_str(&format!("{x:?}")),
                    },
                    AnyValue::UInt64(x) => t.push_str(&format!("{x}")),
                    AnyValue::Int64(x) => t.push_str(&format!("{x}")),
                    _ => {}
                }
            }
            t.push('\n');
        }
        self.w.write_all(t.as_bytes()).map_err(|_| PolarsError::IO("write".into()))
    }
}
fn quoted(t: &mut String, x: &str, s: char) {
    if !x.is_empty() && !x.chars().any(|c| c == s || c == '"' || c == '\n' || c == '\r') {
        t.push_str(x);
        return;
    }
    t.push('"');
    for c in x.chars() {
        if c == '"' {
            t.push('"');
        }
        t.push(c);
    }
    t.push('"');
}
impl<W: Write> CsvWriter<W> {
    pub fn with_separator(mut self, s: u8) -> Self {
        self.separator = s;
        self
    }
    pub fn include_header(mut self, h: bool) -> Self {
        self.header = h;
        self
    }
    pub fn with_float_precision(mut self, p: Option<usize>) -> Self {
        self.precision = p;
        self
    }
}

#[derive(Clone, Debug)]
pub struct CsvParseOptions {
    pub separator: u8,
    pub quote_char: Option<u8>,
    pub eol_char: u8,
    pub try_parse_dates: bool,
}
impl Default for CsvParseOptions {
    fn default() -> Self {
        CsvParseOptions { separator: b',', quote_char: Some(b'"'), eol_char: b'\n', try_parse_dates: false }
    }
}
impl CsvParseOptions {
    pub fn with_separator(mut self, s: u8) -> Self {
        self.separator = s;
        self
    }
}
#[derive(Clone, Debug)]
pub struct CsvReadOptions {
    parse: CsvParseOptions,
    has_header: bool,
    infer: Option<usize>,
    overwrite: Option<Arc<Vec<DataType>>>,
    schema: Option<Arc<Schema>>,
}
impl Default for CsvReadOptions {
    fn default() -> Self {
        CsvReadOptions { parse: Default::default(), has_header: true, infer: Some(100), overwrite: None, schema: None }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Schema(Vec<(PlSmallStr, DataType)>);
#[derive(Clone, Debug)]
pub struct Field(PlSmallStr, DataType);
impl Field {
    pub fn new(n: PlSmallStr, t: DataType) -> Field {
        Field(n, t)
    }
}
impl std::iter::FromIterator<Field> for Schema {
    fn from_iter<I: IntoIterator<Item = Field>>(i: I) -> Schema {
        Schema(i.into_iter().map(|f| (f.0, f.1)).collect())
    }
}
pub type SchemaRef = Arc<Schema>;
pub struct CsvReader {
    o: CsvReadOptions,
    path: PathBuf,
}
impl CsvReadOptions {
    pub fn with_parse_options(mut self, p: CsvParseOptions) -> Self {
        self.parse = p;
        self
    }
    pub fn map_parse_options<F: Fn(CsvParseOptions) -> CsvParseOptions>(mut self, f: F) -> Self {
        self.parse = f(self.parse);
        self
    }
    pub fn with_has_header(mut self, h: bool) -> Self {
        self.has_header = h;
        self
    }
    pub fn with_infer_schema_length(mut self, n: Option<usize>) -> Self {
        self.infer = n;
        self
    }
    pub fn with_dtype_overwrite(mut self, o: Option<Arc<Vec<DataType>>>) -> Self {
        self.overwrite = o;
        self
    }
    pub fn with_schema_overwrite(mut self, o: Option<SchemaRef>) -> Self {
        self.schema = o;
        self
    }
    pub fn try_into_reader_with_file_path(self, p: Option<PathBuf>) -> PolarsResult<CsvReader> {
        match p {
            Some(path) => Ok(CsvReader { o: self, path }),
            None => Err(PolarsError::NoData("no path".into())),
        }
    }
}
pub trait SerReader {
    fn finish(self) -> PolarsResult<DataFrame>;
}
fn fields(text: &str, sep: char) -> Vec<Vec<(String, bool)>> {
    let mut rows = vec![];
    let (mut row, mut f, mut inq, mut wasq) = (vec![], String::new(), false, false);
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        if inq {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    f.push('"');
                } else {
                    inq = false;
                }
            } else {
                f.push(c);
            }
        } else if c == '"' && f.is_empty() {
            inq = true;
            wasq = true;
        } else if c == sep {
            row.push((std::mem::take(&mut f), std::mem::take(&mut wasq)));
        } else if c == '\n' {
            row.push((std::mem::take(&mut f), std::mem::take(&mut wasq)));
            rows.push(std::mem::take(&mut row));
        } else {
            f.push(c);
        }
    }
    if !f.is_empty() || !row.is_empty() {
        row.push((f, wasq));
        rows.push(row);
    }
    rows
}
fn integer(x: &str) -> Option<i64> {
    let d = x.strip_prefix('-').or(x.strip_prefix('+')).unwrap_or(x);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    x.parse().ok()
}
fn float(x: &str) -> Option<f64> {
    if !x.starts_with('<') && !x.bytes().all(|c| c.is_ascii_digit() || c == b'.' || c == b'-' || c == b'+' || c == b'e' || c == b'E')
        && x != "inf" && x != "NaN" && x != "-inf"
    {
        return None;
    }
    vstd::num::parse(x).map(|x| x.0)
}
impl SerReader for CsvReader {
    fn finish(self) -> PolarsResult<DataFrame> {
        let name = self.path.to_str().unwrap();
        let Some(text) = vstd::world().get(name) else { return Err(PolarsError::IO("no such file".into())) };
        let text = std::str::from_utf8(text).map_err(|_| PolarsError::ComputeError("utf-8".into()))?;
        let mut rows = fields(text, self.o.parse.separator as char);
        if rows.is_empty() {
            return Err(PolarsError::NoData("empty CSV".into()));
        }
        let header = if self.o.has_header {
            rows.remove(0).into_iter().map(|x| x.0).collect::<Vec<_>>()
        } else {
            (0..rows[0].len()).map(|i| format!("column_{}", i + 1)).collect()
        };
        let mut v = vec![];
        for (i, h) in header.iter().enumerate() {
            let mut cells: Vec<Option<&str>> = vec![];
            for r in &rows {
                match r.get(i) {
                    Some((x, q)) if !x.is_empty() || *q => cells.push(Some(x.as_str())),
                    _ => cells.push(None),
                }
                if r.len() > header.len() {
                    return Err(PolarsError::ComputeError("more fields than columns".into()));
                }
            }
            let told = self.o.overwrite.as_ref().and_then(|o| o.get(i).copied()).or_else(|| {
                self.o.schema.as_ref().and_then(|s| s.0.iter().find(|x| x.0 == *h).map(|x| x.1))
            });
            let n = self.o.infer.unwrap_or(usize::MAX).min(cells.len());
            let seen = || cells[..n].iter().flatten();
            let t = match told {
                Some(t) => t,
                None if n == 0 || seen().count() == 0 => DataType::String,
                None if seen().all(|x| integer(x).is_some()) => DataType::Int64,
                None if seen().all(|x| float(x).is_some()) => DataType::Float64,
                None => DataType::String,
            };
            let bad = || PolarsError::ComputeError("could not parse".into());
            let d = match t {
                DataType::String => Data::Str(StringChunked { v: cells.iter().map(|x| x.map(|x| x.to_string())).collect() }),
                DataType::Int64 => {
                    let mut v = vec![];
                    for c in &cells {
                        v.push(match c {
                            Some(x) => Some(integer(x).ok_or_else(bad)?),
                            None => None,
                        });
                    }
                    Data::I64(Int64Chunked { v })
                }
                DataType::Float64 => {
                    let mut v = vec![];
                    for c in &cells {
                        v.push(match c {
                            Some(x) => Some(float(x).ok_or_else(bad)?),
                            None => None,
                        });
                    }
                    Data::F64(Float64Chunked { v })
                }
                _ => return Err(PolarsError::ComputeError("type".into())),
            };
            v.push(Series { name: PlSmallStr(h.clone()), d });
        }
        DataFrame::new(v)
    }
}

pub use crate::df;
