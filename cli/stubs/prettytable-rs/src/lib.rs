//! Contract of `prettytable`: a table prints its titles and rows in order. The
//! model prints each as one tab-separated line.
#[derive(Clone, Debug, Default)]
pub struct Cell(String);
#[derive(Clone, Debug, Default)]
pub struct Row(Vec<Cell>);
#[derive(Clone, Debug, Default)]
pub struct Table {
    titles: Option<Row>,
    rows: Vec<Row>,
}
impl Cell {
    pub fn new(s: &str) -> Cell {
        Cell(s.to_string())
    }
    pub fn get_content(&self) -> String {
        self.0.clone()
    }
    pub fn new_align(s: &str, _: format::Alignment) -> Cell {
        Cell(s.to_string())
    }
    pub fn align(&mut self, _: format::Alignment) {}
    pub fn style_spec(self, _: &str) -> Cell {
        self
    }
}
impl<'a, T: ToString> From<&'a T> for Cell {
    fn from(s: &T) -> Cell {
        Cell(s.to_string())
    }
}
impl std::fmt::Display for Cell {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Row {
    pub fn new(c: Vec<Cell>) -> Row {
        Row(c)
    }
    pub fn empty() -> Row {
        Row(vec![])
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn add_cell(&mut self, c: Cell) {
        self.0.push(c);
    }
}
impl<T, A> From<T> for Row
where
    A: ToString,
    T: IntoIterator<Item = A>,
{
    fn from(i: T) -> Row {
        i.into_iter().collect()
    }
}
impl<A: ToString> std::iter::FromIterator<A> for Row {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Row {
        Row(i.into_iter().map(|x| Cell(x.to_string())).collect())
    }
}
impl<A: Into<Row>> Extend<A> for Table {
    fn extend<I: IntoIterator<Item = A>>(&mut self, i: I) {
        for r in i {
            self.rows.push(r.into());
        }
    }
}
impl std::iter::FromIterator<Row> for Table {
    fn from_iter<I: IntoIterator<Item = Row>>(i: I) -> Table {
        Table::init(i.into_iter().collect())
    }
}
#[macro_export]
macro_rules! cell {
    () => { $crate::Cell::default() };
    ($v:expr) => { $crate::Cell::new(&$v.to_string()) };
}
#[macro_export]
macro_rules! row {
    ($($v:expr),* $(,)?) => { $crate::Row::new(vec![$($crate::cell!($v)),*]) };
}
#[macro_export]
macro_rules! table {
    ($([$($v:expr),* $(,)?]),* $(,)?) => { $crate::Table::init(vec![$($crate::row![$($v),*]),*]) };
}
impl Table {
    pub fn new() -> Table {
        Table::default()
    }
    pub fn init(rows: Vec<Row>) -> Table {
        Table { titles: None, rows }
    }
    pub fn len(&self) -> usize {
        self.rows.len()
    }
    pub fn is_empty(&self) -> bool {
        self.rows.is_empty()
    }
    pub fn add_empty_row(&mut self) -> &mut Row {
        self.add_row(Row::empty())
    }
    pub fn set_titles(&mut self, r: Row) {
        self.titles = Some(r);
    }
    pub fn add_row(&mut self, r: Row) -> &mut Row {
        self.rows.push(r);
        self.rows.last_mut().unwrap()
    }
    pub fn set_format(&mut self, _: format::TableFormat) {}
    pub fn printstd(&self) {
        vstd::print!("{}", self);
    }
}
impl std::fmt::Display for Table {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for r in self.titles.iter().chain(self.rows.iter()) {
            for (i, c) in r.0.iter().enumerate() {
                if i > 0 {
                    f.write_str("\t")?;
                }
                f.write_str(&c.0)?;
            }
            f.write_str("\n")?;
        }
        Ok(())
    }
}
pub mod format {
    #[derive(Clone, Copy, Debug)]
    pub struct TableFormat;
    #[derive(Clone, Copy, Debug)]
    pub enum Alignment {
        LEFT,
        CENTER,
        RIGHT,
    }
    pub mod consts {
        use super::TableFormat;
        pub struct L;
        impl std::ops::Deref for L {
            type Target = TableFormat;
            fn deref(&self) -> &TableFormat {
                &TableFormat
            }
        }
        macro_rules! f { ($($n:ident)*) => { $(pub static $n: L = L;)* } }
        f!(FORMAT_DEFAULT FORMAT_NO_TITLE FORMAT_NO_LINESEP_WITH_TITLE FORMAT_NO_LINESEP FORMAT_NO_COLSEP FORMAT_CLEAN
           FORMAT_BORDERS_ONLY FORMAT_NO_BORDER FORMAT_NO_BORDER_LINE_SEPARATOR FORMAT_BOX_CHARS);
    }
}
