//! Stand-in for the parts of `table` which ogma uses (the git dependency is not available offline):
//! a rectangular, row major table whose first row is the header. Missing cells are `Nil`.
use divvy::Str;
use kserd::Number;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum Entry<T> {
    Nil,
    Obj(T),
    Num(Number),
}
impl<T> Default for Entry<T> {
    fn default() -> Self {
        Entry::Nil
    }
}
impl<T> Entry<T> {
    pub fn is_nil(&self) -> bool {
        matches!(self, Entry::Nil)
    }
}

#[derive(Clone, Debug)]
pub struct Table<T> {
    rows: Vec<Vec<Entry<T>>>,
    cols: usize,
    pub header: bool,
}
pub type DataTable = Table<Str>;

impl<T> Default for Table<T> {
    fn default() -> Self {
        Table { rows: Vec::new(), cols: 0, header: true }
    }
}
impl<T: PartialEq> PartialEq for Table<T> {
    fn eq(&self, o: &Self) -> bool {
        self.rows == o.rows
    }
}
impl<T> From<Vec<Vec<Entry<T>>>> for Table<T> {
    fn from(rows: Vec<Vec<Entry<T>>>) -> Self {
        let mut t = Table { rows, cols: 0, header: true };
        t.pad();
        t
    }
}

impl<T> Table<T> {
    pub fn new() -> Self {
        Self::default()
    }
    fn pad(&mut self) {
        self.cols = self.rows.iter().map(Vec::len).max().unwrap_or(0).max(self.cols);
        let c = self.cols;
        for r in &mut self.rows {
            r.resize_with(c, Entry::default);
        }
    }
    pub fn rows_len(&self) -> usize {
        self.rows.len()
    }
    pub fn cols_len(&self) -> usize {
        self.cols
    }
    pub fn is_empty(&self) -> bool {
        self.rows.is_empty() || self.cols == 0
    }
    pub fn row(&self, i: usize) -> Option<std::slice::Iter<'_, Entry<T>>> {
        self.rows.get(i).map(|r| r.iter())
    }
    pub fn row_mut(&mut self, i: usize) -> Option<std::slice::IterMut<'_, Entry<T>>> {
        self.rows.get_mut(i).map(|r| r.iter_mut())
    }
    pub fn rows(&self) -> impl Iterator<Item = std::slice::Iter<'_, Entry<T>>> + '_ {
        self.rows.iter().map(|r| r.iter())
    }
    pub fn col(&self, i: usize) -> Option<impl Iterator<Item = &Entry<T>> + '_> {
        (i < self.cols).then(|| self.rows.iter().map(move |r| &r[i]))
    }
    pub fn col_mut(&mut self, i: usize) -> Option<impl Iterator<Item = &mut Entry<T>> + '_> {
        (i < self.cols).then(|| self.rows.iter_mut().map(move |r| &mut r[i]))
    }
    pub fn cols(&self) -> impl Iterator<Item = impl Iterator<Item = &Entry<T>> + '_> + '_ {
        (0..self.cols).map(move |i| self.rows.iter().map(move |r| &r[i]))
    }
    pub fn add_row<R>(&mut self, r: R)
    where
        R: Iterator,
        R::Item: Into<Entry<T>>,
    {
        self.rows.push(r.map(Into::into).collect());
        self.pad();
    }
    pub fn add_rows<I, R>(&mut self, rs: I)
    where
        I: Iterator<Item = R>,
        R: Iterator,
        R::Item: Into<Entry<T>>,
    {
        self.rows.extend(rs.map(|r| r.map(Into::into).collect()));
        self.pad();
    }
    pub fn add_col<C>(&mut self, c: C)
    where
        C: Iterator,
        C::Item: Into<Entry<T>>,
    {
        let n = self.cols;
        let mut used = false;
        for (i, e) in c.enumerate() {
            used = true;
            if i == self.rows.len() {
                self.rows.push(Vec::new());
            }
            let r = &mut self.rows[i];
            r.resize_with(n, Entry::default);
            r.push(e.into());
        }
        if used {
            self.cols = n + 1;
        }
        self.pad();
    }
    pub fn add_cols<I, C>(&mut self, cs: I)
    where
        I: Iterator<Item = C>,
        C: Iterator,
        C::Item: Into<Entry<T>>,
    {
        for c in cs {
            self.add_col(c);
        }
    }
    pub fn insert_row<R>(&mut self, i: usize, r: R)
    where
        R: Iterator,
        R::Item: Into<Entry<T>>,
    {
        self.rows.insert(i, r.map(Into::into).collect());
        self.pad();
    }
    pub fn remove_row(&mut self, i: usize) {
        self.rows.remove(i);
    }
    pub fn remove_col_par(&mut self, i: usize) {
        for r in &mut self.rows {
            r.remove(i);
        }
        self.cols -= 1;
        if self.cols == 0 {
            self.rows.clear();
        }
    }
    pub fn remove_col(&mut self, i: usize) {
        self.remove_col_par(i)
    }
    pub fn retain_rows<F: FnMut(usize, &[Entry<T>]) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        self.rows.retain(|r| {
            i += 1;
            f(i - 1, r)
        });
    }
    /// The header row stays where it is.
    pub fn reverse_rows(&mut self) {
        if let Some((_, r)) = self.rows.split_first_mut() {
            r.reverse()
        }
    }
    pub fn reverse_cols_par(&mut self) {
        for r in &mut self.rows {
            r.reverse()
        }
    }
    /// Stable; the header row stays where it is.
    pub fn sort<F: Fn(&Entry<T>, &Entry<T>) -> Ordering>(&mut self, col: usize, f: F) {
        if let Some((_, r)) = self.rows.split_first_mut() {
            r.sort_by(|a, b| f(&a[col], &b[col]))
        }
    }
    pub fn into_raw(self) -> Vec<Vec<Entry<T>>> {
        self.rows
    }
    pub fn map_obj<U, F: FnMut(T) -> U>(self, mut f: F) -> Table<U> {
        Table {
            cols: self.cols,
            header: self.header,
            rows: self
                .rows
                .into_iter()
                .map(|r| {
                    r.into_iter()
                        .map(|e| match e {
                            Entry::Nil => Entry::Nil,
                            Entry::Num(n) => Entry::Num(n),
                            Entry::Obj(o) => Entry::Obj(f(o)),
                        })
                        .collect()
                })
                .collect(),
        }
    }
    pub fn clone_with_col_capacity(&self, _: usize) -> Self
    where
        T: Clone,
    {
        self.clone()
    }
}

/// Delimiter separated values: cells may be quoted with `"` (a quote inside is doubled), a cell
/// which parses as a number is one, an empty cell is `Nil`.
pub fn parse_dsv(delim: char, s: &str) -> Table<String> {
    let mut rows = Vec::new();
    let mut row: Vec<Entry<String>> = Vec::new();
    let mut it = s.chars().peekable();
    let mut any = false;
    let end = |c: String, quoted: bool| {
        if quoted {
            Entry::Obj(c)
        } else if c.is_empty() {
            Entry::Nil
        } else if let Ok(n) = c.parse::<Number>() {
            Entry::Num(n)
        } else {
            Entry::Obj(c)
        }
    };
    let (mut cell, mut quoted) = (String::new(), false);
    while let Some(c) = it.next() {
        any = true;
        if c == '"' && cell.is_empty() && !quoted {
            quoted = true;
            while let Some(c) = it.next() {
                if c == '"' {
                    if it.peek() == Some(&'"') {
                        it.next();
                    } else {
                        break;
                    }
                }
                cell.push(c);
            }
        } else if c == delim {
            row.push(end(std::mem::take(&mut cell), std::mem::take(&mut quoted)));
        } else if c == '\n' || (c == '\r' && it.peek() == Some(&'\n')) {
            if c == '\r' {
                it.next();
            }
            row.push(end(std::mem::take(&mut cell), std::mem::take(&mut quoted)));
            rows.push(std::mem::take(&mut row));
            any = false;
        } else {
            cell.push(c);
        }
    }
    if any {
        row.push(end(cell, quoted));
        rows.push(row);
    }
    let mut t = Table::from(rows);
    t.header = true;
    t
}
