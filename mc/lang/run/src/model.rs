//! The reference: tables as plain rows (row 0 is the header), pipelines as plain functions on them.
use crate::lang::{self, Definitions, Entry, Number, Str, Table, Value};
use mcrt::driver::Ctx;
use std::fmt;

#[derive(Clone)]
pub enum Cell {
    Nil,
    Bool(bool),
    Num(f64),
    Str(String),
    Tab(Tab),
    /// Anything else, shown.
    Data(String),
}
use Cell::*;
pub type Tab = Vec<Vec<Cell>>;

impl PartialEq for Cell {
    fn eq(&self, o: &Cell) -> bool {
        match (self, o) {
            (Nil, Nil) => true,
            (Bool(a), Bool(b)) => a == b,
            (Num(a), Num(b)) => a == b || a.is_nan() && b.is_nan(),
            (Str(a), Str(b)) | (Data(a), Data(b)) => a == b,
            (Tab(a), Tab(b)) => a == b,
            _ => false,
        }
    }
}
impl fmt::Debug for Cell {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Nil => f.write_str("-"),
            Bool(b) => write!(f, "{b}"),
            Num(n) => write!(f, "{n}"),
            Str(s) => write!(f, "{s:?}"),
            Tab(t) => write!(f, "table{t:?}"),
            Data(s) => f.write_str(s),
        }
    }
}
use Cell::{Str as S, Tab as T};
impl Cell {
    pub fn num(&self) -> Option<f64> {
        match self {
            Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            S(s) => Some(s),
            _ => None,
        }
    }
}
pub fn s(x: impl Into<String>) -> Cell {
    S(x.into())
}
pub fn n(x: f64) -> Cell {
    Num(x)
}

pub fn of_value(v: &Value) -> Cell {
    match v {
        Value::Nil => Nil,
        Value::Bool(b) => Bool(*b),
        Value::Num(x) => Num(x.as_f64()),
        Value::Str(x) => S(x.to_string()),
        Value::Tab(t) => T(of_table(t)),
        x @ Value::Ogma(d) => match x.variant_idx() {
            Some(i) if d.ty().name().str() == "Ord" => Data(["Lt", "Eq", "Gt"][i].into()),
            _ => Data(show_data(d)),
        },
        Value::TabRow(_) => Data("row".into()),
    }
}
/// A user-defined value: type, variant and fields.
pub fn show_data(d: &ogma::lang::OgmaData) -> String {
    let mut o = format!("{}", d.ty().name().str());
    let v = Value::Ogma(d.clone());
    if let Some(i) = v.variant_idx() {
        o += &format!("::{i}");
    }
    let f: Vec<String> = d.data().iter().map(|x| format!("{:?}", of_value(x))).collect();
    o + "(" + &f.join(", ") + ")"
}
pub fn of_table(t: &Table) -> Tab {
    t.rows()
        .map(|r| {
            r.map(|e| match e {
                Entry::Nil => Nil,
                Entry::Num(x) => Num(x.as_f64()),
                Entry::Obj(v) => of_value(v),
            })
            .collect()
        })
        .collect()
}
pub fn to_value(c: &Cell) -> Value {
    match c {
        Nil => Value::Nil,
        Bool(b) => Value::Bool(*b),
        Num(x) => Value::Num(num(*x)),
        S(x) => Value::Str(Str::new(x)),
        T(t) => Value::Tab(to_table(t)),
        Data(x) => panic!("no value of {x}"),
    }
}
fn num(x: f64) -> Number {
    if x.fract() == 0.0 && x >= 0.0 && x < 1e15 {
        Number::from(x as u64)
    } else {
        Number::from(x)
    }
}
pub fn to_table(t: &Tab) -> Table {
    let rows: Vec<Vec<Entry<Value>>> = t
        .iter()
        .map(|r| {
            r.iter()
                .map(|c| match c {
                    Nil => Entry::Nil,
                    Num(x) => Entry::Num(num(*x)),
                    x => Entry::Obj(to_value(x)),
                })
                .collect()
        })
        .collect();
    Table::from(table::Table::from(rows))
}

/// A step of a pipeline: its source text, and what it has to do (`None`: it has to fail).
pub struct Op {
    pub src: String,
    pub f: Box<dyn Fn(&Tab) -> Option<Cell> + Sync + Send>,
}
/// table to table
pub fn op(src: impl Into<String>, f: impl Fn(&Tab) -> Option<Tab> + Sync + Send + 'static) -> Op {
    Op { src: src.into(), f: Box::new(move |t| f(t).map(T)) }
}
/// table to anything
pub fn fin(src: impl Into<String>, f: impl Fn(&Tab) -> Option<Cell> + Sync + Send + 'static) -> Op {
    Op { src: src.into(), f: Box::new(f) }
}

/// What the pipeline has to give.
pub fn apply(t: &Tab, ops: &[&Op]) -> Option<Cell> {
    let mut c = T(t.clone());
    for o in ops {
        let T(t) = &c else { panic!("not a table before {}", o.src) };
        c = (o.f)(t)?;
    }
    Some(c)
}

pub fn agree(src: &str, got: &lang::R, exp: &Option<Cell>) -> Result<(), String> {
    match (got, exp) {
        (Ok(v), Some(e)) => {
            let g = of_value(v);
            if g != *e {
                return Err(format!("`{src}` gave {g:?}, expected {e:?}"));
            }
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(v), None) => Err(format!("`{src}` gave {:?}, expected an error", of_value(v))),
        (Err(e), Some(x)) => Err(format!("`{src}` failed ({}), expected {x:?}", first_line(&e.to_string()))),
    }
}
fn first_line(s: &str) -> String {
    s.lines().take(4).collect::<Vec<_>>().join(" / ")
}

thread_local!(static DEFS: Definitions = Definitions::new());
/// The stock definitions of this thread.
pub fn defs<R>(f: impl FnOnce(&Definitions) -> R) -> R {
    DEFS.with(f)
}

/// Run a source text on a table of which nobody else holds a copy, then on one which is held
/// elsewhere; both have to give the same, and the copy held elsewhere has to stay as it was.
pub fn both(t: &Tab, src: &str, exp: &Option<Cell>) -> Result<(), String> {
    defs(|d| {
        let got = lang::eval_owned(to_table(t), src, d);
        agree(src, &got, exp).map_err(|e| format!("{e}, on {t:?}"))?;
        let held = to_table(t);
        let got = lang::eval_owned(held.clone(), src, d);
        agree(src, &got, exp).map_err(|e| format!("{e}, on {t:?} (of which a copy is held elsewhere)"))?;
        drop(got);
        let now = of_table(&held);
        if now != *t {
            return Err(format!("`{src}` changed a table held elsewhere from {t:?} to {now:?}"));
        }
        Ok(())
    })
}

pub fn src_of(ops: &[&Op]) -> String {
    ops.iter().map(|o| o.src.as_str()).collect::<Vec<_>>().join(" | ")
}

/// All pipelines of `depth` steps of `ops` (the last one may be one of `fins` instead), on all tables.
pub fn pipelines(ctx: &mut Ctx, name: &str, tables: &[Tab], ops: &[Op], fins: &[Op], depth: usize) {
    let last: Vec<&Op> = ops.iter().chain(fins).collect();
    let per = (ops.len() as u64).pow(depth as u32 - 1) * last.len() as u64;
    let get = |i: u64| -> (&Tab, Vec<&Op>) {
        let (t, mut p) = ((i / per) as usize, i % per);
        let l = last[(p % last.len() as u64) as usize];
        p /= last.len() as u64;
        let mut v: Vec<&Op> = mcrt::seq::digits(p, ops.len(), depth - 1).into_iter().map(|d| &ops[d as usize]).collect();
        v.push(l);
        (&tables[t], v)
    };
    ctx.cases(
        name,
        per * tables.len() as u64,
        |i| {
            let (t, v) = get(i);
            format!("{} on {t:?}", src_of(&v))
        },
        |i| {
            let (t, v) = get(i);
            both(t, &src_of(&v), &apply(t, &v))?;
            Ok(depth as u64)
        },
    );
}

/// All tables with these columns and `lo..=hi` data rows, cells out of the alphabet of the column.
pub fn family(cols: &[(&str, &[Cell])], lo: usize, hi: usize) -> Vec<Tab> {
    let hdr: Vec<Cell> = cols.iter().map(|c| s(c.0)).collect();
    let per: usize = cols.iter().map(|c| c.1.len()).product();
    let mut v = Vec::new();
    for rows in lo..=hi {
        for i in 0..(per as u64).pow(rows as u32) {
            let mut t = vec![hdr.clone()];
            for d in mcrt::seq::digits(i, per, rows) {
                let mut d = d as usize;
                t.push(
                    cols.iter()
                        .map(|c| {
                            let x = c.1[d % c.1.len()].clone();
                            d /= c.1.len();
                            x
                        })
                        .collect(),
                );
            }
            v.push(t);
        }
    }
    v
}
/// The same tables with a further column `i` which numbers the rows.
pub fn numbered(mut ts: Vec<Tab>) -> Vec<Tab> {
    for t in &mut ts {
        for (k, r) in t.iter_mut().enumerate() {
            r.push(if k == 0 { s("i") } else { n(k as f64) });
        }
    }
    ts
}
/// Tables with unusual headers, or without rows.
pub fn odd() -> Vec<Tab> {
    vec![
        vec![],
        vec![vec![s("a")]],
        vec![vec![s("a"), s("a")], vec![n(1.), n(2.)], vec![n(2.), n(2.)]],
        vec![vec![Nil, s("a"), s("b")], vec![s("x"), n(2.), s("y")], vec![s("y"), n(1.), s("x")]],
        vec![vec![s("b"), n(1.), s("a")], vec![s("x"), s("y"), n(1.)], vec![s("x"), s("y"), n(1.)]],
        vec![vec![s("a"), s("b")], vec![s("a"), s("b")], vec![s("a"), s("b")]],
        vec![vec![s("b")], vec![s("x")], vec![Nil]],
        vec![vec![s("c"), s("b")], vec![n(3.), s("x")]],
    ]
}

// ------ the pieces of which the references are made ------
pub fn ci(t: &Tab, name: &str) -> Option<usize> {
    t.first()?.iter().position(|c| c.str() == Some(name))
}
pub fn width(t: &Tab) -> usize {
    t.first().map_or(0, |r| r.len())
}
pub fn data(t: &Tab) -> &[Vec<Cell>] {
    t.get(1..).unwrap_or(&[])
}
pub fn with_rows(t: &Tab, rows: Vec<Vec<Cell>>) -> Tab {
    t.first().cloned().into_iter().chain(rows).collect()
}
/// Fill short rows up.
pub fn pad(mut t: Tab) -> Tab {
    let w = t.iter().map(|r| r.len()).max().unwrap_or(0);
    for r in &mut t {
        r.resize(w, Nil);
    }
    t
}
/// Keep the data rows for which `f` says so; fails if `f` fails for any.
pub fn keep(t: &Tab, f: impl Fn(&[Cell]) -> Option<bool>) -> Option<Tab> {
    let mut v = Vec::new();
    let mut ok = true;
    for r in data(t) {
        match f(r) {
            Some(true) => v.push(r.clone()),
            Some(false) => (),
            None => ok = false,
        }
    }
    ok.then(|| with_rows(t, v))
}
