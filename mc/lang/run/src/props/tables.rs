//! Tables: selection, transformation, columns, order, groups, combination.
use crate::model::*;
use crate::model::Cell::{Bool, Nil, Num, Str as S, Tab as T};
use mcrt::driver::Ctx;
use std::cmp::Ordering;

fn nums() -> [Cell; 3] {
    [Nil, n(1.), n(2.)]
}
fn strs() -> [Cell; 2] {
    [s("x"), s("y")]
}

// ------ rows ------
pub fn take(k: usize) -> Op {
    op(format!("take {k}"), move |t| Some(with_rows(t, data(t).iter().take(k).cloned().collect())))
}
pub fn skip(k: usize) -> Op {
    op(format!("skip {k}"), move |t| Some(with_rows(t, data(t).iter().skip(k).cloned().collect())))
}
pub fn dedup(cols: &'static [&'static str]) -> Op {
    op(format!("dedup {}", cols.join(" ")), move |t| {
        let ix: Vec<usize> = if cols.is_empty() {
            (0..width(t)).collect()
        } else {
            cols.iter().map(|c| ci(t, c)).collect::<Option<_>>()?
        };
        let mut v: Vec<Vec<Cell>> = Vec::new();
        for r in data(t) {
            if v.last().map_or(true, |l| ix.iter().any(|&c| l[c] != r[c])) {
                v.push(r.clone());
            }
        }
        Some(with_rows(t, v))
    })
}
/// `filter col pred` keeps the rows whose cell is of the type and satisfies the predicate.
pub fn filter_col(src: &str, col: &'static str, f: fn(&Cell) -> Option<bool>) -> Op {
    op(src, move |t| {
        if data(t).is_empty() {
            return Some(t.clone());
        }
        let c = ci(t, col)?;
        keep(t, |r| Some(f(&r[c]).unwrap_or(false)))
    })
}
/// `filter { .. }` keeps the rows for which the predicate holds.
pub fn filter_row(src: &str, f: fn(&Tab, &[Cell]) -> Option<bool>) -> Op {
    op(src, move |t| keep(t, |r| f(t, r)))
}
fn get(t: &Tab, r: &[Cell], c: &str) -> Option<Cell> {
    Some(r[ci(t, c)?].clone())
}
fn getn(t: &Tab, r: &[Cell], c: &str) -> Option<f64> {
    get(t, r, c)?.num()
}
fn gets(t: &Tab, r: &[Cell], c: &str) -> Option<String> {
    get(t, r, c)?.str().map(|x| x.to_string())
}
pub fn row_ops() -> Vec<Op> {
    vec![
        take(0),
        take(1),
        take(2),
        take(9),
        skip(0),
        skip(1),
        skip(2),
        skip(9),
        op("take { len | - 1 }", |t| {
            let k = data(t).len().checked_sub(1)?;
            Some(with_rows(t, data(t)[..k].to_vec()))
        }),
        filter_col("filter a --Num > 1", "a", |c| c.num().map(|x| x > 1.)),
        filter_col("filter b --Str = x", "b", |c| c.str().map(|x| x == "x")),
        filter_row("filter { get a --Num | < 2 }", |t, r| Some(getn(t, r, "a")? < 2.)),
        filter_row("filter { get b --Str | = y }", |t, r| Some(gets(t, r, "b")? == "y")),
        filter_row("filter #f", |_, _| Some(false)),
        dedup(&[]),
        dedup(&["a"]),
        dedup(&["b", "a"]),
        op("rev", |t| Some(with_rows(t, data(t).iter().rev().cloned().collect()))),
    ]
}
pub fn row_fins() -> Vec<Op> {
    fn nth(k: usize, t: &Tab) -> Option<&Vec<Cell>> {
        data(t).get(k)
    }
    vec![
        fin("len", |t| Some(Num(data(t).len() as f64))),
        fin("nth 0 { get a --Num }", |t| getn(t, nth(0, t)?, "a").map(Num)),
        fin("nth 1 { get b --Str }", |t| gets(t, nth(1, t)?, "b").map(S)),
        fin("nth { len | - 1 } { get b --Str }", |t| gets(t, nth(data(t).len().checked_sub(1)?, t)?, "b").map(S)),
        fin("nth 7 { get a --Num }", |_| None),
    ]
}
pub fn c20(ctx: &mut Ctx) {
    let cols = |hi| family(&[("a", &nums()), ("b", &strs())], 0, hi);
    let (o, f) = (row_ops(), row_fins());
    pipelines(ctx, "one step on odd tables", &odd(), &o, &f, 1);
    pipelines(ctx, "two steps on odd tables", &odd(), &o, &f, 2);
    pipelines(ctx, "one step", &cols(ctx.pick(4, 5)), &o, &f, 1);
    pipelines(ctx, "two steps", &cols(ctx.pick(3, 5)), &o, &f, 2);
    pipelines(ctx, "three steps", &cols(ctx.pick(2, 3)), &o, &f, 3);
    if ctx.thorough {
        pipelines(ctx, "four steps", &cols(2)[15..25], &o, &f, 4);
    }
}

// ------ transformations row by row ------
fn map(src: &str, col: &'static str, f: fn(&Tab, &[Cell], &Cell) -> Option<Cell>) -> Op {
    op(src, move |t| {
        let c = ci(t, col)?;
        let mut v = Vec::new();
        for r in data(t) {
            let mut q = r.clone();
            q[c] = f(t, r, &r[c])?;
            v.push(q);
        }
        Some(with_rows(t, v))
    })
}
fn append(src: &str, names: &'static [&'static str], f: fn(&Tab, &[Cell]) -> Option<Vec<Cell>>) -> Op {
    op(src, move |t| {
        let mut o = Vec::new();
        for (k, r) in t.iter().enumerate() {
            let mut q = r.clone();
            q.extend(if k == 0 { names.iter().map(|x| s(*x)).collect() } else { f(t, r)? });
            o.push(q);
        }
        Some(o)
    })
}
pub fn transform_ops() -> Vec<Op> {
    vec![
        map("map a + 1", "a", |_, _, c| Some(Num(c.num()? + 1.))),
        map("map a { * $row.c }", "a", |t, r, c| Some(Num(getn(t, r, "c")? * c.num()?))),
        map("map b --Str + z", "b", |_, _, c| Some(s(c.str()?.to_string() + "z"))),
        map("map b --Str { \\ $row.c:Num | + 1 }", "b", |t, r, c| {
            c.str()?;
            Some(Num(getn(t, r, "c")? + 1.))
        }),
        map("map c --force { \\ $row.b:Str }", "c", |t, r, _| gets(t, r, "b").map(S)),
        map("map a --force { \\ 'k' }", "a", |_, _, _| Some(s("k"))),
        map("map c { let $x | * $x }", "c", |_, _, c| Some(Num(c.num()? * c.num()?))),
        append("append { get a | + 10 }", &["_append1"], |t, r| Some(vec![Num(getn(t, r, "a")? + 10.)])),
        append("append { get a -5 } { get c --Num } --d", &["d", "_append1"], |t, r| {
            Some(vec![get(t, r, "a").map(|c| if c.num().is_some() { c } else { n(-5.) })?, Num(getn(t, r, "c")?)])
        }),
        append("append 1 { get b --Str } 'q' --p --q", &["p", "q", "_append1"], |t, r| {
            Some(vec![n(1.), S(gets(t, r, "b")?), s("q")])
        }),
        append("append { get b --Str | = x } --f", &["f"], |t, r| Some(vec![Bool(gets(t, r, "b")? == "x")])),
        append("append { let { get c --Num } $v | \\ $v | + $v } --v", &["v"], |t, r| {
            Some(vec![Num(2. * getn(t, r, "c")?)])
        }),
    ]
}
pub fn c21(ctx: &mut Ctx) {
    let tabs = |hi| family(&[("a", &nums()[..2]), ("b", &[s("x"), s("y"), n(3.)]), ("c", &[n(4.), n(-5.)])], 0, hi);
    let o = transform_ops();
    pipelines(ctx, "one step on odd tables", &odd(), &o, &[], 1);
    pipelines(ctx, "two steps on odd tables", &odd(), &o, &[], 2);
    pipelines(ctx, "one step", &tabs(ctx.pick(3, 4)), &o, &[], 1);
    let t3 = tabs(3);
    pipelines(ctx, "two steps", ctx.pick(&t3[..400], &t3), &o, &[], 2);
    pipelines(ctx, "three steps", ctx.pick(&t3[..40], &t3[..250]), &o, &[], 3);
    if ctx.thorough {
        pipelines(ctx, "four steps", &t3[..25], &o, &[], 4);
    }
}

// ------ folds ------
fn fold(src: &str, seed: Cell, f: fn(&Tab, &[Cell], Cell) -> Option<Cell>) -> Op {
    fin(src, move |t| {
        let mut x = seed.clone();
        for r in data(t) {
            x = f(t, r, x)?;
        }
        Some(x)
    })
}
fn fold_while(
    src: &str,
    seed: Cell,
    p: fn(&Tab, &[Cell], &Cell) -> Option<bool>,
    f: fn(&Tab, &[Cell], Cell) -> Option<Cell>,
) -> Op {
    fin(src, move |t| {
        let mut x = seed.clone();
        for r in data(t) {
            if !p(t, r, &x)? {
                break;
            }
            x = f(t, r, x)?;
        }
        Some(x)
    })
}
fn fold_ops() -> Vec<Op> {
    vec![
        fold("fold 0 { + $row.a }", n(0.), |t, r, x| Some(Num(x.num()? + getn(t, r, "a")?))),
        fold("fold 10 - $row.a", n(10.), |t, r, x| Some(Num(x.num()? - getn(t, r, "a")?))),
        fold("fold 0 + 1", n(0.), |_, _, x| Some(Num(x.num()? + 1.))),
        fold("fold 0 { \\ $row.a:Num }", n(0.), |t, r, _| getn(t, r, "a").map(Num)),
        fold("fold '' { + $row.b }", s(""), |t, r, x| Some(S(x.str()?.to_string() + &gets(t, r, "b")?))),
        fold("fold 1 { * 2 | + $row.a }", n(1.), |t, r, x| Some(Num(x.num()? * 2. + getn(t, r, "a")?))),
        fold("fold 0 max $row.a", n(0.), |t, r, x| {
            let a = getn(t, r, "a")?;
            Some(Num(x.num()?.max(a)))
        }),
        fold("fold { Table a } { append-row $row.a:Num }", T(vec![vec![s("a")]]), |t, r, x| {
            let T(mut x) = x else { return None };
            x.push(vec![Num(getn(t, r, "a")?)]);
            Some(T(x))
        }),
        fold("fold #f { \\ $row.b:Str | = x }", Bool(false), |t, r, _| Some(Bool(gets(t, r, "b")? == "x"))),
        fold("fold 0 { let $acc | \\ $row.a:Num | + $acc }", n(0.), |t, r, x| Some(Num(x.num()? + getn(t, r, "a")?))),
        fin("let 3 $s | fold $s { + $row.a }", |t| {
            data(t).iter().try_fold(3., |x, r| Some(x + getn(t, r, "a")?)).map(Num)
        }),
        fold_while("fold-while 0 { < 3 } { + $row.a }", n(0.), |_, _, x| Some(x.num()? < 3.), |t, r, x| {
            Some(Num(x.num()? + getn(t, r, "a")?))
        }),
        fold_while("fold-while 0 { \\ $row.a:Num | < 2 } { + 1 }", n(0.), |t, r, _| Some(getn(t, r, "a")? < 2.), |_, _, x| {
            Some(Num(x.num()? + 1.))
        }),
        fold_while("fold-while '' { != 'xy' } { + $row.b }", s(""), |_, _, x| Some(x.str()? != "xy"), |t, r, x| {
            Some(S(x.str()?.to_string() + &gets(t, r, "b")?))
        }),
        fold_while("fold-while 5 { let $o | \\ $row.b:Str | = x } { let $o | \\ $row.a:Num | + $o }", n(5.), |t, r, _| {
            Some(gets(t, r, "b")? == "x")
        }, |t, r, x| Some(Num(x.num()? + getn(t, r, "a")?))),
        fold_while("fold-while 0 #f { + $row.zz }", n(0.), |_, _, _| Some(false), |_, _, _| None),
        fold_while("fold-while 0 #t { + $row.zz }", n(0.), |_, _, _| Some(true), |_, _, _| None),
    ]
}
pub fn c22(ctx: &mut Ctx) {
    let tabs = |hi| family(&[("a", &nums()), ("b", &[s("x"), s("y"), Nil])], 0, hi);
    let f = fold_ops();
    let pre = vec![
        op("rev", |t| Some(with_rows(t, data(t).iter().rev().cloned().collect()))),
        skip(1),
        take(2),
        filter_col("filter a --Num > 0", "a", |c| c.num().map(|x| x > 0.)),
        map("map a { * $row.a }", "a", |t, r, c| Some(Num(getn(t, r, "a")? * c.num()?))),
    ];
    pipelines(ctx, "a fold of odd tables", &odd(), &[], &f, 1);
    pipelines(ctx, "a fold", &tabs(ctx.pick(4, 5)), &[], &f, 1);
    pipelines(ctx, "a fold of what a step gives", &tabs(ctx.pick(3, 4)), &pre, &f, 2);
    pipelines(ctx, "a fold of what two steps give", &tabs(ctx.pick(2, 3)), &pre, &f, 3);
    if ctx.thorough {
        pipelines(ctx, "a fold of what three steps give", &tabs(2), &pre, &f, 4);
    }
}

// ------ columns ------
fn pick(src: &str, cols: &'static [&'static str], add: bool, trail: bool) -> Op {
    op(src, move |t| {
        let mut ix: Vec<(Option<usize>, &str)> = Vec::new();
        for c in cols {
            match ci(t, c) {
                None if !add => return None,
                i => ix.push((i, *c)),
            }
        }
        if trail {
            let used: Vec<usize> = ix.iter().filter_map(|x| x.0).collect();
            ix.extend((0..width(t)).filter(|i| !used.contains(i)).map(|i| (Some(i), "")));
        }
        Some(
            t.iter()
                .enumerate()
                .map(|(k, r)| {
                    ix.iter()
                        .map(|(i, c)| match i {
                            Some(i) => r[*i].clone(),
                            None if k == 0 => s(*c),
                            None => Nil,
                        })
                        .collect()
                })
                .collect(),
        )
    })
}
enum Ref {
    Name(&'static str),
    Idx(usize),
}
fn ren(src: &str, b: &'static [(Ref, &'static str)]) -> Op {
    op(src, move |t| {
        let mut ix = Vec::new();
        for (r, _) in b {
            ix.push(match r {
                Ref::Name(c) => ci(t, c)?,
                Ref::Idx(i) if *i < width(t) => *i,
                _ => return None,
            });
        }
        let mut o = t.clone();
        for (i, (_, nm)) in ix.into_iter().zip(b) {
            o[0][i] = s(*nm);
        }
        Some(o)
    })
}
fn ren_with(src: &str, row: usize, f: fn(&Cell) -> Option<Cell>) -> Op {
    op(src, move |t| {
        let h = t.get(row)?.iter().map(f).collect::<Option<Vec<_>>>()?;
        let mut o = t.clone();
        o[0] = h;
        Some(o)
    })
}
fn filter_cols(src: &str, f: fn(&str) -> bool) -> Op {
    op(src, move |t| {
        let keep: Vec<bool> = t.first().map(|h| h.iter().map(|c| f(c.str().unwrap_or(""))).collect()).unwrap_or_default();
        if !keep.iter().any(|k| *k) {
            return Some(vec![]);
        }
        Some(t.iter().map(|r| r.iter().zip(&keep).filter(|x| *x.1).map(|x| x.0.clone()).collect()).collect())
    })
}
pub fn column_ops() -> Vec<Op> {
    use Ref::*;
    vec![
        pick("pick a", &["a"], false, false),
        pick("pick b a", &["b", "a"], false, false),
        pick("pick a a c", &["a", "a", "c"], false, false),
        pick("pick c z a --add", &["c", "z", "a"], true, false),
        pick("pick b --trail", &["b"], false, true),
        pick("pick z b --add --trail", &["z", "b"], true, true),
        ren("ren a z", &[(Name("a"), "z")]),
        ren("ren a b b a", &[(Name("a"), "b"), (Name("b"), "a")]),
        ren("ren 0 b 1 'q r'", &[(Idx(0), "b"), (Idx(1), "q r")]),
        ren("ren 2 a a c", &[(Idx(2), "a"), (Name("a"), "c")]),
        ren("ren 'q r' a", &[(Name("q r"), "a")]),
        ren_with("ren-with 0 --Str + '1'", 0, |c| Some(s(c.str()?.to_string() + "1"))),
        ren_with("ren-with 1 --Str { \\ #i }", 1, |c| Some(s(c.str()?))),
        ren_with("ren-with 2 --Num { if { > 1 } 'a' 'b' }", 2, |c| Some(s(if c.num()? > 1. { "a" } else { "b" }))),
        filter_cols("filter --cols = a", |h| h == "a"),
        filter_cols("filter --cols != b", |h| h != "b"),
        filter_cols("filter --cols or { = b } { = z }", |h| h == "b" || h == "z"),
        op("rev --cols", |t| Some(t.iter().map(|r| r.iter().rev().cloned().collect()).collect())),
        op("ls", |t| {
            let h = t.first()?;
            Some(std::iter::once(vec![s("header")]).chain(h.iter().map(|c| vec![c.clone()])).collect())
        }),
    ]
}
pub fn column_fins() -> Vec<Op> {
    vec![fin("len --cols", |t| Some(Num(width(t) as f64)))]
}
pub fn c23(ctx: &mut Ctx) {
    let c = [n(1.), n(2.), s("x")];
    let tabs = |hi| family(&[("a", &c), ("b", &c[1..]), ("c", &c[..2])], 0, hi);
    let (o, f) = (column_ops(), column_fins());
    pipelines(ctx, "one step on odd tables", &odd(), &o, &f, 1);
    pipelines(ctx, "two steps on odd tables", &odd(), &o, &f, 2);
    pipelines(ctx, "one step", &tabs(ctx.pick(2, 3)), &o, &f, 1);
    let t2 = tabs(2);
    pipelines(ctx, "two steps", &t2, &o, &f, 2);
    pipelines(ctx, "three steps", ctx.pick(&t2[..16], &t2), &o, &f, 3);
    if ctx.quick() {
        pipelines(ctx, "three steps on odd tables", &odd(), &o, &f, 3);
    } else {
        pipelines(ctx, "four steps", &tabs(0), &o, &f, 4);
    }
}

// ------ order ------
fn rank(c: &Cell) -> u8 {
    match c {
        Bool(_) => 0,
        Num(_) => 1,
        S(_) => 2,
        Cell::Data(_) => 3,
        Nil => 4,
        T(_) => 5,
    }
}
pub fn canonical(a: &Cell, b: &Cell) -> Ordering {
    rank(a).cmp(&rank(b)).then_with(|| match (a, b) {
        (Bool(a), Bool(b)) => a.cmp(b),
        (Num(a), Num(b)) => a.partial_cmp(b).unwrap(),
        (S(a), S(b)) => a.cmp(b),
        _ => Ordering::Equal,
    })
}
/// Insertion sort: stable by construction.
fn insert_sort(rows: &[Vec<Cell>], lt: impl Fn(&Vec<Cell>, &Vec<Cell>) -> Ordering) -> Vec<Vec<Cell>> {
    let mut v: Vec<Vec<Cell>> = Vec::new();
    for r in rows {
        let at = v.iter().position(|x| lt(x, r) == Ordering::Greater).unwrap_or(v.len());
        v.insert(at, r.clone());
    }
    v
}
fn sort(cols: &'static [&'static str]) -> Op {
    op(format!("sort {}", cols.join(" ")), move |t| {
        let ix: Vec<usize> = cols.iter().map(|c| ci(t, c)).collect::<Option<_>>()?;
        let mut v = data(t).to_vec();
        for i in ix {
            v = insert_sort(&v, |a, b| canonical(&a[i], &b[i]));
        }
        Some(with_rows(t, v))
    })
}
fn sort_by(src: &str, key: fn(&Tab, &[Cell]) -> Option<Vec<Cell>>) -> Op {
    op(src, move |t| {
        for r in data(t) {
            key(t, r)?;
        }
        let v = insert_sort(data(t), |a, b| {
            let (a, b) = (key(t, a).unwrap(), key(t, b).unwrap());
            a.iter().zip(&b).map(|(x, y)| canonical(x, y)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal)
        });
        Some(with_rows(t, v))
    })
}
pub fn order_ops() -> Vec<Op> {
    vec![
        sort(&["a"]),
        sort(&["b"]),
        sort(&["b", "a"]),
        sort(&["a", "b"]),
        sort_by("sort-by { get a 0 }", |t, r| Some(vec![Num(get(t, r, "a")?.num().unwrap_or(0.))])),
        sort_by("sort-by { get a --Num }", |t, r| Some(vec![Num(getn(t, r, "a")?)])),
        sort_by("sort-by { get a 0 | * -1 }", |t, r| Some(vec![Num(-get(t, r, "a")?.num().unwrap_or(0.))])),
        sort_by("sort-by { get b '' }", |t, r| Some(vec![s(get(t, r, "b")?.str().unwrap_or(""))])),
        sort_by("sort-by { get b --Str | = x }", |t, r| Some(vec![Bool(gets(t, r, "b")? == "x")])),
        sort_by("sort-by { Tuple { get b '' } { get a 3 } }", |t, r| {
            Some(vec![s(get(t, r, "b")?.str().unwrap_or("")), Num(get(t, r, "a")?.num().unwrap_or(3.))])
        }),
        op("rev", |t| Some(with_rows(t, data(t).iter().rev().cloned().collect()))),
    ]
}
pub fn c24(ctx: &mut Ctx) {
    let a = [Nil, Bool(true), Bool(false), n(1.), n(-2.5), s("x"), T(vec![vec![s("q")]])];
    let b = [s("x"), s("y"), n(1.)];
    let one = |hi| numbered(family(&[("a", &a), ("b", &b[..1])], 0, hi));
    let two = |hi| numbered(family(&[("a", &[n(1.), n(2.), Nil]), ("b", &b)], 0, hi));
    let o = order_ops();
    pipelines(ctx, "odd tables", &odd(), &o, &[], 2);
    pipelines(ctx, "one mixed column", &one(ctx.pick(4, 6)), &o, &[], 1);
    pipelines(ctx, "two columns", &two(ctx.pick(4, 5)), &o, &[], 1);
    pipelines(ctx, "two sorts", &two(3), &o, &[], 2);
    pipelines(ctx, "three sorts", &two(ctx.pick(2, 3)), &o, &[], 3);
    // sizes at which the sorting algorithm changes its method
    let mut big = Vec::new();
    for size in [5usize, 16, 20, 21, 33, 40, 64, 100] {
        // every arithmetic progression of keys modulo 5 and 3
        for p in 0..ctx.pick(15usize, 60) {
            let (step, off, wave) = (p % 5, p / 5 % 3, p / 15);
            let mut t = vec![vec![s("a"), s("b"), s("i")]];
            for k in 0..size {
                let a = (step * k + off + wave * (k / 7)) % 5;
                t.push(vec![n(a as f64), s(["x", "y", "z"][(k * (step + 1) + k / 5) % 3]), n(k as f64)]);
            }
            big.push(t);
        }
    }
    pipelines(ctx, "longer tables", &big, &o, &[], 1);
}

// ------ groups ------
fn build_groups(t: &Tab, groups: Vec<(Cell, Vec<Vec<Cell>>)>) -> Tab {
    let mut o = vec![vec![s("key"), s("value")]];
    for (k, rows) in groups {
        o.push(vec![k, T(with_rows(t, rows))]);
    }
    o
}
fn key_text(c: &Cell) -> Option<String> {
    Some(match c {
        Nil => "-".into(),
        Bool(b) => b.to_string(),
        Num(x) => if *x == 0. { "0".into() } else { format!("{x:?}") },
        S(x) => x.clone(),
        T(t) => format!("<table [{},{}]>", t.len(), width(t)),
        Cell::Data(_) => return None,
    })
}
fn grp(cols: &'static [&'static str]) -> Op {
    op(format!("grp {}", cols.join(" ")), move |t| {
        if t.is_empty() {
            return None;
        }
        let ix: Vec<usize> = cols.iter().map(|c| ci(t, c)).collect::<Option<_>>()?;
        let mut g: Vec<(String, Vec<Vec<Cell>>)> = Vec::new();
        for r in data(t) {
            let k = ix.iter().map(|i| key_text(&r[*i]).unwrap()).collect::<Vec<_>>().join("-");
            match g.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1.push(r.clone()),
                None => g.push((k, vec![r.clone()])),
            }
        }
        g.sort_by(|a, b| a.0.cmp(&b.0));
        Some(build_groups(t, g.into_iter().map(|(k, v)| (S(k), v)).collect()))
    })
}
fn grp_by(src: &str, key: fn(&Tab, &[Cell]) -> Option<Cell>) -> Op {
    op(src, move |t| {
        let mut g: Vec<(Cell, Vec<Vec<Cell>>)> = Vec::new();
        for r in data(t) {
            let k = key(t, r)?;
            match g.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1.push(r.clone()),
                None => g.push((k, vec![r.clone()])),
            }
        }
        g.sort_by(|a, b| canonical(&a.0, &b.0));
        Some(build_groups(t, g))
    })
}
pub fn group_ops() -> Vec<Op> {
    vec![
        grp(&["a"]),
        grp(&["b"]),
        grp(&["b", "a"]),
        grp(&["b", "a", "b"]),
        grp_by("grp-by { get a 0 }", |t, r| Some(Num(get(t, r, "a")?.num().unwrap_or(0.)))),
        grp_by("grp-by { get a --Num }", |t, r| Some(Num(getn(t, r, "a")?))),
        grp_by("grp-by { get a 0 | > 1 }", |t, r| Some(Bool(get(t, r, "a")?.num().unwrap_or(0.) > 1.))),
        grp_by("grp-by { get b '' }", |t, r| Some(s(get(t, r, "b")?.str().unwrap_or("")))),
        grp_by("grp-by { get b '' | + k }", |t, r| Some(s(get(t, r, "b")?.str().unwrap_or("").to_string() + "k"))),
    ]
}
pub fn c25(ctx: &mut Ctx) {
    let a = [Nil, n(1.), n(2.), s("x")];
    let b = [s("x"), s(""), s("y-y"), Bool(true)];
    let tabs = |hi| numbered(family(&[("a", &a[..3]), ("b", &b[..3])], 0, hi));
    let one = |hi| numbered(family(&[("a", &a), ("b", &b)], 0, hi));
    let o = group_ops();
    let pre = row_ops();
    pipelines(ctx, "odd tables", &odd(), &[], &o, 1);
    pipelines(ctx, "groups", &tabs(ctx.pick(4, 5)), &[], &o, 1);
    pipelines(ctx, "groups of mixed cells", &one(ctx.pick(3, 4)), &[], &o, 1);
    pipelines(ctx, "groups of what a step gives", &tabs(ctx.pick(3, 4)), &pre, &o, 2);
    // sum of the sizes of the groups, through the language itself
    let sizes = [fin("grp b | append { get value --Table | len } --n | fold 0 { + $row.n }", |t| {
        ci(t, "b")?;
        Some(Num(data(t).len() as f64))
    })];
    pipelines(ctx, "no row is lost", &one(ctx.pick(3, 4)), &[], &sizes, 1);
}

// ------ combination ------
fn by_row(t: &Tab, u: &Tab, intersect: bool) -> Tab {
    if intersect {
        let w = width(t).min(width(u));
        let mut o = t.clone();
        o.extend(data(u).iter().cloned());
        for r in &mut o {
            r.truncate(w);
        }
        return o;
    }
    if t.is_empty() {
        return u.clone();
    }
    let mut o = t.clone();
    if let Some(h) = u.first() {
        let w = o[0].len();
        o[0].extend(h.iter().skip(w).cloned());
    }
    o.extend(data(u).iter().cloned());
    pad(o)
}
fn by_col(t: &Tab, u: &Tab, intersect: bool) -> Tab {
    let (a, b) = (t.len(), u.len());
    let l = if intersect { a.min(b) } else { a.max(b) };
    let (w, v) = (width(t), width(u));
    (0..l)
        .map(|i| {
            let mut r = t.get(i).cloned().unwrap_or_default();
            r.resize(w, Nil);
            r.extend(u.get(i).cloned().unwrap_or_default());
            r.resize(w + v, Nil);
            r
        })
        .collect()
}
fn plus(arg: &str, flags: &str, f: impl Fn(&Tab) -> Option<Tab> + Sync + Send + 'static) -> Op {
    let (cols, inter) = (flags.contains("cols"), flags.contains("intersect"));
    op(format!("+ {arg} {flags}"), move |t| {
        let u = f(t)?;
        Some(if cols { by_col(t, &u, inter) } else { by_row(t, &u, inter) })
    })
}
fn append_row(src: &str, f: fn(&Tab) -> Vec<Cell>) -> Op {
    op(src, move |t| {
        let mut o = t.clone();
        o.push(f(t));
        let mut o = pad(o);
        let mut k = 1;
        for c in &mut o[0] {
            if *c == Nil {
                *c = s(format!("_append{k}"));
                k += 1;
            }
        }
        Some(o)
    })
}
pub fn combine_ops() -> Vec<Op> {
    let mut v = Vec::new();
    for flags in ["", "--union", "--intersect", "--cols", "--cols --intersect"] {
        v.push(plus("{ take 1 }", flags, |t| Some(with_rows(t, data(t).iter().take(1).cloned().collect()))));
        v.push(plus("{ rev | pick b }", flags, |t| {
            let c = ci(t, "b")?;
            Some(with_rows(t, data(t).iter().rev().cloned().collect()).iter().map(|r| vec![r[c].clone()]).collect())
        }));
        v.push(plus("{ Table p q r s }", flags, |_| Some(vec![vec![s("p"), s("q"), s("r"), s("s")]])));
        v.push(plus("{ range 4 7 }", flags, |_| Some(vec![vec![s("i")], vec![n(4.)], vec![n(5.)], vec![n(6.)]])));
    }
    v.push(append_row("append-row 1 'w'", |_| vec![n(1.), s("w")]));
    v.push(append_row("append-row 1", |_| vec![n(1.)]));
    v.push(append_row("append-row { len } #f 'w' 4", |t| vec![n(data(t).len() as f64), Bool(false), s("w"), n(4.)]));
    v
}
pub fn c26(ctx: &mut Ctx) {
    let tabs = |hi| family(&[("a", &[n(1.), Nil]), ("b", &[s("x"), s("y")])], 0, hi);
    let o = combine_ops();
    let three = [op("+ { take 1 } { skip 1 }", |t| {
        let u = by_row(t, &with_rows(t, data(t).iter().take(1).cloned().collect()), false);
        Some(by_row(&u, &with_rows(t, data(t).iter().skip(1).cloned().collect()), false))
    })];
    let f = [fin("len", |t| Some(Num(data(t).len() as f64))), fin("len --cols", |t| Some(Num(width(t) as f64)))];
    pipelines(ctx, "odd tables", &odd(), &o, &f, 1);
    pipelines(ctx, "two steps on odd tables", &odd()[1..], &o, &f, 2);
    pipelines(ctx, "one step", &tabs(ctx.pick(6, 8)), &o, &f, 1);
    pipelines(ctx, "several arguments", &tabs(ctx.pick(3, 5)), &three, &f, 2);
    pipelines(ctx, "two steps", &tabs(ctx.pick(4, 5)), &o, &f, 2);
    pipelines(ctx, "three steps", &tabs(ctx.pick(2, 3)), &o, &f, 3);
    // ranges and fresh tables
    let k = ctx.pick(12u64, 40);
    ctx.cases(
        "ranges",
        k * k,
        |i| format!("range {} {}", i / k, i % k),
        |i| {
            let (a, b) = (i / k, i % k);
            let exp: Tab = std::iter::once(vec![s("i")]).chain((a..b).map(|x| vec![n(x as f64)])).collect();
            both(&vec![], &format!("range {a} {b}"), &Some(T(exp.clone())))?;
            both(&vec![], &format!("\\ {b} | range {a}"), &Some(T(exp)))?;
            Ok(2)
        },
    );
}
