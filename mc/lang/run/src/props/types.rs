//! User-defined types: what a constructor takes, what it holds, how it is compared.
use crate::lang::{self, Definitions};
use crate::model::{agree, defs, n, s, Cell};
use mcrt::driver::Ctx;
use std::collections::{BTreeMap, BTreeSet};

/// Types of fields and of arguments.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    Num,
    Str,
    Bool,
    In,
    Sum,
    Tab,
    Other,
}
const FIELDS: [T; 6] = [T::Num, T::Str, T::In, T::Sum, T::Bool, T::Tab];
impl T {
    fn src(self) -> &'static str {
        match self {
            T::Num => "Num",
            T::Str => "Str",
            T::Bool => "Bool",
            T::In => "In",
            T::Sum => "S",
            T::Tab => "Table",
            T::Other => unreachable!(),
        }
    }
}
const BASE: [&str; 2] = ["def-ty In { p:Num q:Str }", "def-ty S :: A | B { v:Num } | C { u:Str v:In }"];
fn data(ty: &str, f: &[Cell]) -> Cell {
    Cell::Data(format!("{ty}({})", f.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", ")))
}
fn inn(p: f64, q: &str) -> Cell {
    data("In", &[n(p), s(q)])
}
/// Arguments, given the input 5: text, type, value (`None`: fails when run).
fn args() -> Vec<(&'static str, T, Option<Cell>)> {
    vec![
        ("1", T::Num, Some(n(1.))),
        ("'x'", T::Str, Some(s("x"))),
        ("{ In 2 'b' }", T::In, Some(inn(2., "b"))),
        ("{ S::A }", T::Sum, Some(data("S::0", &[]))),
        ("#i", T::Num, Some(n(5.))),
        ("{ + 1 | to-str }", T::Str, Some(s("6"))),
        ("#t", T::Bool, Some(Cell::Bool(true))),
        ("{ S::C 'k' { In 7 'z' } }", T::Sum, Some(data("S::2", &[s("k"), inn(7., "z")]))),
        ("{ range 0 1 }", T::Tab, Some(Cell::Tab(vec![vec![s("i")], vec![n(0.)]]))),
        ("$in", T::In, Some(inn(9., "w"))),
        ("{ range -1 1 | len }", T::Num, None),
        ("{ Tuple 1 2 }", T::Other, Some(n(0.))),
        ("#n", T::Other, Some(n(0.))),
        ("{ + 10 | In #i 'y' }", T::In, Some(inn(15., "y"))),
        ("{ S::B #i }", T::Sum, Some(data("S::1", &[n(5.)]))),
    ]
}
fn digits(mut i: u64, k: usize, d: usize) -> Vec<usize> {
    (0..d)
        .map(|_| {
            let x = (i % k as u64) as usize;
            i /= k as u64;
            x
        })
        .collect()
}
fn with(more: &[String], f: impl FnOnce(&Definitions) -> Result<u64, String>) -> Result<u64, String> {
    defs(|d| {
        let mut d = d.clone();
        for t in BASE.iter().map(|t| t.to_string()).chain(more.iter().cloned()) {
            lang::define(&mut d, &t).map_err(|e| format!("`{t}` was refused: {e}"))?;
        }
        f(&d)
    })
}
fn eval(d: &Definitions, src: &str, exp: &Option<Cell>) -> Result<(), String> {
    agree(src, &lang::eval(src, d), exp)
}
const NAMES: [&str; 4] = ["a", "b", "c", "d"];
const PRE: &str = "\\ 5 | let { In 9 'w' } $in | ";

/// Every type of up to some fields, made with every list of arguments.
fn products(ctx: &mut Ctx, fields: usize, nargs: usize, over: usize) {
    let k = args().len().min(nargs);
    for nf in 1..=fields {
        let nt = (FIELDS.len() as u64).pow(nf as u32);
        // (one argument more than there are fields, of a smaller choice)
        for na in nf.saturating_sub(1)..=nf + 1 {
            let k = if na > nf || na > 2 { k.min(over) } else { k };
            let nv = (k as u64).pow(na as u32);
            let ty = move |i: u64| digits(i / nv, FIELDS.len(), nf).into_iter().map(|x| FIELDS[x]).collect::<Vec<_>>();
            let def = move |i: u64| {
                let f: Vec<String> = ty(i).iter().enumerate().map(|(j, t)| format!("{}:{}", NAMES[j], t.src())).collect();
                format!("def-ty P {{ {} }}", f.join(" "))
            };
            let make = move |i: u64| {
                let a: Vec<&str> = digits(i % nv, k, na).into_iter().map(|x| args()[x].0).collect();
                format!("P {}", a.join(" "))
            };
            ctx.cases(
                &format!("types of {nf} fields made from {na} arguments"),
                nt * nv,
                |i| format!("{}; {}", def(i), make(i)),
                |i| {
                    let t = ty(i);
                    let av: Vec<_> = digits(i % nv, k, na).into_iter().map(|x| args()[x].clone()).collect();
                    let ok = nf == na && t.iter().zip(&av).all(|(t, a)| *t == a.1);
                    let vals: Option<Vec<Cell>> = if ok { av.iter().map(|a| a.2.clone()).collect() } else { None };
                    let m = make(i);
                    with(&[def(i)], |d| {
                        let mut k = 1;
                        eval(d, &format!("{PRE}{m}"), &vals.as_ref().map(|v| data("P", v)))?;
                        if !ok {
                            return Ok(k);
                        }
                        for j in 0..nf {
                            let v = vals.as_ref().map(|v| v[j].clone());
                            let f = NAMES[j];
                            eval(d, &format!("{PRE}{m} | get {f}"), &v)?;
                            eval(d, &format!("{PRE}\\ {{ {m} }}.{f}"), &v)?;
                            eval(d, &format!("{PRE}{m} | let $p | \\ $p.{f}"), &v)?;
                            k += 3;
                            // taking a field out leaves the value as it is
                            let two = vals.as_ref().map(|v| vec![v[j].clone(), v[(j + 1) % nf].clone(), data("P", v)]);
                            let src = format!("{PRE}{m} | let $p | let {{ \\ $p | get {f} }} $v | let $p.{} $w | Tuple $v $w $p", NAMES[(j + 1) % nf]);
                            match (lang::eval(&src, d), &two) {
                                (Ok(lang::Value::Ogma(t)), Some(two)) => {
                                    let got: Vec<Cell> = t.data().iter().map(crate::model::of_value).collect();
                                    if got != *two {
                                        return Err(format!("`{src}` gave {got:?}, expected {two:?}"));
                                    }
                                }
                                (Err(_), None) => (),
                                (r, _) => return Err(format!("`{src}` gave {}, expected {two:?}", lang::show(&r))),
                            }
                            if t[j] == T::In {
                                let q = |x: &str| {
                                    v.as_ref().map(|v| {
                                        let (p, w) = [(2., "b"), (9., "w"), (15., "y")].into_iter().find(|&(p, w)| inn(p, w) == *v).unwrap();
                                        if x == "p" { n(p) } else { s(w) }
                                    })
                                };
                                eval(d, &format!("{PRE}{m} | get {f} | get q"), &q("q"))?;
                                eval(d, &format!("{PRE}{m} | let $p | \\ $p.{f}.p"), &q("p"))?;
                                k += 2;
                            }
                            if t[j] == T::Sum {
                                eval(d, &format!("{PRE}{m} | get {f} | get v"), &None)?;
                            }
                        }
                        for f in ["e", "A", "t0", "p"].into_iter().chain(NAMES.into_iter().skip(nf)) {
                            eval(d, &format!("{PRE}{m} | get {f}"), &None)?;
                            eval(d, &format!("{PRE}{m} | let $p | \\ $p.{f}"), &None)?;
                            k += 2;
                        }
                        Ok(k)
                    })
                },
            );
        }
    }
}
/// Every choice of variants.
fn sums(ctx: &mut Ctx, nargs: usize) {
    const SHAPES: &[&[T]] = &[&[], &[T::Num], &[T::Str, T::Num], &[T::In], &[T::Sum]];
    let k = args().len().min(nargs);
    let call = 1 + k + k * k + 1;
    for nv in 1..=3 {
        let shapes = (SHAPES.len() as u64).pow(nv as u32);
        let n_each = nv as u64 * call as u64;
        let def = move |i: u64| {
            let v: Vec<String> = digits(i / n_each, SHAPES.len(), nv)
                .into_iter()
                .enumerate()
                .map(|(j, x)| {
                    let f: Vec<String> = SHAPES[x].iter().enumerate().map(|(j, t)| format!("{}:{}", NAMES[j], t.src())).collect();
                    let v = ["X", "Y", "Z"][j];
                    if f.is_empty() {
                        v.to_string()
                    } else {
                        format!("{v} {{ {} }}", f.join(" "))
                    }
                })
                .collect();
            format!("def-ty V :: {}", v.join(" | "))
        };
        let which = move |i: u64| ((i % n_each) / call as u64) as usize;
        let given = move |i: u64| -> Vec<usize> {
            let c = (i % call as u64) as usize;
            match c {
                0 => vec![],
                c if c <= k => vec![c - 1],
                c if c <= k + k * k => vec![(c - 1 - k) / k, (c - 1 - k) % k],
                _ => vec![1, 0, 0],
            }
        };
        let make = move |i: u64| {
            let a: Vec<&str> = given(i).into_iter().map(|x| args()[x].0).collect();
            format!("V::{} {}", ["X", "Y", "Z"][which(i)], a.join(" "))
        };
        ctx.cases(
            &format!("choices of {nv} variants"),
            shapes * n_each,
            |i| format!("{}; {}", def(i), make(i)),
            |i| {
                let shape = SHAPES[digits(i / n_each, SHAPES.len(), nv)[which(i)]];
                let av: Vec<_> = given(i).into_iter().map(|x| args()[x].clone()).collect();
                let ok = shape.len() == av.len() && shape.iter().zip(&av).all(|(t, a)| *t == a.1);
                let vals: Option<Vec<Cell>> = if ok { av.iter().map(|a| a.2.clone()).collect() } else { None };
                let m = make(i);
                with(&[def(i), "def-ty H { h:V }".into()], |d| {
                    let v = vals.as_ref().map(|v| data(&format!("V::{}", which(i)), v));
                    eval(d, &format!("{PRE}{m}"), &v)?;
                    // through a variable, a condition, a field and a table
                    eval(d, &format!("{PRE}{m} | let $v | \\ 1 | if #t $v {{ V::X }}").replace("{ V::X }", &format!("{{ \\ 5 | {m} }}")), &v)?;
                    eval(d, &format!("{PRE}H {{ {m} }} | get h"), &v)?;
                    eval(d, &format!("{PRE}{m} | let $v | range 0 1 | append --v $v | nth 0 get:V v"), &v)?;
                    eval(d, &format!("{PRE}{m} | get a"), &None)?;
                    // it is not of another type
                    eval(d, &format!("{PRE}{m} | let $v | range 0 1 | append --v $v | nth 0 get:S v"), &None)?;
                    Ok(6)
                })
            },
        );
    }
}
/// Comparisons follow what the user defines for the type.
fn compared(ctx: &mut Ctx, hi: usize) {
    use std::cmp::Ordering;
    type C = fn(&[i64; 2], &[i64; 2]) -> Ordering;
    const CMP: &[(&str, C)] = &[
        ("get a | cmp $rhs.a", |x, y| x[0].cmp(&y[0])),
        ("get b | cmp $rhs.b", |x, y| x[1].cmp(&y[1])),
        ("let $l | \\ $rhs.a | cmp $l.a", |x, y| y[0].cmp(&x[0])),
        ("let $l | get a | + $l.b | cmp { \\ $rhs.a | + $rhs.b }", |x, y| (x[0] + x[1]).cmp(&(y[0] + y[1]))),
        ("let { get a | cmp $rhs.a } $c | get b | if { \\ $c | = Ord::Eq } { cmp $rhs.b } $c", |x, y| x.cmp(y)),
        ("\\ Ord::Gt", |_, _| Ordering::Greater),
        ("\\ Ord::Eq", |_, _| Ordering::Equal),
    ];
    type E = fn(&[i64; 2], &[i64; 2]) -> bool;
    const EQ: &[(&str, E)] = &[
        ("and { get a | = $rhs.a } { get b | = $rhs.b }", |x, y| x == y),
        ("get a | = $rhs.a", |x, y| x[0] == y[0]),
        ("\\ #t", |_, _| true),
        ("get b | != $rhs.a", |x, y| x[1] != y[0]),
    ];
    let vals: Vec<[i64; 2]> = (0..hi as i64).flat_map(|a| (0..hi as i64).map(move |b| [a, b])).collect();
    let nv = vals.len() as u64;
    // (none) or one of each, and what comes in place of it
    let nc = CMP.len() as u64 + 1;
    let ne = EQ.len() as u64 + 1;
    ctx.cases(
        "comparison of values of a type",
        nc * nc * ne * nv,
        |i| format!("comparisons {} and {}, equality {}, of {:?}", i / nv % nc, i / nv / nc % nc, i / nv / nc / nc, vals[(i % nv) as usize]),
        |i| {
            let x = &vals[(i % nv) as usize];
            let c = [i / nv % nc, i / nv / nc % nc].map(|c| c as usize);
            let e = (i / nv / nc / nc) as usize;
            let mut ds = vec!["def-ty P { a:Num b:Num }".to_string()];
            for c in c {
                if c > 0 {
                    ds.push(format!("def cmp P (rhs:P) {{ {} }}", CMP[c - 1].0));
                }
            }
            if e > 0 {
                ds.push(format!("def eq P (rhs:P) {{ {} }}", EQ[e - 1].0));
            }
            let c = if c[1] > 0 { c[1] } else { c[0] };
            let cmp = |x, y| (c > 0).then(|| CMP[c - 1].1(x, y));
            let eq = |x, y| (e > 0).then(|| EQ[e - 1].1(x, y));
            let b = |b: Option<bool>| b.map(Cell::Bool);
            let o = |o: Option<Ordering>| {
                o.map(|o| Cell::Data(match o {
                    Ordering::Less => "Lt",
                    Ordering::Equal => "Eq",
                    Ordering::Greater => "Gt",
                }.into()))
            };
            with(&ds, |d| {
                let mut k = 0;
                for y in &vals {
                    let t = |op: &str, exp: Option<Cell>| eval(d, &format!("P {} {} | {op} {{ P {} {} }}", x[0], x[1], y[0], y[1]), &exp);
                    t("cmp", o(cmp(x, y)))?;
                    t("eq", b(eq(x, y)))?;
                    t("=", b(eq(x, y)))?;
                    t("!=", b(eq(x, y).map(|e| !e)))?;
                    t("<", b(cmp(x, y).map(|o| o.is_lt())))?;
                    t("<=", b(cmp(x, y).map(|o| o.is_le())))?;
                    t(">", b(cmp(x, y).map(|o| o.is_gt())))?;
                    t(">=", b(cmp(x, y).map(|o| o.is_ge())))?;
                    // a pair: first this, then the number
                    for (p, q) in [(0, 0), (0, 1), (1, 0)] {
                        let pair = cmp(x, y).map(|c| c.then(p.cmp(&q)));
                        let src = format!("Tuple {{ P {} {} }} {p} | cmp {{ Tuple {{ P {} {} }} {q} }}", x[0], x[1], y[0], y[1]);
                        eval(d, &src, &o(pair))?;
                        let pair = eq(x, y).map(|e| e && p == q);
                        let src = src.replace("| cmp", "| =");
                        eval(d, &src, &b(pair))?;
                    }
                    k += 14;
                }
                // sorting: rows which compare equal keep their order
                if c > 0 && c <= 5 {
                    let mut order: Vec<usize> = (0..vals.len()).collect();
                    order.sort_by(|&i, &j| CMP[c - 1].1(&vals[i], &vals[j]));
                    let src = format!(
                        "range 0 {} | append --p {{ P {{ get:Num i | / {hi} | floor }} {{ get:Num i | mod {hi} }} }} | sort-by get:P p | pick i",
                        vals.len()
                    );
                    let exp = std::iter::once(vec![s("i")]).chain(order.iter().map(|&i| vec![n(i as f64)])).collect();
                    eval(d, &src, &Some(Cell::Tab(exp)))?;
                    k += 1;
                }
                Ok(k)
            })
        },
    );
}
/// Values in the cells of tables.
fn in_tables(ctx: &mut Ctx) {
    type F = fn(f64, &str) -> Option<Cell>;
    // on a table of `p`, from the fields a:Num b:Str
    const COL: &[(&str, F)] = &[
        ("append --v { get:P p | get a }", |a, _| Some(n(a))),
        ("append --v { get:P p | get b }", |_, b| Some(s(b))),
        ("append --v { get --P p | get a | + 1 }", |a, _| Some(n(a + 1.))),
        ("append --v { let $row | \\ $row.p:P | get a }", |a, _| Some(n(a))),
        ("append --v get:Num p", |_, _| None),
        ("append --v get:P q", |_, _| None),
        ("append --v get:In p", |_, _| None),
        ("append --v { get:P p | get c }", |_, _| None),
        ("append --v { get:P p | P 3 { get b } }", |_, b| Some(data("P", &[n(3.), s(b)]))),
        ("map --P p { get a | to-str } | ren p 'v'", |a, _| Some(s(a.to_string()))),
        ("map --P p { P { get a | * 2 } { get b | + 'z' } } | ren p 'v'", |a, b| Some(data("P", &[n(a * 2.), s(format!("{b}z"))]))),
        ("map --Num p { + 1 } | ren p 'v'", |_, _| None),
        ("append --w { get:P p | get a } | append --v { get:P p | let $p | get b | + $p.b }", |_, b| Some(s(format!("{b}{b}")))),
        ("append --v { get:P p | let $p | \\ $p.a | + $p.a }", |a, _| Some(n(a + a))),
    ];
    type K = fn(f64, &str) -> Option<bool>;
    const KEEP: &[(&str, K)] = &[
        ("filter { get:P p | get a | > 0 }", |a, _| Some(a > 0.)),
        ("filter p --P { get b | = 'x' }", |_, b| Some(b == "x")),
        ("filter --P p { get b | = 'x' }", |_, b| Some(b == "x")),
        ("filter { get:P p | get b | = 1 }", |_, _| None),
        ("filter { #t }", |_, _| None),
    ];
    let pool: Vec<(f64, &str)> = vec![(0., "x"), (1., "x"), (1., "y"), (2., "")];
    let hi = ctx.pick(3usize, 4);
    let tabs: u64 = (0..=hi as u32).map(|k| 4u64.pow(k)).sum();
    let rows = |mut i: u64| {
        let mut k = 0;
        while i >= 4u64.pow(k) {
            i -= 4u64.pow(k);
            k += 1;
        }
        digits(i, 4, k as usize)
    };
    let ways = (COL.len() + KEEP.len()) as u64;
    let src = |i: u64| {
        let w = (i % ways) as usize;
        let mut o = String::from("Table 'p' | ");
        for &r in &rows(i / ways) {
            let (a, b) = pool[r];
            o += &format!("append-row {{ P {a} '{b}' }} | ");
        }
        o + if w < COL.len() { COL[w].0 } else { KEEP[w - COL.len()].0 }
    };
    ctx.cases("values in tables", tabs * ways, src, |i| {
        let (w, r) = ((i % ways) as usize, rows(i / ways));
        let mut t = src(i);
        let exp = if w < COL.len() {
            t += " | pick v";
            r.iter().map(|&x| COL[w].1(pool[x].0, pool[x].1).map(|c| vec![c])).collect::<Option<Vec<_>>>().map(|v| {
                Cell::Tab(std::iter::once(vec![s("v")]).chain(v).collect())
            })
        } else {
            r.iter()
                .map(|&x| KEEP[w - COL.len()].1(pool[x].0, pool[x].1).map(|k| (k, x)))
                .collect::<Option<Vec<_>>>()
                .map(|v| {
                    let rows = v.into_iter().filter(|x| x.0).map(|(_, x)| vec![data("P", &[n(pool[x].0), s(pool[x].1)])]);
                    Cell::Tab(std::iter::once(vec![s("p")]).chain(rows).collect())
                })
        };
        with(&["def-ty P { a:Num b:Str }".into()], |d| {
            let got = lang::eval(&t, d);
            // with no rows nothing needs to be wrong
            if r.is_empty() && (w < COL.len() && COL[w].1(0., "").is_none() || w >= COL.len() && KEEP[w - COL.len()].1(0., "").is_none()) {
                return Ok(1);
            }
            agree(&t, &got, &exp)?;
            Ok(1)
        })
    });
}
/// Sequences of definitions of types which may clash.
fn clashes(ctx: &mut Ctx) {
    // text, name, variants (or none), types it needs, constructors with their arity
    struct D {
        src: &'static str,
        name: &'static str,
        needs: &'static [&'static str],
        makes: &'static [(&'static str, usize)],
        bad: bool,
    }
    const D: &[D] = &[
        D { src: "def-ty A { x:Num }", name: "A", needs: &[], makes: &[("A", 1)], bad: false },
        D { src: "def-ty A { x:Num y:Num }", name: "A", needs: &[], makes: &[("A", 2)], bad: false },
        D { src: "def-ty A :: X | Y { x:Num }", name: "A", needs: &[], makes: &[("A::X", 0), ("A::Y", 1)], bad: false },
        D { src: "def-ty B { x:Num z:A }", name: "B", needs: &["A"], makes: &[("B", 9)], bad: false },
        D { src: "def-ty B :: X | A { x:A }", name: "B", needs: &["A"], makes: &[("B::X", 0), ("B::A", 9)], bad: false },
        D { src: "def-ty A { a:A }", name: "A", needs: &["A"], makes: &[], bad: false },
        D { src: "def-ty A { b:B }", name: "A", needs: &["B"], makes: &[("A", 9)], bad: false },
        D { src: "def-ty B :: X | X", name: "B", needs: &[], makes: &[], bad: true },
        D { src: "def-ty Num { x:Num }", name: "Num", needs: &[], makes: &[], bad: true },
        D { src: "def-ty Ord :: X", name: "Ord", needs: &[], makes: &[], bad: true },
        D { src: "def-ty Table { x:Num }", name: "Table", needs: &[], makes: &[], bad: true },
        D { src: "def-ty Tuple { x:Num y:Num }", name: "Tuple", needs: &[], makes: &[], bad: true },
        D { src: "def-ty A { x }", name: "A", needs: &[], makes: &[], bad: true },
        D { src: "def-ty A { x:Unknown }", name: "A", needs: &[], makes: &[], bad: true },
        D { src: "def-ty A", name: "A", needs: &[], makes: &[], bad: true },
        D { src: "def-ty U_Num-Num_ { x:Num }", name: "U_Num-Num_", needs: &[], makes: &[], bad: true },
        D { src: "def-ty C { x:Num", name: "C", needs: &[], makes: &[], bad: true },
        D { src: "def-ty --clear", name: "", needs: &[], makes: &[], bad: false },
    ];
    let depth = ctx.pick(3, 4);
    ctx.sequences(
        "clashing definitions of types",
        D.len(),
        depth,
        |o| o.iter().map(|&o| D[o as usize].src).collect::<Vec<_>>().join("; "),
        |o| {
            defs(|d| {
                let mut d = d.clone();
                let mut known: BTreeSet<&str> = BTreeSet::new();
                let mut makes: BTreeMap<&str, usize> = BTreeMap::new();
                for (k, &o) in o.iter().enumerate() {
                    let x = &D[o as usize];
                    let exp = !x.bad && !known.contains(x.name) && x.needs.iter().all(|n| known.contains(n));
                    let got = lang::define(&mut d, x.src);
                    if got.is_ok() != exp {
                        return Err(format!("definition {} gave {got:?}, expected {}", k + 1, if exp { "it to be accepted" } else { "it to be refused" }));
                    }
                    if x.name.is_empty() {
                        known.clear();
                        makes.clear();
                    } else if exp {
                        known.insert(x.name);
                        makes.extend(x.makes.iter().copied());
                    }
                }
                // (the types as they are)
                for t in ["A", "B", "C"] {
                    if d.types().contains_type(t) != known.contains(t) {
                        return Err(format!("type {t} is {}known", if known.contains(t) { "not " } else { "" }));
                    }
                }
                for m in ["A", "A::X", "A::Y", "B", "B::X", "B::A", "Num", "Ord::X", "C", "U_Num-Num_"] {
                    for na in 0..3 {
                        let src = format!("{m} {}", ["1", "2"][..na].join(" "));
                        let got = lang::eval(&src, &d);
                        match makes.get(m) {
                            // (needs an argument which is a value of a type)
                            Some(9) => (),
                            Some(&k) if k == na => {
                                let exp = match m.split_once("::") {
                                    Some((t, "X")) => data(&format!("{t}::0"), &[]),
                                    Some((t, _)) => data(&format!("{t}::1"), &[n(1.)]),
                                    None => data(m, &[n(1.), n(2.)][..na]),
                                };
                                agree(&src, &got, &Some(exp))?;
                            }
                            _ => agree(&src, &got, &None)?,
                        }
                    }
                }
                // what was there before is as it was
                agree("Tuple 1 2 | get t1", &lang::eval("Tuple 1 2 | get t1", &d), &Some(n(2.)))?;
                agree("\\ 1 | cmp 2", &lang::eval("\\ 1 | cmp 2", &d), &Some(Cell::Data("Lt".into())))
            })
        },
    );
}
pub fn c38(ctx: &mut Ctx) {
    products(ctx, ctx.pick(2, 3), ctx.pick(13, 15), ctx.pick(6, 10));
    sums(ctx, ctx.pick(6, 12));
    compared(ctx, ctx.pick(2, 3));
    in_tables(ctx);
    clashes(ctx);
}
