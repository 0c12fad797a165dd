//! Values which are used more than once, and work which is spread over threads.
use super::tables::*;
use crate::lang;
use crate::model::*;
use crate::model::Cell::{Nil, Num, Str as S, Tab as T};
use mcrt::driver::Ctx;
use mcrt::Config;

fn all_ops() -> Vec<Op> {
    let mut v = Vec::new();
    v.extend(row_ops());
    v.extend(transform_ops());
    v.extend(column_ops());
    v.extend(order_ops());
    v.extend(group_ops());
    v.extend(combine_ops());
    v
}
fn table(rows: usize) -> Tab {
    let (a, b, c) = ([2., 1., 1., 3., 2.], ["x", "y", "x", "y", "x"], [4., -5., 4., 6., 0.]);
    let mut t = vec![vec![s("a"), s("b"), s("c")]];
    for k in 0..rows {
        t.push(vec![n(a[k % 5]), s(b[k % 5]), n(c[k % 5])]);
    }
    t
}
fn inputs() -> Vec<Tab> {
    vec![table(3), table(0), vec![vec![s("b"), s("a")], vec![s("x"), n(2.)], vec![Nil, n(1.)]]]
}
fn tab(c: &Option<Cell>) -> Option<&Tab> {
    match c {
        Some(T(t)) => Some(t),
        _ => None,
    }
}
/// What a program of two or three operations around a shared value has to give.
struct Way {
    src: fn(&[&str]) -> String,
    exp: fn(&Tab, &[&Op]) -> Option<Cell>,
    ops: usize,
}
fn one(t: &Tab, o: &Op) -> Option<Cell> {
    (o.f)(t)
}
fn then(c: Option<Cell>, o: &Op) -> Option<Cell> {
    (o.f)(tab(&c)?)
}
fn ways() -> Vec<Way> {
    vec![
        // a variable after the value which was bound to it has been worked on
        Way {
            src: |o| format!("let $t | {} | {} | \\ $t", o[0], o[1]),
            exp: |t, o| then(one(t, o[0]), o[1]).map(|_| T(t.clone())),
            ops: 2,
        },
        Way {
            src: |o| format!("let {{ {} }} $u | {} | \\ $u", o[0], o[1]),
            exp: |t, o| one(t, o[1]).and(one(t, o[0])),
            ops: 2,
        },
        // a variable is worked on, and read again
        Way {
            src: |o| format!("let {{ {} }} $u | \\ $u | {} | let $w | \\ $u", o[0], o[1]),
            exp: |t, o| {
                let u = one(t, o[0]);
                then(u.clone(), o[1]).and(u)
            },
            ops: 2,
        },
        // worked on twice from the same state
        Way {
            src: |o| format!("let $t | {} | let $u | \\ $t | {}", o[0], o[1]),
            exp: |t, o| one(t, o[0]).and(one(t, o[1])),
            ops: 2,
        },
        // both results at once
        Way {
            src: |o| format!("let {{ {} }} $u {{ {} }} $v | \\ $u", o[0], o[1]),
            exp: |t, o| one(t, o[1]).and(one(t, o[0])),
            ops: 2,
        },
        Way {
            src: |o| format!("let {{ {} }} $u {{ {} }} $v | \\ $v", o[0], o[1]),
            exp: |t, o| one(t, o[0]).and(one(t, o[1])),
            ops: 2,
        },
        // fields of a tuple
        Way {
            src: |o| format!("let $t | Tuple #i {{ {} }} | let $p | \\ $p.t1 | {} | let $w | \\ $p.t1", o[0], o[1]),
            exp: |t, o| {
                let u = one(t, o[0]);
                then(u.clone(), o[1]).and(u)
            },
            ops: 2,
        },
        Way {
            src: |o| format!("Tuple {{ {} }} #i | let $p | \\ $p.t1 | {} | let $w | \\ $p.t1", o[0], o[1]),
            exp: |t, o| one(t, o[0]).and(one(t, o[1])).map(|_| T(t.clone())),
            ops: 2,
        },
        // in parts which run once per row
        Way {
            src: |o| format!("let $t | {} | append {{ \\ $t | {} | len }} --k | let $w | \\ $t", o[0], o[1]),
            exp: |t, o| {
                let u = one(t, o[0])?;
                let u = tab(&Some(u))?.clone();
                if !data(&u).is_empty() {
                    one(t, o[1])?;
                }
                Some(T(t.clone()))
            },
            ops: 2,
        },
        Way {
            src: |o| format!("let $t | {} | fold 0 {{ let $q | \\ $t | {} | len | + $q }}", o[0], o[1]),
            exp: |t, o| {
                let u = one(t, o[0])?;
                let k = data(tab(&Some(u))?).len();
                if k == 0 {
                    return Some(Num(0.));
                }
                let l = data(tab(&one(t, o[1]))?).len();
                Some(Num((k * l) as f64))
            },
            ops: 2,
        },
        // a condition works on what is carried through
        Way {
            src: |o| format!("if {{ {} | len | > 90 }} {{ {} }} #i", o[0], o[1]),
            exp: |t, o| one(t, o[0]).map(|_| T(t.clone())),
            ops: 2,
        },
    ]
}
pub fn c27(ctx: &mut Ctx) {
    let ops = all_ops();
    let tabs = inputs();
    let w = ways();
    let k = ops.len() as u64;
    let nt = ctx.pick(2, tabs.len() as u64);
    let get = |i: u64| {
        let (x, i) = (i % w.len() as u64, i / w.len() as u64);
        let (t, i) = (i % nt, i / nt);
        (&w[x as usize], &tabs[t as usize], vec![&ops[(i % k) as usize], &ops[(i / k) as usize]])
    };
    let text = |w: &Way, o: &[&Op]| (w.src)(&o.iter().map(|o| o.src.as_str()).collect::<Vec<_>>());
    ctx.cases(
        "a value used twice",
        k * k * nt * w.len() as u64,
        |i| {
            let (w, t, o) = get(i);
            format!("{} on {t:?}", text(w, &o))
        },
        |i| {
            let (w, t, o) = get(i);
            match both(t, &text(w, &o), &(w.exp)(t, &o)) {
                // the compiler asks for an annotation: a limit of the inference, it says so
                Err(e) if e.contains("inference depth reached") => Ok(0),
                r => r.map(|_| w.ops as u64),
            }
        },
    );
    // a definition works on its parameter and on its input
    let sig = ["def f Table (x) { BODY }", "def f Table (x:Table) { BODY }", "def f Table (x:Expr) { BODY }"];
    let nk = ctx.pick(30, k).min(k);
    ctx.cases(
        "a parameter used twice",
        nk * k * sig.len() as u64,
        |i| format!("{i}"),
        |i| {
            let (sg, i) = (sig[(i % 3) as usize], i / 3);
            let (a, b) = (&ops[(i % k) as usize], &ops[(i / k * k / nk) as usize]);
            let t = table(3);
            let mut ds = defs(|d| d.clone());
            let body = format!("let $t | let {{ {} }} $r | let $x $y | \\ $y | {} | let $w | \\ $t | + $y", a.src, b.src);
            lang::define(&mut ds, &sg.replace("BODY", &body)).map_err(|e| format!("`{body}` is refused: {e}"))?;
            let exp = one(&t, a).and(one(&t, b)).map(|_| {
                let mut u = t.clone();
                u.extend(data(&t).to_vec());
                T(u)
            });
            let held = to_table(&t);
            let src = "let $z | f $z";
            agree(&format!("{src} with {body}"), &lang::eval_owned(held.clone(), src, &ds), &exp)?;
            if of_table(&held) != t {
                return Err(format!("`{src}` with {body} changed a table held elsewhere"));
            }
            Ok(1)
        },
    );
}

// ------ threads ------
/// Operations some part of which is spread over threads.
fn spread() -> Vec<Op> {
    let mut v = transform_ops();
    v.extend(row_ops().into_iter().filter(|o| o.src.starts_with("filter")));
    v.extend(column_ops());
    v.extend(order_ops());
    v.extend(group_ops());
    v
}
fn rows_of(k: usize, odd: bool) -> Tab {
    let mut t = table(k);
    if odd {
        t.last_mut().unwrap()[0] = s("q");
    }
    t
}
/// Appends several columns, each of them in parallel.
fn wide(o: &Op) -> bool {
    o.src.starts_with("append") && (o.src.contains("} {") || o.src.contains(" 'q' "))
}
pub fn c28(ctx: &mut Ctx) {
    let ops = spread();
    let rows = ctx.pick(4usize, 6);
    let masks = 1u64 << rows; // one more item than rows: the header
    let k = ops.len() as u64;
    let tabs = [rows_of(rows, false), rows_of(rows, true), rows_of(2, false)];
    let nt = tabs.len() as u64;
    ctx.cases(
        "every partition of the rows",
        k * nt * masks * 2,
        |i| format!("{} cut at {:b}", ops[(i / (nt * masks * 2)) as usize].src, i / 2 % masks),
        |i| {
            let (rev, i) = (i % 2 == 1, i / 2);
            let (m, i) = (i % masks, i / masks);
            let (t, o) = (&tabs[(i % nt) as usize], &ops[(i / nt) as usize]);
            rayon::plan(m, rev);
            let r = both(t, &o.src, &apply(t, &[o]));
            rayon::plan(0, false);
            r.map_err(|e| format!("{e} (rows cut at {m:b}, reversed {rev})"))?;
            Ok(1)
        },
    );
    let t3 = rows_of(3, false);
    ctx.cases(
        "every partition, two operations",
        k * k * 8 * 2,
        |i| format!("{} | {}", ops[(i / 16 % k) as usize].src, ops[(i / 16 / k) as usize].src),
        |i| {
            let (a, b) = (&ops[(i / 16 % k) as usize], &ops[(i / 16 / k) as usize]);
            rayon::plan(i / 2 % 8, i % 2 == 1);
            let r = both(&t3, &src_of(&[a, b]), &apply(&t3, &[a, b]));
            rayon::plan(0, false);
            r.map_err(|e| format!("{e} (rows cut at {:b})", i / 2 % 8))?;
            Ok(2)
        },
    );
    // every cut into up to three chunks, each on a thread of its own, under every schedule
    let (nr, bound, cuts) = ctx.pick((3usize, 1, 2), (3, 2, 2));
    let tabs = [rows_of(nr, false), rows_of(nr, true)];
    for o in &ops {
        ctx.explore(Config::new(&format!("schedules of {}", o.src)).bound(if wide(o) { bound - 1 } else { bound }), || {
            rayon::budget(cuts);
            let t = &tabs[mcrt::choose(tabs.len(), "table")];
            let got = defs(|d| lang::eval_owned(to_table(t), &o.src, d));
            if let Err(e) = agree(&o.src, &got, &apply(t, &[o])) {
                mcrt::fail(format!("{e}, on {t:?}"));
            }
        });
    }
}
