//! Writing and typing expressions.
use crate::lang::{self, Definitions, Value};
use crate::model::{defs, n, s, to_table, Tab};
use mcrt::driver::Ctx;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub(super) enum Ty {
    Num,
    Str,
    Bool,
    Table,
    Row,
    Pair,
}
use Ty::*;
fn name(t: Ty) -> &'static str {
    match t {
        Num => "Num",
        Str => "Str",
        Bool => "Bool",
        Table => "Table",
        Row => "TableRow",
        Pair => "U_Num-Str_",
    }
}
/// (the type of a tuple has no name until there is one)
fn known(t: Ty) -> bool {
    t != Pair
}
#[derive(Clone, Debug)]
pub(super) enum Arg {
    /// written as it is
    Raw(&'static str),
    Text(&'static str),
    /// field of an argument
    Dot(&'static str, &'static str),
    Sub(Arc<Prog>),
}
#[derive(Clone, Debug)]
pub(super) struct Blk {
    op: &'static str,
    args: Vec<Arg>,
    i: Ty,
    o: Ty,
}
pub(super) type Prog = Vec<Blk>;
/// What may be an argument: fixed, or something which takes a type to another.
#[derive(Clone, Copy)]
enum Slot {
    Fix(&'static str),
    Col(&'static str),
    /// a value, out of the input of the block
    Val(Ty),
    /// a value of the second type, out of the first
    Ex(Ty, Ty),
}
use Slot::*;
fn ops(i: Ty) -> Vec<(&'static str, Vec<Slot>, Ty)> {
    let mut v: Vec<(&'static str, Vec<Slot>, Ty)> = match i {
        Num => vec![
            ("+", vec![Val(Num)], Num),
            ("-", vec![Val(Num), Val(Num)], Num),
            ("=", vec![Val(Num)], Bool),
            (">=", vec![Val(Num)], Bool),
            ("max", vec![Val(Num)], Num),
            ("to-str", vec![], Str),
            ("Tuple", vec![Val(Num), Val(Str)], Pair),
            ("let", vec![Val(Str), Fix("$s")], Num),
        ],
        Str => vec![("+", vec![Val(Str)], Str), ("len", vec![], Num), ("=", vec![Val(Str)], Bool)],
        Bool => vec![("not", vec![], Bool), ("and", vec![Val(Bool)], Bool)],
        Pair => vec![("get", vec![Fix("t0")], Num), (".", vec![Fix("#i"), Fix("t1")], Str), ("=", vec![Val(Pair)], Bool)],
        Table => vec![
            ("len", vec![], Num),
            ("filter", vec![Col("a"), Ex(Num, Bool)], Table),
            ("filter", vec![Ex(Row, Bool)], Table),
            ("map", vec![Col("b c"), Ex(Str, Str)], Table),
            ("fold", vec![Fix("0"), Ex(Num, Num)], Num),
            ("append", vec![Ex(Row, Num)], Table),
            ("sort-by", vec![Ex(Row, Num)], Table),
            ("nth", vec![Fix("0"), Ex(Row, Num)], Num),
            ("rev", vec![], Table),
        ],
        Row => vec![("get", vec![Col("a")], Num), ("get", vec![Col("b c")], Str)],
    };
    if i != Table && i != Row {
        v.push(("if", vec![Val(Bool), Val(Num), Fix("7")], Num));
        v.push(("\\", vec![Val(Str)], Str));
        v.push(("\\", vec![Val(Num)], Num));
    }
    v
}
fn values(i: Ty, o: Ty, var: bool) -> Vec<Arg> {
    let mut v = match o {
        Num => vec![Arg::Raw("2"), Arg::Raw("-1.5e1")],
        Str => vec![Arg::Text("ab"), Arg::Text("c | d"), Arg::Text("é")],
        Bool => vec![Arg::Raw("#t")],
        _ => vec![],
    };
    if i == o {
        v.push(Arg::Raw("#i"))
    }
    if i == Pair && o == Num {
        v.push(Arg::Dot("#i", "t0"))
    }
    if i == Row && o == Str {
        v.push(Arg::Dot("#i", "b c"))
    }
    if var && o == Num {
        v.push(Arg::Raw("$v"))
    }
    v
}
fn cross(slots: &[Slot], i: Ty, depth: usize, var: bool) -> Vec<Vec<Arg>> {
    let mut all = vec![vec![]];
    for s in slots {
        let these: Vec<Arg> = match *s {
            Fix(x) => vec![Arg::Raw(x)],
            Col(x) => vec![Arg::Text(x)],
            Val(o) => {
                let mut v = values(i, o, var);
                if depth > 0 {
                    // (a few of them, if there is more than one)
                    let subs = progs(i, Some(o), 1, depth - 1, var);
                    let few = if slots.len() > 1 { subs.len().div_ceil(4).max(1) } else { 1 };
                    v.extend(subs.into_iter().step_by(few).map(|p| Arg::Sub(Arc::new(p))));
                }
                v
            }
            Ex(a, o) => {
                let len = if a == Row { 2 } else { 1 };
                progs(a, Some(o), len, depth.saturating_sub(1), var).into_iter().map(|p| Arg::Sub(Arc::new(p))).collect()
            }
        };
        all = all.into_iter().flat_map(|h: Vec<Arg>| these.iter().map(move |a| h.iter().cloned().chain([a.clone()]).collect())).collect();
    }
    all
}
/// All pipelines of up to `len` blocks.
fn progs(i: Ty, o: Option<Ty>, len: usize, depth: usize, var: bool) -> Vec<Prog> {
    let mut out = Vec::new();
    for (op, slots, t) in ops(i) {
        let ends = o.is_none_or(|o| o == t);
        if !ends && len == 1 {
            continue;
        }
        let mine = cross(&slots, i, depth, var);
        let rest = if len > 1 { progs(t, o, len - 1, depth, var) } else { vec![] };
        for args in mine {
            let b = Blk { op, args, i, o: t };
            if ends {
                out.push(vec![b.clone()]);
            }
            for r in &rest {
                out.push([b.clone()].into_iter().chain(r.iter().cloned()).collect());
            }
        }
    }
    out
}

// ------ ways of writing ------
#[derive(Clone, Copy, Debug)]
pub(super) struct Style {
    /// between words
    gap: &'static str,
    /// nothing where nothing is needed
    tight: bool,
    /// no braces around the last argument
    bare: bool,
    /// 0: without quotes where possible
    quote: u8,
    /// annotated: inputs 1, outputs of commands 2, of expressions 4
    types: u8,
}
pub(super) const PLAIN: Style = Style { gap: " ", tight: false, bare: false, quote: 1, types: 0 };
fn write(p: &Prog, st: Style, short: bool, o: &mut String) {
    for (k, b) in p.iter().enumerate() {
        let gap = if st.tight { "" } else { st.gap };
        if k > 0 {
            o.push_str(gap);
            o.push('|');
        }
        if st.types & 1 != 0 && !short && known(b.i) {
            o.push(':');
            o.push_str(name(b.i));
            o.push_str(st.gap);
        } else if k > 0 {
            o.push_str(gap);
        }
        o.push_str(b.op);
        // (the output of 'let' and '.' has nowhere to be written)
        if st.types & 2 != 0 && !["let", "."].contains(&b.op) && known(b.o) {
            o.push(':');
            o.push_str(name(b.o));
        }
        let special = !b.op.chars().next().unwrap().is_alphabetic();
        for (n, a) in b.args.iter().enumerate() {
            let braced = matches!(a, Arg::Sub(p) if !(st.bare && n + 1 == b.args.len() && p.len() == 1));
            let glued = st.tight && (n == 0 && special && !short && !matches!(a, Arg::Raw(x) if x.starts_with('-')) && st.types & 2 == 0 || braced);
            if !glued {
                o.push_str(st.gap)
            }
            match a {
                Arg::Raw(x) => o.push_str(x),
                Arg::Text(x) => text(x, st, o),
                Arg::Dot(x, f) => {
                    o.push_str(x);
                    o.push('.');
                    text(f, st, o)
                }
                Arg::Sub(p) if !braced => write(p, st, true, o),
                Arg::Sub(p) => {
                    o.push('{');
                    if st.types & 1 == 0 || !known(p[0].i) {
                        o.push_str(gap);
                    }
                    write(p, st, false, o);
                    o.push_str(gap);
                    o.push('}');
                    if st.types & 4 != 0 && known(p.last().unwrap().o) {
                        o.push(':');
                        o.push_str(name(p.last().unwrap().o));
                    }
                }
            }
        }
    }
}
fn text(x: &str, st: Style, o: &mut String) {
    if st.quote == 0 && x.chars().all(char::is_alphanumeric) {
        o.push_str(x)
    } else {
        let q = if st.quote == 2 { '"' } else { '\'' };
        o.push(q);
        o.push_str(x);
        o.push(q)
    }
}
pub(super) fn src(p: &Prog, st: Style, lead: &str) -> String {
    let mut o = String::from(lead);
    write(p, st, false, &mut o);
    o
}
fn styles(together: usize) -> Vec<Style> {
    let mut v = Vec::new();
    for gap in [" ", "  ", "\n", "\t", "\r\n "] {
        for tight in [false, true] {
            for bare in [false, true] {
                for quote in 0..3 {
                    for types in 0..8 {
                        // each by itself with everything of one other
                        let odd = [gap != " ", tight, bare, quote != 1, types != 0].iter().filter(|x| **x).count();
                        if odd <= together {
                            v.push(Style { gap, tight, bare, quote, types });
                        }
                    }
                }
            }
        }
    }
    v
}
pub(super) fn start(k: Ty, src: &str, d: &Definitions) -> lang::R {
    match k {
        Num => lang::eval_num(3., src, d),
        Str => lang::eval_str("xyz", src, d),
        Bool => ogma::rt::process_expression(true, src, lang::Location::Shell, d, std::path::Path::new("."), std::path::Path::new(".")),
        Table => {
            let t: Tab = vec![vec![s("a"), s("b c")], vec![n(3.), s("x")], vec![n(1.), s("yy")], vec![n(2.), s("")]];
            lang::eval_tab(&to_table(&t), src, d)
        }
        _ => panic!("no such start"),
    }
}
fn same(a: &lang::R, b: &lang::R) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => format!("{a:?}") == format!("{b:?}"),
        (Err(a), Err(b)) => a.cat == b.cat,
        _ => false,
    }
}
fn brief(r: &lang::R) -> String {
    let s = lang::show(r);
    s.chars().take(400).collect()
}
pub(super) fn starts(ctx: &Ctx) -> Vec<(&'static str, Ty, Vec<Prog>)> {
    let l = 2;
    vec![
        ("numbers", Num, progs(Num, None, 2, 1, true)),
        ("text", Str, progs(Str, None, l, 1, false)),
        ("conditions", Bool, progs(Bool, None, l, 1, false)),
        ("tables", Table, progs(Table, None, 2, 1, false)),
        ("nested", Num, progs(Num, None, 1, 2, false)),
    ]
}
pub(super) fn lead(t: &str) -> &'static str {
    if t == "numbers" {
        "let $v | "
    } else {
        ""
    }
}
pub fn c41(ctx: &mut Ctx) {
    for (what, ty, ps) in starts(ctx) {
        let ps = &ps;
        let st = styles(match ps.len() {
            0..=5_000 => ctx.pick(2, 5),
            5_001..=100_000 => ctx.pick(1, 2),
            _ => 1,
        });
        ctx.cases(
            what,
            ps.len() as u64,
            |i| src(&ps[i as usize], PLAIN, lead(what)),
            |i| {
                let p = &ps[i as usize];
                let first = src(p, PLAIN, lead(what));
                defs(|d| {
                    let exp = start(ty, &first, d);
                    // (types may be needed)
                    let refused = exp.as_ref().is_err_and(|e| ty == Table || e.cat != ogma::common::err::Category::Evaluation);
                    if refused && ty != Table {
                        return Err(format!("{first:?} is refused: {}", brief(&exp)));
                    }
                    let mut done = std::collections::HashSet::from([first.clone()]);
                    for s in st.iter().filter(|s| !refused || s.types == 0) {
                        let mut t = src(p, *s, lead(what));
                        if s.gap != " " {
                            t = format!("{}{t}{}", s.gap, s.gap);
                        }
                        if !done.insert(t.clone()) {
                            continue;
                        }
                        let got = start(ty, &t, d);
                        if !same(&exp, &got) {
                            return Err(format!("{first:?} gives {}, and written {t:?} gives {}", brief(&exp), brief(&got)));
                        }
                    }
                    Ok(done.len() as u64)
                })
            },
        );
    }
}

// ------ types ------
fn type_of(v: &Value) -> String {
    match v {
        Value::Nil => "Nil".into(),
        Value::Bool(_) => "Bool".into(),
        Value::Num(_) => "Num".into(),
        Value::Str(_) => "Str".into(),
        Value::Tab(_) => "Table".into(),
        Value::TabRow(_) => "TableRow".into(),
        Value::Ogma(d) => d.ty().name().str().to_string(),
    }
}
fn typed(src: &str, run: impl Fn(&str) -> lang::R) -> Result<u64, String> {
    use ogma::common::err::Category as C;
    let (v, t) = (run(src), run(&format!("typify {{ {src} }}")));
    let told = |r: &lang::R| r.as_ref().ok().and_then(|t| if let Value::Str(s) = t { Some(s.to_string()) } else { None });
    for r in [&v, &t] {
        // (an error in the code a command makes of its arguments is put down as internal)
        let injected = |t: &ogma::common::err::Trace| t.desc.as_deref() == Some("this block internally injects code");
        if r.as_ref().is_err_and(|e| e.cat == C::Internal && !e.traces.iter().any(injected)) {
            let what = if v.is_err() && t.is_err() { "is refused with" } else { "gives" };
            return Err(format!("{src:?} {what} {}", brief(r)));
        }
    }
    match (&v, told(&t)) {
        (_, None) if t.is_ok() => Err(format!("the types of {src:?} are {}", brief(&t))),
        (Ok(v), Some(t)) => {
            let ty = type_of(v);
            if t.ends_with(&format!(" }}:{ty}")) {
                Ok(2)
            } else {
                Err(format!("{src:?} is typed {t:?} and gives a {ty}: {}", brief(&Ok(v.clone()))))
            }
        }
        (Ok(_), None) => Err(format!("{src:?} gives {}, and its types {}", brief(&v), brief(&t))),
        // (what has types can still fail when it runs)
        (Err(e), Some(t)) if e.cat != C::Evaluation && e.cat != C::Help => Err(format!("{src:?} is typed {t:?} and refused: {}", brief(&v))),
        _ => Ok(2),
    }
}
pub fn c42(ctx: &mut Ctx) {
    for (what, ty, ps) in starts(ctx) {
        let ps = &ps;
        ctx.cases(
            what,
            ps.len() as u64,
            |i| src(&ps[i as usize], PLAIN, lead(what)),
            |i| {
                let t = src(&ps[i as usize], PLAIN, lead(what));
                defs(|d| typed(&t, |t| start(ty, t, d)))
            },
        );
    }
    // any words, with commands and types of the user
    const W: &[&str] = &[
        "\\", "+", "|", "3", "'a'", "#i", "$x", "let", "get", "get:Num", "Tuple", "if", "Table", "append", "#t", "fold", "nth", "map", "filter", "=", "len", "#n", "A", "$x.x", "f", "g", "{ + 1 }", "{ get:Num x }", "x", "sort-by", "and", "B::U", "h", "Ord::Lt", "eq", "cmp",
    ];
    let (k, d) = ctx.pick((26, 4), (36, 4));
    for d in [3, d] {
        let k = if d == 3 { W.len() as u64 } else { k };
        let words = |i: u64| {
            let mut i = i;
            let v: Vec<&str> = (0..d)
                .map(|_| {
                    let w = W[(i % k) as usize];
                    i /= k;
                    w
                })
                .collect();
            v.join(" ")
        };
        for (what, ty) in [("words", Num), ("words on a table", Table)] {
            ctx.cases(
                &format!("{d} {what}"),
                k.pow(d),
                |i| words(i),
                |i| defs(|d| with(d, |d| typed(&words(i), |t| start(ty, t, d)))),
            );
        }
    }
}
/// With some definitions, made once.
fn with<R>(d: &Definitions, f: impl FnOnce(&Definitions) -> R) -> R {
    thread_local! {static OWN: std::cell::RefCell<Option<Definitions>> = const { std::cell::RefCell::new(None) }}
    OWN.with(|o| {
        let mut o = o.borrow_mut();
        let own = o.get_or_insert_with(|| {
            let mut d = d.clone();
            for x in ["def-ty A { x:Num }", "def-ty B :: U | V { y:Str }", "def f (a) { + $a }", "def g (e:Expr) { + $e }", "def h Num () { A #i }", "def h Table () { len }"] {
                lang::define(&mut d, x).unwrap();
            }
            d
        });
        f(own)
    })
}
