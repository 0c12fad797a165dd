//! Comparison, arithmetic, strings, tuples and user types.
use crate::lang::{self, Definitions};
use crate::model::{agree, defs, Cell};
use mcrt::driver::Ctx;
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Debug)]
enum V {
    Nil,
    Bool(bool),
    Num(f64),
    Str(&'static str),
    Ord(Ordering),
    Tup(Vec<V>),
}
use V::*;
fn num(x: f64) -> String {
    if x == f64::INFINITY {
        "inf".into()
    } else {
        format!("{x}")
    }
}
impl V {
    /// as an argument
    fn arg(&self) -> String {
        match self {
            Nil => "#n".into(),
            Bool(true) => "#t".into(),
            Bool(false) => "#f".into(),
            Num(x) => num(*x),
            Str(s) => format!("'{s}'"),
            _ => format!("{{ {} }}", self.head()),
        }
    }
    /// as the first block of a pipeline
    fn head(&self) -> String {
        match self {
            Ord(Ordering::Less) => "Ord::Lt".into(),
            Ord(Ordering::Equal) => "Ord::Eq".into(),
            Ord(Ordering::Greater) => "Ord::Gt".into(),
            Tup(v) => format!("Tuple {}", v.iter().map(|x| x.arg()).collect::<Vec<_>>().join(" ")),
            _ => format!("\\ {}", self.arg()),
        }
    }
    fn ty(&self) -> String {
        match self {
            Nil => "n".into(),
            Bool(_) => "b".into(),
            Num(_) => "f".into(),
            Str(_) => "s".into(),
            Ord(_) => "o".into(),
            Tup(v) => format!("({})", v.iter().map(|x| x.ty()).collect::<Vec<_>>().join(",")),
        }
    }
    fn cell(&self) -> Cell {
        match self {
            Nil => Cell::Nil,
            Bool(b) => Cell::Bool(*b),
            Num(x) => Cell::Num(*x),
            Str(s) => Cell::Str(s.to_string()),
            Ord(o) => ord(*o),
            Tup(_) => unreachable!(),
        }
    }
}
fn ord(o: Ordering) -> Cell {
    Cell::Data(match o {
        Ordering::Less => "Lt".into(),
        Ordering::Equal => "Eq".into(),
        Ordering::Greater => "Gt".into(),
    })
}
/// The order of two values, if they are of one kind.
fn cmp(a: &V, b: &V) -> Option<Ordering> {
    if a.ty() != b.ty() {
        return None;
    }
    Some(match (a, b) {
        (Nil, Nil) => Ordering::Equal,
        (Bool(a), Bool(b)) => a.cmp(b),
        (Num(a), Num(b)) => a.partial_cmp(b).unwrap(),
        (Str(a), Str(b)) => a.cmp(b),
        (Ord(a), Ord(b)) => a.cmp(b),
        (Tup(a), Tup(b)) => {
            a.iter().zip(b).map(|(a, b)| cmp(a, b).unwrap()).find(|o| o.is_ne()).unwrap_or(Ordering::Equal)
        }
        _ => unreachable!(),
    })
}
fn scalars(more: bool) -> Vec<V> {
    let mut v = vec![Nil, Bool(false), Bool(true)];
    v.extend([-3., -1.5, 0., 1., 2., 2.5, 1e3].map(Num));
    v.extend(["", "a", "ab", "b", "B", "1", "é"].map(Str));
    v.extend([Ordering::Less, Ordering::Equal, Ordering::Greater].map(Ord));
    if more {
        v.extend([-3.5, -1., 0.5, 10., 1e20, f64::INFINITY].map(Num));
        v.extend([" ", "aa", "a b", "ÿ", "日本", "|", "#t"].map(Str));
    }
    v
}
fn tuples(more: bool) -> Vec<V> {
    let mut o = Vec::new();
    let n = [1., 2., 3.];
    for a in n {
        for b in ["a", "b"] {
            o.push(Tup(vec![Num(a), Str(b)]));
        }
    }
    for a in [false, true] {
        for b in n {
            for c in &n[..2] {
                o.push(Tup(vec![Bool(a), Num(b), Num(*c)]));
            }
        }
    }
    for a in &n[..2] {
        for b in &n[..2] {
            o.push(Tup(vec![Num(*a), Tup(vec![Num(*b), Str("x")])]));
            o.push(Tup(vec![Tup(vec![Num(*b), Str("x")]), Num(*a)]));
        }
    }


    o.push(Tup(vec![Nil, Ord(Ordering::Less)]));
    o.push(Tup(vec![Nil, Ord(Ordering::Greater)]));
    if more {
        for m in 0..81u32 {
            o.push(Tup((0..4).map(|i| Num((m / 3u32.pow(i) % 3) as f64)).collect()));
        }
    }
    o
}
const CMP: [&str; 8] = ["cmp", "eq", "=", "!=", "<", "<=", ">", ">="];
fn result(op: &str, o: Ordering) -> Cell {
    match op {
        "cmp" => ord(o),
        "eq" | "=" => Cell::Bool(o.is_eq()),
        "!=" => Cell::Bool(o.is_ne()),
        "<" => Cell::Bool(o.is_lt()),
        "<=" => Cell::Bool(o.is_le()),
        ">" => Cell::Bool(o.is_gt()),
        ">=" => Cell::Bool(o.is_ge()),
        _ => unreachable!(),
    }
}
fn run(src: &str, exp: Option<Cell>) -> Result<u64, String> {
    defs(|d| agree(src, &lang::eval(src, d), &exp))?;
    Ok(1)
}
fn compare(ctx: &mut Ctx, name: &str, v: &[V], ops: &[&str]) {
    let k = v.len() as u64;
    ctx.cases(
        name,
        k * k,
        |i| format!("{:?} with {:?}", v[(i / k) as usize], v[(i % k) as usize]),
        |i| {
            let (a, b) = (&v[(i / k) as usize], &v[(i % k) as usize]);
            let mut n = 0;
            for op in ops {
                let e = cmp(a, b).map(|o| result(op, o));
                n += run(&format!("{} | {op} {}", a.head(), b.arg()), e.clone())?;
                n += run(&format!("{} | {op} {{ {} }}", a.head(), b.head()), e.clone())?;
                n += run(&format!("{} | let $x | {} | let $y | \\ $x | {op} $y", a.head(), b.head()), e.clone())?;
                n += run(&format!("{} | let {{ {op} {} }} $r | \\ $r", a.head(), b.arg()), e)?;
            }
            Ok(n)
        },
    );
}
pub fn c31(ctx: &mut Ctx) {
    compare(ctx, "scalars", &scalars(ctx.thorough), &CMP);
    let t = tuples(ctx.thorough);
    compare(ctx, "tuples", &t, ctx.pick(&CMP[..4], &CMP));
    compare(ctx, "order of tuples", &t[..12], &CMP[4..]);
    // minimum and maximum
    let v = [-3., -1.5, 0., 1., 2., 2.5, f64::INFINITY];
    let k = v.len() as u64;
    ctx.cases(
        "minimum and maximum",
        k * k * k * k,
        |i| format!("{:?}", digits(i, &v, 4)),
        |i| {
            let x = digits(i, &v, 4);
            let hi = x.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let lo = x.iter().cloned().fold(f64::INFINITY, f64::min);
            let a: Vec<String> = x.iter().map(|x| num(*x)).collect();
            run(&format!("\\ {} | max {} {} {}", a[0], a[1], a[2], a[3]), Some(Cell::Num(hi)))?;
            run(&format!("\\ {} | min {} {} {}", a[0], a[1], a[2], a[3]), Some(Cell::Num(lo)))?;
            run(&format!("\\ {} | max {{ min {} }} {{ min {} {} }}", a[0], a[1], a[2], a[3]), {
                let (p, q) = (x[0].min(x[1]), x[0].min(x[2]).min(x[3]));
                Some(Cell::Num(x[0].max(p).max(q)))
            })
        },
    );
}
fn digits<T: Clone>(mut i: u64, v: &[T], k: usize) -> Vec<T> {
    (0..k)
        .map(|_| {
            let x = v[(i % v.len() as u64) as usize].clone();
            i /= v.len() as u64;
            x
        })
        .collect()
}

// ------ arithmetic ------
#[derive(Clone)]
struct A {
    src: String,
    f: fn(f64, &[f64]) -> f64,
    args: Vec<Arg>,
}
#[derive(Clone)]
struct Arg(&'static str, fn(f64) -> f64);
fn bin(op: &'static str) -> fn(f64, &[f64]) -> f64 {
    match op {
        "+" => |x, a| a.iter().fold(x, |x, y| x + y),
        "-" => |x, a| a.iter().fold(x, |x, y| x - y),
        "*" | "×" => |x, a| a.iter().fold(x, |x, y| x * y),
        "/" | "÷" => |x, a| a.iter().fold(x, |x, y| x / y),
        "mod" => |x, a| x - (x / a[0]).floor() * a[0],
        "ceil" => |x, _| x.ceil(),
        "floor" => |x, _| x.floor(),
        "abs" => |x, _| if x < 0. { x * -1. } else { x },
        "root" => |x, a| match a[0] {
            k if k == 2. => x.sqrt(),
            k if k == 3. => x.cbrt(),
            k => x.powf(1. / k),
        },
        _ => unreachable!(),
    }
}
fn arith(ops: &[&'static str], args: &[Arg], hi: usize) -> Vec<A> {
    let mut o = Vec::new();
    for op in ops {
        for k in 1..=hi {
            for i in 0..(args.len() as u64).pow(k as u32) {
                let a = digits(i, args, k);
                let s: Vec<&str> = a.iter().map(|a| a.0).collect();
                o.push(A { src: format!("{op} {}", s.join(" ")), f: bin(op), args: a });
            }
        }
    }
    o
}
fn unary() -> Vec<A> {
    ["ceil", "floor", "abs"].iter().map(|op| A { src: op.to_string(), f: bin(op), args: vec![] }).collect()
}
fn apply(x: f64, a: &A) -> f64 {
    let v: Vec<f64> = a.args.iter().map(|g| (g.1)(x)).collect();
    (a.f)(x, &v)
}
fn pipelines(ctx: &mut Ctx, name: &str, start: &[f64], ops: &[A], depth: u32) {
    let (k, s) = (ops.len() as u64, start.len() as u64);
    ctx.cases(
        name,
        k.pow(depth) * s,
        |i| format!("{} | {}", start[(i % s) as usize], join(&digits(i / s, ops, depth as usize))),
        |i| {
            let x = start[(i % s) as usize];
            let p = digits(i / s, ops, depth as usize);
            let e = p.iter().fold(x, apply);
            let src = join(&p);
            defs(|d| agree(&src, &lang::eval_num(x, &src, d), &Some(Cell::Num(e)))).map_err(|e| format!("{e}, on {x}"))?;
            Ok(depth as u64)
        },
    );
}
fn join(p: &[A]) -> String {
    p.iter().map(|a| a.src.clone()).collect::<Vec<_>>().join(" | ")
}
pub fn c32(ctx: &mut Ctx) {
    let args = [
        Arg("3", |_| 3.),
        Arg("-0.5", |_| -0.5),
        Arg("0", |_| 0.),
        Arg("#i", |x| x),
        Arg("{ + 1 }", |x| x + 1.),
        Arg("{ \\ 7 | - 2 3 }", |_| 2.),
        Arg("inf", |_| f64::INFINITY),
        Arg("{ let $x | \\ 4 | * $x }", |x| 4. * x),
    ];
    let start = [0., 1., 2., -3., 2.5, -0.75, 1e10, 0.1];
    let all = ["+", "-", "*", "×", "/", "÷"];
    pipelines(ctx, "one command of up to three arguments", &start, &arith(&all, &args, 3), 1);
    let mut v = arith(&["+", "-", "*", "/"], &args[..ctx.pick(5, 8)], 1);
    v.extend(arith(&["mod", "root"], &args, 1));
    v.extend(unary());
    pipelines(ctx, "two commands", &start, &v, 2);
    let mut v = arith(&["+", "-", "*", "/", "mod"], &args[..ctx.pick(2, 4)], 1);
    v.extend(unary());
    pipelines(ctx, "three commands", &start[1..ctx.pick(4, 6)], &v, 3);
    // what is finite
    let w: Vec<f64> = vec![0., 1., -1., f64::INFINITY, 1e308];
    let k = w.len() as u64;
    ctx.cases(
        "finite",
        k * k,
        |i| format!("{:?}", digits(i, &w, 2)),
        |i| {
            let x = digits(i, &w, 2);
            for op in all {
                let e = bin(op)(x[0], &x[1..]).is_finite();
                run(&format!("\\ {} | {op} {} | is-finite", num(x[0]), num(x[1])), Some(Cell::Bool(e)))?;
            }
            Ok(6)
        },
    );
    // other kinds are refused
    let v: Vec<V> = scalars(false);
    let k = v.len() as u64;
    ctx.cases(
        "kinds",
        k * k,
        |i| format!("{:?}", digits(i, &v, 2)),
        |i| {
            let x = digits(i, &v, 2);
            for op in ["+", "-", "*", "/", "max", "min", "mod", "root"] {
                let e = match (op, &x[0], &x[1]) {
                    ("max", Num(a), Num(b)) => Some(Cell::Num(a.max(*b))),
                    ("min", Num(a), Num(b)) => Some(Cell::Num(a.min(*b))),
                    (_, Num(a), Num(b)) => Some(Cell::Num(bin(op)(*a, &[*b]))),
                    ("+", Str(a), Str(b)) => Some(Cell::Str(format!("{a}{b}"))),
                    _ => None,
                };
                run(&format!("{} | {op} {}", x[0].head(), x[1].arg()), e.clone())?;
                run(&format!("{} | {op} {{ {} }}", x[0].head(), x[1].head()), e)?;
            }
            for op in ["floor", "ceil", "abs"] {
                let e = if let Num(a) = x[0] { Some(Cell::Num(bin(op)(a, &[]))) } else { None };
                run(&format!("{} | {op}", x[0].head()), e)?;
            }
            Ok(19)
        },
    );
}
