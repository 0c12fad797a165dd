//! The core language: variables, conditionals, definitions.
use crate::interp::{self, Arg, Blk, Def, Grammar, Op, Prog, Ty};
use crate::lang::{self, Definitions};
use crate::model::*;
use crate::model::Cell::{Bool, Num, Str as S};
use mcrt::driver::Ctx;

fn starts() -> [Cell; 2] {
    [n(1.), s("a")]
}
fn eval_cell(c: &Cell, src: &str, d: &Definitions) -> lang::R {
    match c {
        Num(x) => lang::eval_num(*x, src, d),
        S(x) => lang::eval_str(x, src, d),
        Bool(b) => ogma::rt::process_expression(*b, src, lang::Location::Shell, d, std::path::Path::new("."), std::path::Path::new(".")),
        _ => panic!("no such start"),
    }
}
/// All programs of the grammar up to a size, on each start value.
fn programs(ctx: &mut Ctx, name: &str, g: &Grammar, size: usize, starts: &[Cell]) {
    let k = starts.len() as u64;
    ctx.cases(
        name,
        g.upto(size) * k,
        |i| format!("{} on {:?}", interp::src(&g.nth(i / k), &[]), starts[(i % k) as usize]),
        |i| {
            let (p, c) = (g.nth(i / k), &starts[(i % k) as usize]);
            let src = interp::src(&p, &[]);
            let exp = interp::run(&p, c.clone(), &[]).ok();
            defs(|d| agree(&src, &eval_cell(c, &src, d), &exp)).map_err(|e| format!("{e}, on {c:?}"))?;
            Ok(p.len() as u64)
        },
    );
}

pub fn c29(ctx: &mut Ctx) {
    use Arg::*;
    let (t, f) = (B(true), B(false));
    let g = Grammar::new(
        vec![t.clone(), f.clone(), Fail(Ty::Bool)],
        vec![(Op::And, 2), (Op::Or, 2), (Op::Not, 0), (Op::Put, 1)],
        12,
    );
    programs(ctx, "and, or, not", &g, ctx.pick(7, 9), &[Bool(true), Bool(false)]);
    let g = Grammar::new(vec![t.clone(), f.clone(), Fail(Ty::Bool)], vec![(Op::And, 3), (Op::Or, 3), (Op::And, 1), (Op::Or, 1)], 12);
    programs(ctx, "and, or of one and three", &g, ctx.pick(7, 9), &[n(1.)]);
    let g = Grammar::new(
        vec![t.clone(), f.clone(), Fail(Ty::Bool), N(2.), Fail(Ty::Num)],
        vec![(Op::If, 3), (Op::Eq, 1), (Op::Put, 1)],
        12,
    );
    programs(ctx, "if", &g, ctx.pick(6, 7), &[n(2.)]);
    let g = Grammar::new(vec![t.clone(), f.clone(), Fail(Ty::Bool), N(2.), N(3.), Fail(Ty::Num)], vec![(Op::If, 5)], 12);
    programs(ctx, "if of two conditions", &g, 6, &[n(2.)]);
    let g = Grammar::new(vec![t.clone(), f.clone(), Fail(Ty::Bool)], vec![(Op::If, 5), (Op::If, 3), (Op::Not, 0)], 12);
    programs(ctx, "if of booleans", &g, ctx.pick(7, 9), &[Bool(true)]);
    let g = Grammar::new(vec![t, f], vec![(Op::If, 3), (Op::And, 2), (Op::Or, 2), (Op::Not, 0), (Op::Eq, 1)], 12);
    programs(ctx, "all together", &g, ctx.pick(6, 8), &[Bool(true), Bool(false)]);
}

pub fn c30(ctx: &mut Ctx) {
    use Arg::*;
    let lets = vec![
        (Op::Let(vec![], Some(0)), 0),
        (Op::Let(vec![], Some(1)), 0),
        (Op::Let(vec![0], None), 1),
        (Op::Let(vec![1], None), 1),
    ];
    let mut ops = vec![(Op::Add, 1), (Op::Put, 1)];
    ops.extend(lets.clone());
    let g = Grammar::new(vec![N(2.), V(0), V(1)], ops.clone(), 12);
    programs(ctx, "two names", &g, ctx.pick(6, 7), &[n(1.)]);
    let mut ops2 = ops.clone();
    ops2.extend([(Op::Let(vec![0, 1], None), 2), (Op::Let(vec![0], Some(1)), 1), (Op::Let(vec![0, 0], None), 2), (Op::Add, 2)]);
    let g = Grammar::new(vec![V(0), V(1), In], ops2, 12);
    programs(ctx, "several bindings in one let", &g, ctx.pick(5, 6), &[n(1.)]);
    let g = Grammar::new(vec![N(2.), Arg::S("b"), V(0), In], ops[..3].iter().cloned().chain([(Op::Let(vec![0], None), 1)]).collect(), 12);
    programs(ctx, "names which change their type", &g, ctx.pick(6, 7), &starts());
    // one name, deep
    let g = Grammar::new(vec![V(0)], vec![(Op::Add, 1), (Op::Let(vec![], Some(0)), 0), (Op::Let(vec![0], None), 1)], 12);
    programs(ctx, "one name", &g, ctx.pick(9, 11), &[n(1.)]);
}

// ------ definitions ------
fn run_def(d: &[Def], callers: &[Prog], start: &Cell) -> Result<u64, String> {
    let mut ds = defs(|d| d.clone());
    for x in d {
        lang::define(&mut ds, &x.src()).map_err(|e| format!("`{}` is refused: {e}", x.src()))?;
    }
    for c in callers {
        let src = interp::src(c, d);
        let exp = interp::run(c, start.clone(), d).ok();
        let all = || d.iter().map(|d| d.src()).collect::<Vec<_>>().join("; ");
        agree(&src, &eval_cell(start, &src, &ds), &exp).map_err(|e| format!("{e}, on {start:?} with {}", all()))?;
    }
    Ok(callers.len() as u64)
}
fn call(k: usize, args: Vec<Arg>) -> Blk {
    Blk { op: Op::Call(k), args }
}
fn blk(op: Op, args: Vec<Arg>) -> Blk {
    Blk { op, args }
}
/// Places in which a definition of one parameter is called; its argument is put in.
fn around(b: Vec<Blk>) -> Vec<Prog> {
    use Arg::*;
    let letx = |v: f64| blk(Op::Let(vec![0], None), vec![N(v)]);
    let mut v = Vec::new();
    let pre: Vec<Vec<Blk>> = vec![vec![], vec![letx(10.)], vec![blk(Op::Let(vec![], Some(0)), vec![]), blk(Op::Add, vec![N(5.)])], vec![
        blk(Op::Let(vec![1], None), vec![N(20.)]),
    ]];
    let post: Vec<Vec<Blk>> = vec![vec![], vec![blk(Op::Add, vec![V(0)])], vec![blk(Op::Add, vec![N(1.)])]];
    for p in &pre {
        for q in &post {
            v.push([p.clone(), b.clone(), q.clone()].concat());
            v.push([p.clone(), vec![blk(Op::Add, vec![Sub(b.clone())])], q.clone()].concat());
        }
    }
    v
}
pub fn c33(ctx: &mut Ctx) {
    use Arg::*;
    let ops = vec![
        (Op::Add, 1),
        (Op::Put, 1),
        (Op::Let(vec![0], None), 1),
        (Op::Let(vec![1], None), 1),
        (Op::Let(vec![], Some(1)), 0),
    ];
    let bodies = Grammar::new(vec![N(3.), V(0), V(1)], ops, 8);
    let args = [N(7.), V(0), V(1), In, Sub(vec![blk(Op::Add, vec![N(2.)])]), Sub(vec![blk(Op::Add, vec![V(0)])]), Fail(Ty::Num)];
    let size = ctx.pick(5, 7);
    for lazy in [false, true] {
        let callers: Vec<Prog> = args.iter().flat_map(|a| around(vec![call(0, vec![a.clone()])])).collect();
        let what = if lazy { "lazy" } else { "eager" };
        let def = |i: u64| Def { name: "f", params: vec![(0, lazy)], on: Some(Ty::Num), body: bodies.nth(i) };
        ctx.cases(
            &format!("one {what} parameter"),
            bodies.upto(size),
            |i| def(i).src(),
            |i| {
                let d = def(i);
                // an argument which is not used is not looked at
                if !uses(&d.body, 0) {
                    return Ok(0);
                }
                run_def(&[d], &callers, &n(1.))
            },
        );
    }
    // two parameters, in every combination
    let callers: Vec<Prog> = [(N(7.), N(8.)), (V(1), V(0)), (In, Sub(vec![blk(Op::Add, vec![In])])), (Sub(vec![blk(Op::Add, vec![V(1)])]), N(4.))]
        .iter()
        .flat_map(|(a, b)| {
            let mut v = around(vec![call(0, vec![a.clone(), b.clone()])]);
            for p in &mut v {
                p.insert(0, blk(Op::Let(vec![1, 0], None), vec![N(30.), N(40.)]));
            }
            v.push(vec![call(0, vec![a.clone()])]);
            v.push(vec![call(0, vec![a.clone(), b.clone(), N(1.)])]);
            v
        })
        .collect();
    let nb = bodies.upto(ctx.pick(5, 7));
    let def = |i: u64| Def {
        name: "f",
        params: vec![(0, i % 4 & 1 == 1), (1, i % 4 & 2 == 2)],
        on: [None, Some(Ty::Num)][(i / 4 % 2) as usize],
        body: bodies.nth(i / 8),
    };
    ctx.cases("two parameters", nb * 8, |i| def(i).src(), |i| {
        let d = def(i);
        if d.params.iter().any(|p| !uses(&d.body, p.0)) {
            return Ok(0);
        }
        run_def(&[d], &callers, &n(1.))
    });
    // a definition which calls another
    let inner = Grammar::new(vec![V(0), N(3.)], vec![(Op::Add, 1), (Op::Let(vec![0], None), 1), (Op::Let(vec![], Some(1)), 0)], 6);
    let outer = Grammar::new(vec![V(0), N(5.)], vec![(Op::Call(0), 1), (Op::Add, 1), (Op::Let(vec![0], None), 1)], 6);
    let (ni, no) = (inner.upto(ctx.pick(4, 5)), outer.upto(ctx.pick(4, 5)));
    let callers: Vec<Prog> = args[..6].iter().flat_map(|a| around(vec![call(1, vec![a.clone()])])).collect();
    let ds = |i: u64| {
        let (k, i) = (i % 4, i / 4);
        vec![
            Def { name: "f", params: vec![(0, k & 1 == 1)], on: Some(Ty::Num), body: inner.nth(i % ni) },
            Def { name: "g", params: vec![(0, k & 2 == 2)], on: None, body: outer.nth(i / ni) },
        ]
    };
    ctx.cases("one calls the other", ni * no * 4, |i| format!("{:?}", ds(i).iter().map(|d| d.src()).collect::<Vec<_>>()), |i| {
        let d = ds(i);
        if d.iter().any(|d| !uses(&d.body, 0)) {
            return Ok(0);
        }
        run_def(&d, &callers, &n(1.))
    });
    // overloads on the input type: every set and order of definitions, on every input
    let each = [
        Def { name: "f", params: vec![], on: None, body: vec![blk(Op::Put, vec![N(100.)])] },
        Def { name: "f", params: vec![], on: Some(Ty::Num), body: vec![blk(Op::Add, vec![N(1.)])] },
        Def { name: "f", params: vec![], on: Some(Ty::Str), body: vec![blk(Op::Add, vec![Arg::S("z")])] },
        Def { name: "f", params: vec![], on: Some(Ty::Bool), body: vec![blk(Op::Not, vec![])] },
        Def { name: "f", params: vec![], on: Some(Ty::Num), body: vec![blk(Op::Add, vec![N(2.)])] },
        Def { name: "f", params: vec![], on: None, body: vec![blk(Op::Put, vec![Arg::S("any")])] },
        Def { name: "f", params: vec![], on: None, body: vec![blk(Op::Add, vec![N(4.)])] },
    ];
    let k = each.len() as u64;
    let calls = vec![
        vec![call(0, vec![])],
        vec![call(0, vec![]), call(0, vec![])],
        vec![blk(Op::Eq, vec![Sub(vec![call(0, vec![])])])],
        vec![blk(Op::Let(vec![], Some(0)), vec![]), call(0, vec![]), blk(Op::Put, vec![V(0)]), call(0, vec![])],
    ];
    for len in 1..=ctx.pick(4, 5) {
        ctx.cases(
            &format!("{len} overloads"),
            k.pow(len) * 3,
            |i| format!("{i}"),
            |i| {
                let d: Vec<Def> = mcrt::seq::digits(i / 3, k as usize, len as usize).into_iter().map(|k| each[k as usize].clone()).collect();
                run_def(&d, &calls, &[n(1.), s("a"), Bool(true)][(i % 3) as usize])
            },
        );
    }
}
fn uses(p: &Prog, v: u8) -> bool {
    // the first occurrence which is not shadowed
    let mut hidden = false;
    for b in p {
        for a in &b.args {
            let hit = match a {
                Arg::V(x) => *x == v && !hidden,
                Arg::Sub(q) => !hidden && uses(q, v),
                _ => false,
            };
            if hit {
                return true;
            }
        }
        if let Op::Let(vs, last) = &b.op {
            hidden |= vs.contains(&v) || *last == Some(v);
        }
    }
    false
}
