//! A reference interpreter of the core language: numbers, text and booleans, variables, blocks,
//! conditionals and definitions. Programs are enumerated by size (see [`Grammar`]).
use crate::model::Cell;
use std::fmt::Write;
use std::rc::Rc;

pub const VARS: [&str; 4] = ["x", "y", "z", "w"];

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    N(f64),
    S(&'static str),
    B(bool),
    V(u8),
    /// `#i`
    In,
    /// An expression of a type which always fails when evaluated.
    Fail(Ty),
    Sub(Prog),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Num,
    Str,
    Bool,
}
pub type Prog = Vec<Blk>;
#[derive(Clone, Debug, PartialEq)]
pub struct Blk {
    pub op: Op,
    pub args: Vec<Arg>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// `+`
    Add,
    /// `\`
    Put,
    /// `let a $v b $w .. $in`
    Let(Vec<u8>, Option<u8>),
    If,
    And,
    Or,
    Not,
    /// `= `
    Eq,
    /// a definition, by its place in the list
    Call(usize),
}
#[derive(Clone, Debug)]
pub struct Def {
    pub name: &'static str,
    /// name, lazy
    pub params: Vec<(u8, bool)>,
    /// input type it is for
    pub on: Option<Ty>,
    pub body: Prog,
}
impl Def {
    pub fn src(&self) -> String {
        let ps: Vec<String> =
            self.params.iter().map(|p| format!("{}{}", VARS[p.0 as usize], if p.1 { ":Expr" } else { "" })).collect();
        let on = match self.on {
            None => "",
            Some(Ty::Num) => "Num ",
            Some(Ty::Str) => "Str ",
            Some(Ty::Bool) => "Bool ",
        };
        format!("def {} {on}({}) {{ {} }}", self.name, ps.join(" "), src(&self.body, &[]))
    }
}

pub fn src(p: &Prog, defs: &[Def]) -> String {
    let mut o = String::new();
    write_prog(p, defs, &mut o);
    o
}
fn write_prog(p: &Prog, defs: &[Def], o: &mut String) {
    for (k, b) in p.iter().enumerate() {
        if k > 0 {
            *o += " | "
        }
        match &b.op {
            Op::Add => *o += "+",
            Op::Put => *o += "\\",
            Op::Let(vs, last) => {
                *o += "let";
                for (v, a) in vs.iter().zip(&b.args) {
                    *o += " ";
                    write_arg(a, defs, o);
                    let _ = write!(o, " ${}", VARS[*v as usize]);
                }
                if let Some(v) = last {
                    let _ = write!(o, " ${}", VARS[*v as usize]);
                }
                continue;
            }
            Op::If => *o += "if",
            Op::And => *o += "and",
            Op::Or => *o += "or",
            Op::Not => *o += "not",
            Op::Eq => *o += "=",
            Op::Call(k) => *o += defs.get(*k).map_or(["f", "g", "h"][*k], |d| d.name),
        }
        for a in &b.args {
            *o += " ";
            write_arg(a, defs, o);
        }
    }
}
fn write_arg(a: &Arg, defs: &[Def], o: &mut String) {
    let _ = match a {
        Arg::N(x) => write!(o, "{x}"),
        Arg::S(x) => write!(o, "'{x}'"),
        Arg::B(true) => write!(o, "#t"),
        Arg::B(false) => write!(o, "#f"),
        Arg::V(v) => write!(o, "${}", VARS[*v as usize]),
        Arg::In => write!(o, "#i"),
        Arg::Fail(Ty::Num) => write!(o, "{{ range -1 1 | len }}"),
        Arg::Fail(Ty::Bool) => write!(o, "{{ range -1 1 | len | = 0 }}"),
        Arg::Fail(Ty::Str) => write!(o, "{{ range -1 1 | len | to-str }}"),
        Arg::Sub(p) => {
            *o += "{ ";
            write_prog(p, defs, o);
            write!(o, " }}")
        }
    };
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Bad {
    /// refused before anything runs
    Static,
    /// fails when run
    Run,
}
use Bad::*;

// ------ what may not even start: types and names ------
#[derive(Clone)]
enum TB {
    Ty(Ty),
    Lazy(Arg, Rc<TEnv>),
}
type TEnv = Vec<(u8, TB)>;

pub fn check(p: &Prog, input: Ty, defs: &[Def]) -> Result<Ty, Bad> {
    tprog(p, input, &Vec::new(), defs, 0)
}
fn tprog(p: &Prog, mut input: Ty, env: &TEnv, defs: &[Def], depth: u32) -> Result<Ty, Bad> {
    if depth > 40 {
        return Err(Static);
    }
    let mut env = env.clone();
    for b in p {
        let mut new = Vec::new();
        let arg = |k: usize| targ(&b.args[k], input, &env, defs, depth);
        let want = |k: usize, t: Ty| arg(k).and_then(|x| if x == t { Ok(()) } else { Err(Static) });
        let out = match &b.op {
            Op::Add => {
                if input == Ty::Bool {
                    return Err(Static);
                }
                (0..b.args.len()).try_for_each(|k| want(k, input))?;
                input
            }
            Op::Put => arg(0)?,
            Op::Let(vs, last) => {
                for (k, v) in vs.iter().enumerate() {
                    new.push((*v, TB::Ty(arg(k)?)));
                }
                if let Some(v) = last {
                    new.push((*v, TB::Ty(input)));
                }
                input
            }
            Op::If => {
                let n = b.args.len();
                let t = arg(n - 1)?;
                for k in 0..n / 2 {
                    want(2 * k, Ty::Bool)?;
                    want(2 * k + 1, t)?;
                }
                t
            }
            Op::And | Op::Or => {
                (0..b.args.len()).try_for_each(|k| want(k, Ty::Bool))?;
                Ty::Bool
            }
            Op::Not => {
                if input != Ty::Bool {
                    return Err(Static);
                }
                Ty::Bool
            }
            Op::Eq => {
                want(0, input)?;
                Ty::Bool
            }
            Op::Call(k) => {
                let d = find(defs, *k, input).ok_or(Static)?;
                if d.params.len() != b.args.len() {
                    return Err(Static);
                }
                let mut e: TEnv = Vec::new();
                for ((v, lazy), a) in d.params.iter().zip(&b.args) {
                    e.push((*v, if *lazy { TB::Lazy(a.clone(), Rc::new(env.clone())) } else { TB::Ty(targ(a, input, &env, defs, depth)?) }));
                }
                tprog(&d.body, input, &e, defs, depth + 1)?
            }
        };
        env.extend(new);
        input = out;
    }
    Ok(input)
}
fn targ(a: &Arg, input: Ty, env: &TEnv, defs: &[Def], depth: u32) -> Result<Ty, Bad> {
    Ok(match a {
        Arg::N(_) => Ty::Num,
        Arg::S(_) => Ty::Str,
        Arg::B(_) => Ty::Bool,
        Arg::In => input,
        Arg::Fail(t) => *t,
        Arg::V(v) => match &env.iter().rev().find(|e| e.0 == *v).ok_or(Static)?.1 {
            TB::Ty(t) => *t,
            TB::Lazy(a, e) => targ(a, input, e, defs, depth + 1)?,
        },
        Arg::Sub(p) => tprog(p, input, env, defs, depth + 1)?,
    })
}
/// The definition of the name for the input type, or else the one for any type.
fn find<'a>(defs: &'a [Def], k: usize, input: Ty) -> Option<&'a Def> {
    let name = defs.get(k)?.name;
    let same = |on: Option<Ty>| defs.iter().rev().find(|d| d.name == name && d.on == on);
    same(Some(input)).or_else(|| same(None))
}

// ------ running ------
#[derive(Clone)]
enum VB {
    Val(Cell),
    Lazy(Arg, Rc<VEnv>),
}
type VEnv = Vec<(u8, VB)>;

fn ty_of(c: &Cell) -> Ty {
    match c {
        Cell::Num(_) => Ty::Num,
        Cell::Str(_) => Ty::Str,
        _ => Ty::Bool,
    }
}
pub fn run(p: &Prog, input: Cell, defs: &[Def]) -> Result<Cell, Bad> {
    check(p, ty_of(&input), defs)?;
    vprog(p, input, &Vec::new(), defs)
}
fn vprog(p: &Prog, mut input: Cell, env: &VEnv, defs: &[Def]) -> Result<Cell, Bad> {
    let mut env = env.clone();
    for b in p {
        let mut new = Vec::new();
        let arg = |k: usize| varg(&b.args[k], &input, &env, defs);
        let truth = |k: usize| arg(k).map(|c| c == Cell::Bool(true));
        let out = match &b.op {
            Op::Add => {
                let mut acc = input.clone();
                for k in 0..b.args.len() {
                    acc = match (acc, arg(k)?) {
                        (Cell::Num(a), Cell::Num(b)) => Cell::Num(a + b),
                        (Cell::Str(a), Cell::Str(b)) => Cell::Str(a + &b),
                        _ => return Err(Static),
                    }
                }
                acc
            }
            Op::Put => arg(0)?,
            Op::Let(vs, last) => {
                for (k, v) in vs.iter().enumerate() {
                    new.push((*v, VB::Val(arg(k)?)));
                }
                if let Some(v) = last {
                    new.push((*v, VB::Val(input.clone())));
                }
                input.clone()
            }
            Op::If => {
                let n = b.args.len();
                let mut hit = n - 1;
                for k in 0..n / 2 {
                    if truth(2 * k)? {
                        hit = 2 * k + 1;
                        break;
                    }
                }
                arg(hit)?
            }
            Op::And => {
                let mut r = true;
                for k in 0..b.args.len() {
                    if !truth(k)? {
                        r = false;
                        break;
                    }
                }
                Cell::Bool(r)
            }
            Op::Or => {
                let mut r = false;
                for k in 0..b.args.len() {
                    if truth(k)? {
                        r = true;
                        break;
                    }
                }
                Cell::Bool(r)
            }
            Op::Not => Cell::Bool(input != Cell::Bool(true)),
            Op::Eq => Cell::Bool(arg(0)? == input),
            Op::Call(k) => {
                let d = find(defs, *k, ty_of(&input)).ok_or(Static)?;
                let mut e: VEnv = Vec::new();
                for ((v, lazy), a) in d.params.iter().zip(&b.args) {
                    e.push((*v, if *lazy { VB::Lazy(a.clone(), Rc::new(env.clone())) } else { VB::Val(varg(a, &input, &env, defs)?) }));
                }
                vprog(&d.body, input.clone(), &e, defs)?
            }
        };
        env.extend(new);
        input = out;
    }
    Ok(input)
}
fn varg(a: &Arg, input: &Cell, env: &VEnv, defs: &[Def]) -> Result<Cell, Bad> {
    Ok(match a {
        Arg::N(x) => Cell::Num(*x),
        Arg::S(x) => Cell::Str(x.to_string()),
        Arg::B(x) => Cell::Bool(*x),
        Arg::In => input.clone(),
        Arg::Fail(_) => return Err(Run),
        Arg::V(v) => match &env.iter().rev().find(|e| e.0 == *v).ok_or(Static)?.1 {
            VB::Val(c) => c.clone(),
            VB::Lazy(a, e) => varg(a, input, e, defs)?,
        },
        Arg::Sub(p) => vprog(p, input.clone(), env, defs)?,
    })
}

// ------ all programs of a size ------
/// Leaf arguments and operations (with their number of arguments); a leaf, an operation and a pair
/// of braces count one each.
pub struct Grammar {
    leaves: Vec<Arg>,
    ops: Vec<(Op, usize)>,
    a: Vec<u64>,
    b: Vec<u64>,
    p: Vec<u64>,
    /// `t[n][s]`: lists of n arguments of total size s
    t: Vec<Vec<u64>>,
}
impl Grammar {
    pub fn new(leaves: Vec<Arg>, ops: Vec<(Op, usize)>, max: usize) -> Grammar {
        let m = ops.iter().map(|o| o.1).max().unwrap_or(0);
        let mut g = Grammar { leaves, ops, a: vec![0; max + 1], b: vec![0; max + 1], p: vec![0; max + 1], t: vec![vec![0; max + 1]; m + 1] };
        g.t[0][0] = 1;
        for s in 1..=max {
            g.a[s] = if s == 1 { g.leaves.len() as u64 } else { g.p[s - 1] };
            for k in 1..=m {
                g.t[k][s] = (1..=s).map(|f| g.a[f] * g.t[k - 1][s - f]).sum();
            }
            g.b[s] = g.ops.iter().map(|o| g.t[o.1][s - 1]).sum();
            g.p[s] = g.b[s] + (1..s).map(|f| g.b[f] * g.p[s - f]).sum::<u64>();
        }
        g
    }
    pub fn count(&self, size: usize) -> u64 {
        self.p[size]
    }
    /// number of programs of sizes 1..=size
    pub fn upto(&self, size: usize) -> u64 {
        self.p[..=size].iter().sum()
    }
    pub fn nth(&self, mut i: u64) -> Prog {
        for s in 1..self.p.len() {
            if i < self.p[s] {
                return self.prog(s, i);
            }
            i -= self.p[s];
        }
        panic!("no such program")
    }
    fn prog(&self, s: usize, mut i: u64) -> Prog {
        for f in 1..=s {
            let rest = if f == s { 1 } else { self.p[s - f] };
            let c = self.b[f] * rest;
            if i < c {
                let mut v = vec![self.blk(f, i / rest)];
                if f < s {
                    v.extend(self.prog(s - f, i % rest));
                }
                return v;
            }
            i -= c;
        }
        unreachable!()
    }
    fn blk(&self, s: usize, mut i: u64) -> Blk {
        for (op, n) in &self.ops {
            let c = self.t[*n][s - 1];
            if i < c {
                return Blk { op: op.clone(), args: self.list(*n, s - 1, i) };
            }
            i -= c;
        }
        unreachable!()
    }
    fn list(&self, n: usize, s: usize, mut i: u64) -> Vec<Arg> {
        if n == 0 {
            return vec![];
        }
        for f in 1..=s {
            let rest = self.t[n - 1][s - f];
            let c = self.a[f] * rest;
            if i < c {
                let a = match f {
                    1 => self.leaves[(i / rest) as usize].clone(),
                    _ => Arg::Sub(self.prog(f - 1, i / rest)),
                };
                let mut v = vec![a];
                v.extend(self.list(n - 1, s - f, i % rest));
                return v;
            }
            i -= c;
        }
        unreachable!()
    }
}
