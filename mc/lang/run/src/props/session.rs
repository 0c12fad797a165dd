//! A session's definitions after any history of defining, redefining, loading and clearing.
use crate::lang::{self, Definitions, Location};
use crate::model::{agree, defs, n, of_value, s, Cell};
use mcrt::driver::Ctx;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Key {
    Any,
    Num,
    Str,
    A,
    B,
}
use Key::*;
impl Key {
    fn list(self) -> Cell {
        match self {
            Any => Cell::Nil,
            Num => s("Number"),
            Str => s("String"),
            A => s("A"),
            B => s("B"),
        }
    }
    /// A value of this type.
    fn value(self) -> &'static str {
        match self {
            Any => "\\ #t",
            Num => "\\ 3",
            Str => "\\ 'x'",
            A => "A 4",
            B => "B::X",
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Body {
    Const(f64),
    /// `\ $x | + <k>`
    Arg(f64),
    /// `<name> | + <k>`
    Call(&'static str, f64),
    /// `get x | + <k>`
    Field(f64),
    /// two arguments, the second is evaluated on the first: `\ $x | + $e`
    Lazy,
}
#[derive(Clone, Debug)]
struct Im {
    body: Body,
    src: &'static str,
    /// line in a file, or none for the shell
    line: Option<u16>,
}
#[derive(Clone, Default)]
struct Model {
    impls: BTreeMap<(&'static str, Key), Im>,
    /// constructors and where they come from
    types: BTreeMap<&'static str, bool>,
}
const TYPES: [(&str, &[&str]); 2] = [("A", &["A"]), ("B", &["B::X", "B::Y"])];
const PRE: [&str; 6] = ["to-str", "+", "len", "=", "last", "nth"];
#[derive(Clone, Copy)]
enum Step {
    /// accepted if what it calls and its type are there
    Def(&'static str, Key, Body, &'static str),
    Type(&'static str, &'static str),
    Bad(&'static str),
    Clear(&'static str),
    File(&'static str, &'static [Step]),
    ClearFiles,
}
use Body::*;
use Step::*;
const STEPS: &[Step] = &[
    Def("f", Any, Const(1.), "def f () { \\ 1 }"),
    Def("f", Num, Const(2.), "def f Num () { \\ 2 }"),
    Def("f", Any, Arg(3.), "def f (x) { \\ $x | + 3 }"),
    Def("g", Any, Call("f", 10.), "def g () { f | + 10 }"),
    Def("f", A, Field(20.), "def f A () { get x | + 20 }"),
    Type("A", "def-ty A { x:Num }"),
    Clear("def --clear"),
    ClearFiles,
    File(
        "def f () { \\ 30 }\n\ndef h A () { \\ 40 }\n\n# about A\ndef-ty A { x:Num }\n",
        &[Type("A", ""), Def("f", Any, Const(30.), "def f () { \\ 30 }"), Def("h", A, Const(40.), "def h A () { \\ 40 }")],
    ),
    Def("g", Num, Call("f", 50.), "def g Num () { f | + 50 }"),
    Bad("def + Num () { \\ 1 }"),
    Def("f", Str, Call("g", 60.), "def f Str () { g | + 60 }"),
    File("def g Str () { \\ 70 }", &[Def("g", Str, Const(70.), "def g Str () { \\ 70 }")]),
    Bad("def f () { no-such }"),
    Def("f", Num, Const(80.), "def f Num () { \\ 80 }"),
    Type("B", "def-ty B :: X | Y { x:Num }"),
    Bad("def f Nope () { \\ 1 }"),
    Bad("def len Str () { \\ 1 }"),
    Bad("def = (rhs) { \\ 1 }"),
    Def("len", Num, Const(90.), "def len Num () { \\ 90 }"),
    Def("h", Any, Lazy, "def h (x e:Expr) { \\ $x | + $e }"),
    Def("f", B, Const(91.), "def f B () { \\ 91 }"),
    Bad("def f () { "),
    Bad("def f"),
    Bad("def-ty A { x:Nope }"),
    Clear("def-ty --clear"),
    File("def-ty B :: X | Y { x:Num }\n\ndef h B () { \\ 92 }", &[Type("B", ""), Def("h", B, Const(92.), "def h B () { \\ 92 }")]),
    Bad("define f () { \\ 1 }"),
    Bad("def last Table () { \\ 1 }"),
];
impl Model {
    fn has(&self, name: &str) -> bool {
        PRE.contains(&name) || self.impls.keys().any(|k| k.0 == name) || TYPES.iter().any(|t| self.types.contains_key(t.0) && t.1.contains(&name))
    }
    fn ready(&self, key: Key) -> bool {
        match key {
            A => self.types.contains_key("A"),
            B => self.types.contains_key("B"),
            _ => true,
        }
    }
    /// `file`: the text the step is part of.
    fn step(&mut self, x: &Step, file: Option<&str>) -> bool {
        match *x {
            Def(name, key, body, src) => {
                let ok = self.ready(key) && !matches!(body, Call(f, _) if !self.has(f));
                if ok {
                    let line = file.map(|t| t.lines().position(|l| l == src).unwrap() as u16 + 1);
                    self.impls.insert((name, key), Im { body, src, line });
                }
                ok
            }
            Type(name, _) => {
                let ok = !self.types.contains_key(name);
                if ok {
                    self.types.insert(name, file.is_some());
                }
                ok
            }
            Bad(_) => false,
            Clear(_) => {
                *self = Model::default();
                true
            }
            ClearFiles => {
                self.impls.retain(|_, i| i.line.is_none());
                self.types.retain(|_, f| !*f);
                true
            }
            // (the types come first; the first which is refused ends it)
            File(t, steps) => steps.iter().all(|x| self.step(x, Some(t))),
        }
    }
    /// What `name` gives on an input of a type, or fails; `Err`: it would call itself, somewhere.
    fn call(&self, name: &str, key: Key, arg: Option<f64>, lazy: Option<f64>, depth: usize) -> Result<Option<f64>, ()> {
        if depth > 8 {
            return Err(());
        }
        let chosen = if self.impls.contains_key(&(name, key)) { key } else { Any };
        // everything which may be called is looked at
        for (k, i) in &self.impls {
            // (a definition for a type which is gone with its file)
            if k.0 == name && !self.ready(k.1) {
                return Err(());
            }
            if let (true, Call(f, _)) = (k.0 == name, i.body) {
                let r = self.call(f, k.1, None, None, depth + 1)?;
                // (one which is not chosen, and cannot work)
                if k.1 != chosen && (r.is_none() || k.1 == Any && self.call(f, key, None, None, depth + 1)?.is_none()) {
                    return Err(());
                }
            }
        }
        let im = self.impls.iter().find(|(k, _)| k.0 == name && k.1 == key).or_else(|| self.impls.iter().find(|(k, _)| k.0 == name && k.1 == Any));
        let Some((_, im)) = im else { return Ok(None) };
        let nargs = arg.is_some() as u8 + lazy.is_some() as u8;
        let takes = match im.body {
            Arg(_) => 1,
            Lazy => 2,
            _ => 0,
        };
        if nargs != takes {
            return Ok(None);
        }
        Ok(match im.body {
            Const(k) => Some(k),
            Arg(k) => arg.map(|a| a + k),
            Field(k) => Some(4. + k),
            Lazy => arg.zip(lazy).map(|(a, b)| a + a + b),
            Call(f, k) => self.call(f, key, None, None, depth + 1)?.map(|x| x + k),
        })
    }
}
fn run(d: &mut Definitions, x: &Step) -> Result<(), String> {
    match x {
        Def(_, _, _, t) | Type(_, t) | Bad(t) | Clear(t) => lang::define(d, t),
        ClearFiles => {
            d.clear(true);
            Ok(())
        }
        File(t, _) => d.add_from_str(t, Path::new("some.ogma")).map(|_| ()).map_err(|e| e.to_string()),
    }
}
fn listing(d: &Definitions, what: &str) -> Result<Vec<Vec<Cell>>, String> {
    let mut d = d.clone();
    let r = ogma::lang::process_definition(what, Location::Shell, None, &mut d).map_err(|e| e.to_string())?;
    match of_value(&r.0) {
        Cell::Tab(t) => Ok(t),
        x => Err(format!("`{what}` gave {x:?}")),
    }
}
fn check(d: &Definitions, m: &Model) -> Result<u64, String> {
    let mut k = 0;
    // what commands do
    for name in ["f", "g", "h"] {
        for key in [Any, Num, Str, A, B] {
            for (args, arg, lazy) in [("", None, None), (" 7", Some(7.), None), (" 7 { + 8 }", Some(7.), Some(8.))] {
                let Ok(exp) = m.call(name, key, arg, lazy, 0) else { continue };
                let exp = exp.filter(|_| m.ready(key)).map(n);
                let src = format!("{} | {name}{args}", key.value());
                agree(&src, &lang::eval(&src, d), &exp)?;
                k += 1;
            }
        }
    }
    for (src, exp) in [
        ("\\ 3 | + 1", Some(n(4.))),
        ("\\ 'ab' | len", Some(n(2.))),
        ("\\ 1 | = 1", Some(Cell::Bool(true))),
        ("range 0 3 | last get:Num i", Some(n(2.))),
        ("\\ 5 | len", m.impls.get(&("len", Num)).map(|_| n(90.))),
        ("A 1 | get x", m.ready(A).then(|| n(1.))),
        ("B::Y 1 | get x", None),
    ] {
        agree(src, &lang::eval(src, d), &exp)?;
        k += 1;
    }
    // the listings
    let mut exp: Vec<Vec<Cell>> = m
        .impls
        .iter()
        .map(|((name, key), i)| {
            let at = i.line.map_or([s("shell"), Cell::Nil], |l| [s("some.ogma"), n(l as f64)]);
            let [a, b] = at;
            vec![s(*name), key.list(), a, b, s(&i.src[4..])]
        })
        .collect();
    exp.sort_by_key(|r| format!("{r:?}"));
    let all = listing(d, "def --list")?;
    let base = defs(|d| listing(d, "def --list"))?;
    if all.first() != base.first() {
        return Err(format!("the header of the list of definitions is {:?}", all.first()));
    }
    let (user, own): (Vec<_>, Vec<_>) = all.into_iter().skip(1).partition(|r| matches!(&r[1], Cell::Str(c) if c.to_lowercase().contains("user")));
    let mut user: Vec<_> = user.into_iter().map(|mut r| { r.remove(1); r }).collect();
    user.sort_by_key(|r| format!("{r:?}"));
    if user != exp {
        return Err(format!("the definitions listed are {user:?}, expected {exp:?}"));
    }
    let mut names: Vec<String> = own.iter().map(|r| format!("{:?}", (&r[0], &r[2]))).collect();
    let mut exp: Vec<String> = base.iter().skip(1).map(|r| format!("{:?}", (&r[0], &r[2]))).collect();
    for (t, makes) in TYPES {
        if m.types.contains_key(t) {
            exp.extend(makes.iter().map(|c| format!("{:?}", (&s(*c), &Cell::Nil))));
        }
    }
    names.sort();
    exp.sort();
    if names != exp {
        return Err(format!("predefined commands and constructors listed: {names:?}, expected {exp:?}"));
    }
    let mut types: Vec<String> = d.types().iter().map(|t| t.0.to_string()).collect();
    let mut exp: Vec<String> = defs(|d| d.types().iter().map(|t| t.0.to_string()).collect());
    exp.extend(m.types.keys().map(|t| t.to_string()));
    types.sort();
    exp.sort();
    if types != exp {
        return Err(format!("the types are {types:?}, expected {exp:?}"));
    }
    Ok(k + 3)
}
/// What `f` writes to the terminal.
fn printed(f: impl FnOnce()) -> std::io::Result<String> {
    use std::io::{Read, Seek, Write};
    use std::os::fd::AsRawFd;
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(from: i32, to: i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    let path = std::env::temp_dir().join(format!("mc-lang-printed-{}", std::process::id()));
    let mut file = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(&path)?;
    std::fs::remove_file(&path)?;
    std::io::stdout().flush()?;
    // SAFETY: descriptors of this process, put back below
    let old = unsafe { [1, 2].map(|fd| (fd, dup(fd), dup2(file.as_raw_fd(), fd))) };
    f();
    std::io::stdout().flush()?;
    for (fd, saved, _) in old {
        unsafe {
            dup2(saved, fd);
            close(saved);
        }
    }
    let mut s = String::new();
    file.rewind()?;
    file.read_to_string(&mut s)?;
    Ok(s)
}
pub fn c39(ctx: &mut Ctx) {
    let loads: Vec<&Step> = STEPS.iter().filter(|x| !matches!(x, ClearFiles)).collect();
    // (one after the other: all of them share the terminal)
    ctx.cases("loading definitions prints nothing", 1, |_| "every step".into(), |_| {
        defs(|d| {
            for x in &loads {
                let mut d = d.clone();
                let p = printed(|| drop(run(&mut d, x))).map_err(|e| format!("cannot see what is printed: {e}"))?;
                if !p.is_empty() {
                    let t = match x { Def(_, _, _, t) | Type(_, t) | Bad(t) | Clear(t) | File(t, _) => t, ClearFiles => "" };
                    return Err(format!("loading {t:?} printed {p:?}"));
                }
            }
            Ok(loads.len() as u64)
        })
    });
    let text = |o: &[u32]| {
        o.iter()
            .map(|&o| match STEPS[o as usize] {
                Def(_, _, _, t) | Type(_, t) | Bad(t) | Clear(t) => t.to_string(),
                ClearFiles => "(what files define is cleared)".into(),
                File(t, _) => format!("(file: {t:?})"),
            })
            .collect::<Vec<_>>()
            .join("; ")
    };
    let (short, long) = (ctx.pick(3, 4), ctx.pick(5, 6));
    for (name, k, depth) in [("all steps", STEPS.len(), short), ("the first steps", ctx.pick(9, 11), long)] {
        ctx.sequences(&format!("histories: {name}"), k, depth, text, |o| {
            defs(|d| {
                let mut d = d.clone();
                let mut m = Model::default();
                for (j, &o) in o.iter().enumerate() {
                    let x = &STEPS[o as usize];
                    let before = m.clone();
                    let exp = m.step(x, None);
                    let got = run(&mut d, x);
                    if got.is_ok() != exp {
                        return Err(format!("step {} gave {got:?}, expected it to be {}", j + 1, if exp { "accepted" } else { "refused" }));
                    }
                    if !exp && !matches!(x, File(..)) {
                        m = before;
                    }
                }
                check(&d, &m)?;
                Ok(())
            })
        });
    }
}
