//! The program itself, as a process: files to process, definitions, exit status.
use mcrt::driver::Ctx;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
    Save,
    Bad,
    Use,
    Def,
    BadDef,
}
use Item::*;
const ITEMS: [Item; 5] = [Save, Bad, Use, Def, BadDef];
#[derive(Clone, Debug)]
struct File {
    items: Vec<Item>,
    fast: bool,
}
impl File {
    fn text(&self, name: &str) -> String {
        let mut o = String::from(if self.fast { "[no-parallelise fail-fast]\n" } else { "" });
        for (k, i) in self.items.iter().enumerate() {
            o += &match i {
                Save => format!("\\ 'x' | save {name}-{k}.txt\n\n"),
                Bad => "zzz\n\n".into(),
                Use => "f\n\n".into(),
                Def => "def f () { \\ 1 }\n\n".into(),
                BadDef => "def g () { zzz }\n\n".into(),
            };
        }
        o
    }
    /// What is told of each item, the files written, and whether all went well.
    fn run(&self, name: &str, defs: bool) -> (Vec<String>, Vec<String>, bool) {
        let (mut told, mut files, mut ok) = (Vec::new(), Vec::new(), true);
        let f = defs || self.items.contains(&Def);
        for def in [true, false] {
            for (k, i) in self.items.iter().enumerate().filter(|(_, i)| matches!(i, Def | BadDef) == def) {
                let good = match i {
                    Save | Def => true,
                    Bad | BadDef => false,
                    Use => f,
                };
                let out = self.fast && !ok;
                if *i == Save && !out {
                    files.push(format!("{name}-{k}.txt"));
                }
                let st = if out { "OUTSTANDING" } else if good { "SUCCESS" } else { "ERROR" };
                told.push(format!("line {} :: {} :: {st}", 1 + usize::from(self.fast) + 2 * k, if def { "Impl" } else { "Expr" }));
                ok &= good;
            }
        }
        (told, files, ok)
    }
}
fn files(max: u32, fast: bool) -> Vec<File> {
    let mut v = Vec::new();
    for n in 0..=max {
        for i in 0..ITEMS.len().pow(n) {
            let items: Vec<Item> = (0..n).map(|k| ITEMS[i / ITEMS.len().pow(k) % ITEMS.len()]).collect();
            // (one definition of a name)
            if items.iter().filter(|i| **i == Def).count() > 1 || items.iter().filter(|i| **i == BadDef).count() > 1 {
                continue;
            }
            v.push(File { items: items.clone(), fast: false });
            if fast && n > 0 {
                v.push(File { items, fast: true });
            }
        }
    }
    v
}
#[derive(Clone, Debug)]
struct Case {
    /// the files there are, `a.og` and on
    files: Vec<File>,
    /// the definitions file: none, right, wrong, not there
    defs: usize,
    quiet: bool,
    args: Vec<&'static str>,
}
fn name(k: usize) -> String {
    format!("{}.og", ["a", "b", "c"][k])
}
fn exe() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("ogma-cli")
}
fn run(c: &Case, dir: &Path) -> Result<(), String> {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    for (k, f) in c.files.iter().enumerate() {
        std::fs::write(dir.join(name(k)), f.text(&name(k))).unwrap();
    }
    if c.defs == 1 || c.defs == 2 {
        std::fs::write(dir.join("defs"), ["", "def f () { \\ 1 }\n", "def f () { zzz }\n"][c.defs]).unwrap();
    }
    let mut cmd = Command::new(exe());
    cmd.current_dir(dir).stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
    if c.quiet {
        cmd.arg("--quiet");
    }
    cmd.args(&c.args);
    if c.defs > 0 {
        cmd.args(["--def", "defs"]);
    }
    let out = cmd.output().map_err(|e| e.to_string())?;
    let (stdout, stderr) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
    let all = || format!("status {:?}\n{stdout}---\n{stderr}", out.status.code());
    // what is expected
    let mut run: Vec<usize> = Vec::new();
    let mut found = c.defs < 2;
    for a in &c.args {
        let v: Vec<usize> = match *a {
            "*.og" | "?.og" | "./*.og" => (0..c.files.len()).collect(),
            a => (0..c.files.len()).filter(|k| name(*k) == a).collect(),
        };
        found &= !v.is_empty();
        run.extend(v);
    }
    run.sort();
    run.dedup();
    let dot = c.args.contains(&"./*.og");
    let (mut o, mut e, mut written, mut ok) = (Vec::new(), Vec::new(), Vec::new(), true);
    if found {
        for k in run {
            let (told, files, good) = c.files[k].run(&name(k), c.defs == 1);
            o.push(format!("processing {} items from file '{}{}'", told.len(), if dot { "./" } else { "" }, name(k)));
            written.extend(files);
            if good {
                o.extend(told);
            } else {
                e = told;
                ok = false;
                break;
            }
        }
    }
    if c.quiet {
        o.clear();
    }
    let pick = |s: &str| -> Vec<String> { s.lines().filter(|l| l.starts_with("line ") || l.starts_with("processing ")).map(|l| l.split(" ... ").next().unwrap().to_string()).collect() };
    if pick(&stdout) != o || c.quiet && !stdout.is_empty() {
        return Err(format!("should tell {o:?}: {}", all()));
    }
    if found && pick(&stderr) != e {
        return Err(format!("should tell of the errors {e:?}: {}", all()));
    }
    let errors = stderr.matches("--- Error line ").count();
    if found && errors != e.iter().filter(|l| l.ends_with("ERROR")).count() {
        return Err(format!("{errors} errors are told: {}", all()));
    }
    if (out.status.code() == Some(0)) != (found && ok) || out.status.code().is_none() {
        return Err(format!("ended with {:?}, and it went {}: {}", out.status, if found && ok { "well" } else { "wrong" }, all()));
    }
    let mut there: Vec<String> = std::fs::read_dir(dir).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).filter(|n| n.ends_with(".txt")).collect();
    there.sort();
    written.sort();
    if there != written {
        return Err(format!("the files {there:?} are written in place of {written:?}: {}", all()));
    }
    Ok(())
}
pub fn c58(cx: &mut Ctx) {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let base = base.join(format!("mc-c58-{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let one = files(cx.pick(2, 3), true);
    let mut cases: Vec<(&str, Vec<Case>)> = Vec::new();
    let mut v = Vec::new();
    for f in &one {
        for defs in 0..4 {
            for quiet in [false, true] {
                v.push(Case { files: vec![f.clone()], defs, quiet, args: vec!["a.og"] });
            }
        }
    }
    cases.push(("one file", v));
    let few = files(1, false);
    let some: Vec<File> = if cx.pick(0, 1) == 1 { files(2, false) } else { files(1, true) };
    let mut v = Vec::new();
    for f in &some {
        for g in &some {
            for args in [vec!["a.og", "b.og"], vec!["b.og", "a.og"], vec!["b.og"], vec!["*.og"], vec!["./*.og"], vec!["b.og", "?.og", "b.og"], vec!["b.og", "c.og"], vec!["x*", "a.og"]] {
                for (defs, quiet) in [(0, false), (1, false), (0, true), (3, false)] {
                    v.push(Case { files: vec![f.clone(), g.clone()], defs, quiet, args: args.clone() });
                }
            }
        }
    }
    cases.push(("two files", v));
    let mut v = Vec::new();
    for f in &few {
        for g in &few {
            for h in &few {
                for args in [vec!["*.og"], vec!["c.og", "a.og", "b.og"], vec!["c.og", "a.og"]] {
                    for defs in 0..2 {
                        v.push(Case { files: vec![f.clone(), g.clone(), h.clone()], defs, quiet: false, args: args.clone() });
                    }
                }
            }
        }
    }
    cases.push(("three files", v));
    for (what, v) in &cases {
        let dir = |i: u64| base.join(format!("{}{i}", what.split(' ').next().unwrap()));
        cx.cases(what, v.len() as u64, |i| format!("{:?}", v[i as usize]), |i| {
            let d = dir(i);
            let r = run(&v[i as usize], &d);
            std::fs::remove_dir_all(&d).ok();
            r.map(|_| v[i as usize].files.iter().map(|f| f.items.len() as u64).sum())
        });
    }
    std::fs::remove_dir_all(&base).ok();
}
