//! Commands which read and write files.
use crate::lang::{self, Location};
use crate::model::*;
use crate::model::Cell::{Str as S, Tab as T};
use mcrt::driver::Ctx;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

// ------ a small file system ------
#[derive(Clone, PartialEq, Debug)]
enum Node {
    Dir,
    File(String),
    Link(&'static str),
}
type Tree = BTreeMap<String, Node>;
/// What is below the scratch folder; `r` is the root of the commands.
fn tree() -> Tree {
    let mut t = Tree::new();
    for d in ["r", "r/a", "r/a/s", "o", "o/s"] {
        t.insert(d.into(), Node::Dir);
    }
    for f in ["r/b.csv", "r/a/b.csv", "r/a/s/b.csv", "o/b.csv", "b.csv"] {
        t.insert(f.into(), Node::File(format!("at\n{f}")));
    }
    for (l, to) in [("r/li", "a"), ("r/lo", "../o"), ("r/lb", "../o/b.csv"), ("r/a/lu", ".."), ("r/dl", "../o/new")] {
        t.insert(l.into(), Node::Link(to));
    }
    t
}
struct Scratch {
    base: PathBuf,
    /// deep enough that no path of the harness leads out of the scratch folder
    top: PathBuf,
}
impl Scratch {
    fn new() -> Scratch {
        let base = std::env::temp_dir().join(format!("mc-files-{}", std::process::id()));
        let _ = fs::remove_dir_all(&base);
        let top = base.join("1/2/3/4/5");
        fs::create_dir_all(&top).unwrap();
        let top = top.canonicalize().unwrap();
        let s = Scratch { base, top };
        s.restore(&tree());
        lang_std::ctl::set_sandbox(s.top.join("r"));
        s
    }
    fn restore(&self, t: &Tree) {
        let now = self.look();
        for (p, n) in now.iter().rev().filter(|(p, n)| t.get(*p) != Some(n)) {
            let p = self.top.join(p);
            let _ = if *n == Node::Dir { fs::remove_dir(p) } else { fs::remove_file(p) };
        }
        for (p, n) in t.iter().filter(|(p, n)| now.get(*p) != Some(n)) {
            let p = self.top.join(p);
            match n {
                Node::Dir => fs::create_dir(p).unwrap(),
                Node::File(s) => fs::write(p, s).unwrap(),
                Node::Link(to) => std::os::unix::fs::symlink(to, p).unwrap(),
            }
        }
    }
    /// Everything which is there.
    fn look(&self) -> Tree {
        fn go(at: &Path, pre: &str, t: &mut Tree) {
            for e in fs::read_dir(at).unwrap() {
                let e = e.unwrap();
                let name = format!("{pre}{}", e.file_name().to_str().unwrap());
                let m = e.path().symlink_metadata().unwrap();
                if m.is_dir() {
                    t.insert(name.clone(), Node::Dir);
                    go(&e.path(), &format!("{name}/"), t);
                } else if m.is_symlink() {
                    let to = fs::read_link(e.path()).unwrap();
                    t.insert(name, Node::Link(Box::leak(to.to_str().unwrap().to_string().into_boxed_str())));
                } else {
                    t.insert(name, Node::File(fs::read_to_string(e.path()).unwrap_or_default()));
                }
            }
        }
        let mut t = Tree::new();
        go(&self.top, "", &mut t);
        t
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = fs::remove_dir_all(&self.base);
    }
}
/// Where a path leads from `at` (a directory), as the system would follow it.
fn follow(t: &Tree, at: &[String], path: &str, depth: usize) -> Option<Vec<String>> {
    if depth > 8 {
        return None;
    }
    let mut at = at.to_vec();
    for c in path.split('/') {
        match t.get(&at.join("/")) {
            _ if at.is_empty() => (),
            Some(Node::Dir) => (),
            _ => return None,
        }
        match c {
            "" | "." => (),
            ".." => {
                at.pop()?;
            }
            c => {
                let mut next = at.clone();
                next.push(c.into());
                match t.get(&next.join("/"))? {
                    Node::Link(to) => at = follow(t, &at, to, depth + 1)?,
                    _ => at = next,
                }
            }
        }
    }
    Some(at)
}
fn inside(p: &[String]) -> bool {
    p.first().map(|s| s.as_str()) == Some("r")
}
/// The existing thing a path names, if it is inside.
fn existing(t: &Tree, wd: &str, path: &str) -> Option<Vec<String>> {
    if path.starts_with('/') {
        return None; // (nothing absolute is within the root here)
    }
    let wd = follow(t, &["r".into()], wd, 0)?;
    let p = follow(t, &wd, path, 0)?;
    inside(&p).then_some(p)
}
/// The place a new file at a path is put, if it may.
fn place(t: &Tree, wd: &str, path: &str) -> Option<Vec<String>> {
    if path.starts_with('/') {
        return None;
    }
    let mut p: Vec<&str> = Vec::new();
    for c in wd.split('/').chain(path.split('/')) {
        match c {
            "" | "." => (),
            ".." => {
                p.pop()?;
            }
            c => p.push(c),
        }
    }
    let (last, dirs) = p.split_last()?;
    let mut at = vec!["r".to_string()];
    for d in dirs {
        let mut next = at.clone();
        next.push(d.to_string());
        at = match t.get(&next.join("/")) {
            None | Some(Node::Dir) => next,
            Some(Node::File(_)) => return None,
            Some(Node::Link(to)) => follow(t, &at, to, 0).filter(|p| inside(p))?,
        };
    }
    let mut f = at.clone();
    f.push(last.to_string());
    match t.get(&f.join("/")) {
        None | Some(Node::File(_)) => Some(f),
        Some(Node::Dir) => None,
        Some(Node::Link(to)) => follow(t, &at, to, 0).filter(|p| inside(p) && matches!(t.get(&p.join("/")), Some(Node::File(_)))),
    }
}
const PARTS: [&str; 10] = ["a", "b.csv", "n", "..", ".", "li", "lo", "lb", "lu", "dl"];
const WDS: [&str; 5] = [".", "", "a", "a/s", "li"];
fn paths(hi: usize) -> Vec<String> {
    let mut v = vec![String::new(), "/".into(), "/..".into(), "/../n".into(), "/n/../../n".into(), "a//b.csv".into(), "n/".into()];
    for len in 1..=hi {
        for i in 0..(PARTS.len() as u64).pow(len as u32) {
            let p: Vec<&str> = mcrt::seq::digits(i, PARTS.len(), len).into_iter().map(|d| PARTS[d as usize]).collect();
            v.push(p.join("/"));
        }
    }
    v
}
fn run(src: &str, root: &Path, wd: &str) -> lang::R {
    defs(|d| ogma::rt::process_expression((), src, Location::Shell, d, root, Path::new(wd)))
}
pub fn c36(ctx: &mut Ctx) {
    let sc = Scratch::new();
    let t0 = tree();
    let all = paths(ctx.pick(4, 5));
    let some: Vec<String> = paths(ctx.pick(3, 4));
    // (process directory, root as it is passed)
    let ways = [("r", ".".into()), ("", PathBuf::from("r")), ("o", sc.top.join("r"))];
    let one = Mutex::new(());
    for (k, (cwd, root)) in ways.iter().enumerate() {
        std::env::set_current_dir(sc.top.join(cwd)).unwrap();
        let what = ["the process is in the root", "below the directory of the process", "absolute root"][k];
        let reads = ["open", "open --Str", "ls"];
        ctx.cases(
            &format!("reading, {what}"),
            (all.len() * WDS.len() * reads.len()) as u64,
            |i| format!("{i}"),
            |i| {
                let (op, i) = (reads[i as usize % 3], i as usize / 3);
                let (wd, p) = (WDS[i % WDS.len()], &all[i / WDS.len()]);
                let src = match op {
                    "open --Str" => format!("open '{p}' --Str"),
                    op => format!("{op} '{p}'"),
                };
                let at = existing(&t0, wd, p);
                let node = at.as_ref().and_then(|p| t0.get(&p.join("/")));
                let exp = match (op, node) {
                    ("ls", Some(Node::Dir)) => {
                        let pre = format!("{}/", at.as_ref().unwrap().join("/"));
                        let mut v: Vec<&str> = t0.keys().filter_map(|k| k.strip_prefix(&pre)).filter(|k| !k.contains('/')).collect();
                        v.sort();
                        Some(S(v.join("\n")))
                    }
                    ("open --Str", Some(Node::File(c))) => Some(S(c.clone())),
                    ("open", Some(Node::File(c))) => Some(T(c.lines().map(|l| vec![s(l)]).collect())),
                    _ => None,
                };
                let got = run(&src, root, wd);
                let r = match (op, got) {
                    // the names are enough
                    ("ls", Ok(v)) => match of_value(&v) {
                        T(rows) => Ok(S(data(&rows).iter().filter_map(|r| r[0].str()).collect::<Vec<_>>().join("\n"))),
                        o => return Err(format!("`{src}` gave {o:?}")),
                    },
                    (_, Ok(v)) => Ok(of_value(&v)),
                    (_, Err(e)) => Err(e),
                };
                match (r, exp) {
                    (Ok(g), Some(e)) if g == e => Ok(1),
                    (Err(_), None) => Ok(1),
                    (Ok(g), e) => Err(format!("`{src}` in `{wd}` gave {g:?}, expected {e:?} ({what})")),
                    (Err(m), Some(e)) => Err(format!("`{src}` in `{wd}` failed, expected {e:?} ({what}): {m}")),
                }
            },
        );
        ctx.cases(
            &format!("writing, {what}"),
            (some.len() * WDS.len()) as u64,
            |i| format!("{i}"),
            |i| {
                let i = i as usize;
                let (wd, p) = (WDS[i % WDS.len()], &some[i / WDS.len()]);
                let src = format!("\\ 'saved {i}' | save '{p}'");
                let exp = place(&t0, wd, p);
                let mut after = t0.clone();
                if let Some(f) = &exp {
                    for k in 1..f.len() {
                        after.insert(f[..k].join("/"), Node::Dir);
                    }
                    after.insert(f.join("/"), Node::File(format!("saved {i}")));
                }
                let _g = one.lock().unwrap_or_else(|e| e.into_inner());
                lang_std::ctl::take_escapes();
                let got = run(&src, root, wd);
                let esc = lang_std::ctl::take_escapes();
                let mut now = sc.look();
                if now != t0 {
                    sc.restore(&t0);
                }
                if !esc.is_empty() {
                    return Err(format!("`{src}` in `{wd}` goes for {:?} ({what})", esc[0].strip_prefix(&sc.base).unwrap_or(&esc[0])));
                }
                // directories on the way may be made before a failure is noticed, but nothing else
                if exp.is_none() {
                    now.retain(|k, n| t0.contains_key(k) || !(k.starts_with("r/") && *n == Node::Dir));
                }
                if now != after {
                    let diff: Vec<_> = now.iter().filter(|(k, n)| after.get(*k) != Some(n)).collect();
                    return Err(format!("`{src}` in `{wd}` should write to {exp:?}, wrote {diff:?} ({what})"));
                }
                match (&got, &exp) {
                    (Ok(v), Some(_)) if of_value(v) == s(format!("saved {i}")) => Ok(1),
                    (Err(_), None) => Ok(1),
                    _ => Err(format!("`{src}` in `{wd}` gave {}, place {exp:?} ({what})", lang::show(&got))),
                }
            },
        );
    }
}
