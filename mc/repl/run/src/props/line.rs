//! What the shell makes of a line as it is typed: colours and completions.
use crate::term::*;
use mcrt::check;
use mcrt::driver::Ctx;
use ogma_ls::{completion, Workspace};
use std::sync::OnceLock;

fn wsp() -> &'static Workspace {
    static W: OnceLock<Workspace> = OnceLock::new();
    W.get_or_init(|| {
        let w = Workspace::init();
        for d in ["def my-cmd (x:Num) { + $x }", "def-ty Pt { x:Num y:Num }", "def-ty Opt :: Some { v:Num } | None", "def mÿ () { = 'é' }"] {
            ogma::lang::process_definition(d, ogma::lang::ast::Location::Shell, None, &mut w.defs.write()).ok().unwrap();
        }
        w
    })
}
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '\x1b' && cs.peek() == Some(&'[') {
            for c in cs.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c)
        }
    }
    out
}
fn colours(line: &str) -> Result<u64, String> {
    let h = ogma_shell::mc_access::highlight(line, wsp());
    let p = plain(&h);
    if p != line {
        return Err(format!("{line:?} is shown as {p:?}"));
    }
    Ok(1)
}
/// Every line of `k` pieces, with and without spaces between.
fn line(pieces: &[&str], depth: usize, mut i: u64) -> String {
    let n = pieces.len() as u64 + 1;
    let sep = [" ", ""][(i % 2) as usize];
    i /= 2;
    let mut v = Vec::new();
    for _ in 0..depth {
        let k = (i % n) as usize;
        i /= n;
        if k > 0 {
            v.push(pieces[k - 1]);
        }
    }
    v.join(sep)
}
fn count(pieces: &[&str], depth: usize) -> u64 {
    2 * (pieces.len() as u64 + 1).pow(depth as u32)
}
const PIECES: [&str; 34] = [
    "filter", "|", "{", "}", "$x", "--foo", "--'b c'", "\"é\"", "'字", "1", "#t", "foo:Num", "def", "(", ")", "def-ty", "::", ".", "é", "->", "Ord::Gt", "my-cmd", "--\"字\"", "#", "$", "-", "\\",
    "Num", "= ", "\n", "\t", "Tuple<", ">", "mÿ",
];
pub fn c53(cx: &mut Ctx) {
    let d = cx.pick(4, 5);
    cx.cases("colours: pieces", count(&PIECES, d), |i| line(&PIECES, d, i), |i| colours(&line(&PIECES, d, i)));
    let alpha = ["a", "é", "字", "-", "'", "\"", "$", "#", " ", "{", "}", "|", "\\", ":", ".", "1", "(", ")"];
    let d = cx.pick(5, 6);
    let n = alpha.len() as u64;
    let text = |i: u64| {
        let mut i = i;
        (0..d).map(|_| (alpha[(i % n) as usize], i /= n).0).collect::<String>()
    };
    let heads = ["", "ls | filter --", "def f Num (x) { ", "def-ty T :: "];
    let at = |i: u64| format!("{}{}", heads[(i % 4) as usize], text(i / 4));
    cx.cases("colours: characters", 4 * n.pow(d as u32), at, |i| colours(&at(i)));
    completes(cx);
    fits(cx);
}
/// At any place in any line.
fn completes(cx: &mut Ctx) {
    let d = cx.pick(2, 3);
    let all = move |i: u64| -> Result<u64, String> {
        let l = line(&PIECES, d, i);
        let mut n = 0;
        for (k, _) in l.char_indices().chain([(l.len(), ' ')]) {
            let offers = completion::get(wsp(), &l[..k], None).unwrap_or_default();
            n += 1;
            if offers.iter().any(|o| o.name.is_empty()) {
                return Err(format!("after {:?} nothing is offered as an item", &l[..k]));
            }
        }
        Ok(n)
    };
    cx.cases("completions: pieces", count(&PIECES, d), |i| line(&PIECES, d, i), all);
}
/// The names defined, without those the completions leave to the user.
fn defined(w: &Workspace) -> (Vec<String>, Vec<String>) {
    let d = w.defs.read();
    let mut i: Vec<String> = d.impls().iter().map(|x| x.name.to_string()).collect();
    let mut t: Vec<String> = d.types().iter().map(|x| x.0.to_string()).collect();
    i.sort();
    i.dedup();
    t.sort();
    t.dedup();
    (i, t)
}
fn offered(w: &Workspace, l: &str, dir: &std::path::Path) -> [Vec<String>; 4] {
    use completion::Kind::*;
    let mut out: [Vec<String>; 4] = Default::default();
    for o in completion::get(w, l, Some(dir)).unwrap_or_default() {
        out[match o.kind {
            Impl => 0,
            Type => 1,
            File | Dir => 2,
            Lit => 3,
        }]
        .push(o.name);
    }
    out.iter_mut().for_each(|v| v.sort());
    out
}
/// What is offered is what there is.
fn fits(cx: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("mc-c53-{}", std::process::id()));
    let files: [(&str, &[&str]); 3] = [("", &["a b", "s.csv", "sub", "deep"]), ("sub/", &["q", "r é"]), ("deep/", &["er"])];
    for (d, fs) in files {
        std::fs::create_dir_all(dir.join(d)).unwrap();
        for f in fs {
            if !["sub", "deep"].contains(f) {
                std::fs::write(dir.join(d).join(f), "").unwrap();
            }
        }
    }
    // where a command comes next, and what is typed of it
    let before = ["", "ls | ", "ls|", "ls | filter { ", "ls | filter { get a | ", "def f Num (x) { ", "in sub { ", "= 1 | + 2 | ", "def f () { ls | ", "= 'é' | ", "= \"字 |\" | "];
    let word = ["", "f", "filter", "zz", "my-", "é"];
    let defs = ["", "def my-cmd (x:Num) { + $x }", "def-ty Pt { x:Num y:Num }", "def my-cmd Str () { len }", "def filter Num () { = 1 }", "def é () { = 1 }", "def-ty É :: A | B", "def --clear"];
    let (k, b, n) = (defs.len() as u64, before.len() as u64, word.len() as u64);
    let at = move |i: u64| (i % k, i / k % k, i / k / k % b, i / k / k / b);
    let show = |i: u64| {
        let (d1, d2, x, y) = at(i);
        format!("{}\n{}\n{}{}", defs[d1 as usize], defs[d2 as usize], before[x as usize], word[y as usize])
    };
    let d2 = dir.clone();
    cx.cases("completions: commands", k * k * b * n, show, move |i| {
        let (d1, d3, x, y) = at(i);
        let w = Workspace::init();
        for d in [d1, d3] {
            if d > 0 {
                ogma::lang::process_definition(defs[d as usize], ogma::lang::ast::Location::Shell, None, &mut w.defs.write()).ok();
            }
        }
        let l = format!("{}{}", before[x as usize], word[y as usize]);
        let (impls, _) = defined(&w);
        let got = offered(&w, &l, &d2);
        // (a whole word may be taken for an argument which is not complete yet)
        if got[0] != impls && !(word[y as usize] != "" && (l.contains("def ") || !got.iter().any(|g| !g.is_empty()))) {
            return Err(format!("after {l:?} commands {:?} are offered, defined are {impls:?}", got[0]));
        }
        for (g, what) in [(&got[0], "commands"), (&got[1], "types")] {
            let all = if what == "types" { defined(&w).1 } else { impls.clone() };
            if let Some(g) = g.iter().find(|g| !all.contains(g)) {
                return Err(format!("after {l:?}: {g:?} of the {what} is offered but not defined"));
            }
        }
        // and in the shell: those which begin with the word
        let shell = ogma_shell::mc_access::complete(w.clone(), d2.clone(), &l, l.len(), l.len() - word[y as usize].len());
        let mut all: Vec<&String> = got.iter().flatten().filter(|n| n.starts_with(word[y as usize])).collect();
        let many = all.len();
        all.retain(|n| !shell.contains(n));
        if let Some(s) = shell.iter().find(|s| !got.iter().flatten().any(|g| g == *s) || !s.starts_with(word[y as usize])) {
            return Err(format!("after {l:?} the shell offers {s:?}"));
        }
        if shell.len() < many.min(10) || (many <= 10 && !all.is_empty()) {
            return Err(format!("after {l:?} the shell offers {shell:?} and not {all:?}"));
        }
        Ok(1)
    });
    // paths
    let heads = ["open ", "ls | save ", "in ", "= 'é' | save ", "open 'x y' "];
    let paths: [(&str, usize); 8] = [("s", 0), ("a", 0), ("sub/", 1), ("sub/q", 1), ("sub/zz", 1), ("deep/", 2), ("deep/../s", 0), ("./s", 0)];
    let at = |i: u64| format!("{}{}", heads[(i % 5) as usize], paths[(i / 5) as usize].0);
    let d2 = dir.clone();
    cx.cases("completions: paths", 5 * 8, at, move |i| {
        let l = at(i);
        let mut want: Vec<String> = files[paths[(i / 5) as usize].1].1.iter().map(|s| s.to_string()).collect();
        want.sort();
        let got = offered(wsp(), &l, &d2);
        if got[2] != want {
            return Err(format!("after {l:?} the paths {:?} are offered, there are {want:?}", got[2]));
        }
        Ok(1)
    });
    std::fs::remove_dir_all(&dir).ok();
}
