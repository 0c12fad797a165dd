//! Whatever is typed in, there is an answer: a value, or an error which points into the text.
use crate::lang::{self, Definitions, R};
use crate::model::{defs, n, s, to_table, Cell, Tab};
use mcrt::driver::Ctx;

fn digits(mut i: u64, k: usize, d: usize) -> Vec<usize> {
    (0..d)
        .map(|_| {
            let x = (i % k as u64) as usize;
            i /= k as u64;
            x
        })
        .collect()
}
/// An error says what is wrong, and where.
fn sound(src: &str, e: &ogma::Error) -> Result<(), String> {
    let shown = e.to_string();
    if shown.trim().is_empty() || e.desc.is_empty() {
        return Err(format!("{src:?}: an error which says nothing"));
    }
    for t in &e.traces {
        if t.len == 0 {
            continue;
        }
        let end = t.start + t.len;
        // an error at the end of the text points right behind it
        if t.start > t.source.len() || end > t.source.len() + 1 {
            return Err(format!("{src:?}: an error at {}..{end} of {:?}", t.start, t.source));
        }
        if !t.source.is_char_boundary(t.start) {
            return Err(format!("{src:?}: an error in the middle of a character, at {} of {:?}", t.start, t.source));
        }
    }
    let mut coloured = Vec::new();
    e.print(true, &mut coloured).map_err(|e| format!("{src:?}: {e}"))?;
    Ok(())
}
fn answer(src: &str, r: &R) -> Result<(), String> {
    match r {
        Ok(v) => {
            let _ = format!("{v:?}").len();
            Ok(())
        }
        Err(e) => sound(src, e),
    }
}
fn define(d: &mut Definitions, src: &str) -> Result<(), String> {
    match ogma::lang::process_definition(src, lang::Location::Shell, None, d) {
        Ok(_) => Ok(()),
        Err(e) => sound(src, &e),
    }
}
fn all(src: &str) -> Result<u64, String> {
    defs(|d| {
        answer(src, &lang::eval(src, d))?;
        let mut own = d.clone();
        for p in ["def ", "def f ", "def f () ", "def f () { ", "def-ty ", "def-ty A { ", "def-ty A :: "] {
            define(&mut own, &format!("{p}{src}"))?;
        }
        Ok(8)
    })
}
fn texts(ctx: &mut Ctx, name: &str, tok: &[&str], sep: &str, depth: usize, f: impl Fn(&str) -> Result<u64, String> + Sync) {
    let k = tok.len();
    let src = |i: u64| digits(i, k, depth).into_iter().map(|x| tok[x]).collect::<Vec<_>>().join(sep);
    ctx.cases(name, (k as u64).pow(depth as u32), |i| format!("{:?}", src(i)), |i| f(&src(i)));
}
pub fn c40(ctx: &mut Ctx) {
    const CH: &[&str] = &[
        "\\", "+", "|", "{", "}", "3", "'", "\"", "#", "i", "$", "x", ":", "Num", ".", "é", "-", " ", "(", ")", "/", "::", "\n", "\t", "😀", "_", "=", "<", ">", "let", "#t", "--", "e", "∞",
    ];
    texts(ctx, "characters", CH, "", ctx.pick(3, 4), all);
    texts(ctx, "more characters", &CH[..ctx.pick(20, 34)], "", ctx.pick(4, 5), |t| {
        defs(|d| answer(t, &lang::eval(t, d)))?;
        Ok(1)
    });
    const W: &[&str] = &[
        "\\", "+", "|", "{", "}", "3", "'a'", "#i", "$x", "let", "get", ":Num", "t0", "--é", "Tuple", "if", "Table", "append", "#t", "fold", "$x.t0", "filter", "map", "nth", "''", "a/b", "typify", "def", "and", "\"é\"", "--help", "{ + 1 }:Str", "sort-by", "=", "Ord::Lt",
    ];
    texts(ctx, "words", W, " ", ctx.pick(3, 4), all);
    texts(ctx, "more words", &W[..ctx.pick(22, 35)], " ", ctx.pick(4, 5), |t| {
        defs(|d| answer(t, &lang::eval(t, d)))?;
        Ok(1)
    });
    // definitions
    const D: &[&str] = &["f", "Num", "(", ")", "x", "x:Num", "x:Expr", "{", "}", "\\ $x", "A", "::", "|", "x:A", "--list", "--help", "--clear", "é", "+ 1", "U_Num-Num_", "Tuple", "f", "x:é"];
    for p in ["def ", "def-ty "] {
        texts(ctx, &format!("{p}…"), D, " ", ctx.pick(4, 5), move |t| {
            defs(|d| {
                let mut own = d.clone();
                define(&mut own, "def-ty A { x:Num }")?;
                define(&mut own, &format!("{p}{t}"))?;
                for e in ["\\ 1 | f", "\\ 1 | f 2", "A 3 | f", "f"] {
                    answer(e, &lang::eval(e, &own))?;
                }
                Ok(5)
            })
        });
    }
    nested(ctx);
    values(ctx);
    recursion(ctx);
}
/// Texts which repeat something many times.
fn nested(ctx: &mut Ctx) {
    const P: &[(&str, &str, &str)] = &[
        ("{", "\\ 1", "}"),
        ("{ + 1 ", "{ + 1 }", "}"),
        ("+ ", "1", ""),
        ("\\ ", "1", ""),
        ("| ", "1", ""),
        ("\\ 1 | ", "+ 1", ""),
        ("{", "", ""),
        ("}", "", ""),
        ("'", "", ""),
        ("#", "t", ""),
        ("$", "x", ""),
        (":", "Num", ""),
        ("Tuple 1 { ", "\\ 2", " }"),
        ("if { = 1 } 2 { ", "\\ 3", " }"),
        ("let $x | ", "\\ $x", ""),
        ("let { ", "+ 1", " } $x | \\ $x"),
        ("get x.", "y", ""),
        ("and { = 1 } ", "#t", ""),
        ("1 ", "", ""),
        ("--a ", "", ""),
        ("é", "é", "é"),
        ("\n", "\\ 1", "\n"),
        ("/a", "", ""),
        ("a::", "b", ""),
        ("map x { ", "\\ 1", " }"),
        ("filter { ", "\\ #t", " }"),
        ("fold 0 { ", "+ 1", " }"),
    ];
    let hi = ctx.pick(12u64, 24);
    let lim = ctx.pick(48, 200);
    ctx.cases(
        "repetition",
        P.len() as u64 * hi,
        |i| format!("{:?} {} times", P[(i / hi) as usize], i % hi),
        |i| {
            let (a, m, b) = P[(i / hi) as usize];
            // small numbers first, then larger ones
            let k = match i % hi {
                j if j < 10 => j as usize,
                j => 10 + (lim - 10) * (j as usize - 9) / (hi as usize - 10),
            };
            for pre in ["", "\\ 1 | ", "range 0 2 | "] {
                let src = format!("{pre}{}{m}{}", a.repeat(k), b.repeat(k));
                defs(|d| answer(&src, &lang::eval(&src, d)))?;
            }
            Ok(3)
        },
    );
}
/// Every command with arguments at the edge of its domain.
fn values(ctx: &mut Ctx) {
    let cmds: Vec<(String, bool)> = defs(|d| {
        let mut v: Vec<String> = d.impls().iter().map(|e| e.name.to_string()).collect();
        v.sort();
        v.dedup();
        v.into_iter()
            // (what they do depends on, or changes, the world outside)
            .filter(|c| !["save", "open", "ls", "benchmark"].contains(&c.as_str()))
            .map(|c| (c, true))
            .collect()
    });
    const A: &[&str] = &[
        "", "0", "1", "-1", "0.5", "1e3", "''", "'a'", "x", "#t", "#n", "#i", "{ \\ 'x' }", "{ get x }", "{ get:Num x }", "$row", "--Num", "--x", "Table", "nan", "inf", "-inf", "{ Tuple 1 2 }", "Ord::Lt", "{ + 1 }", "$x", "'a.*('",
    ];
    const BIG: &[&str] = &["1e18", "18446744073709551615", "-9223372036854775808", "1e308", "4294967296"];
    let tabs: Vec<Tab> = vec![
        vec![],
        vec![vec![s("x")]],
        vec![vec![s("x"), s("y")], vec![n(1.), s("a")], vec![n(-2.), Cell::Nil]],
        vec![vec![s("x"), s("x")], vec![s(""), n(0.)]],
        vec![vec![n(1.), Cell::Nil], vec![Cell::Bool(true), n(f64::NAN)]],
    ];
    const V: &[&str] = &["\\ 3", "\\ -1.5", "\\ 'aé'", "\\ ''", "\\ #t", "\\ #n", "Tuple 1 'a'", "Ord::Eq", "\\ nan", "\\ inf", "Table x"];
    let mut args: Vec<String> = Vec::new();
    for a in A {
        for b in A {
            if !a.is_empty() || b.is_empty() {
                args.push(format!("{a} {b}"));
            }
        }
    }
    for a in A.iter().take(ctx.pick(8, 27)) {
        for b in A.iter().take(ctx.pick(9, 27)) {
            for c in A.iter().take(ctx.pick(14, 27)) {
                if !a.is_empty() && !b.is_empty() && !c.is_empty() {
                    args.push(format!("{a} {b} {c}"));
                }
            }
        }
    }
    let (na, nc) = (args.len() as u64, cmds.len() as u64);
    ctx.cases(
        "commands",
        na * nc,
        |i| format!("{} {}", cmds[(i / na) as usize].0, args[(i % na) as usize]),
        |i| {
            let src = format!("{} {}", cmds[(i / na) as usize].0, args[(i % na) as usize]);
            let mut k = 0;
            for v in V {
                let t = format!("{v} | {src}");
                defs(|d| answer(&t, &lang::eval(&t, d)))?;
                k += 1;
            }
            for t in &tabs {
                defs(|d| answer(&src, &lang::eval_owned(to_table(t), &src, d))).map_err(|e| format!("{e}, on {t:?}"))?;
                k += 1;
            }
            Ok(k)
        },
    );
    let nb = BIG.len() as u64;
    ctx.cases(
        "commands with large numbers",
        nb * nc,
        |i| format!("{} {}", cmds[(i / nb) as usize].0, BIG[(i % nb) as usize]),
        |i| {
            let (c, b) = (&cmds[(i / nb) as usize].0, BIG[(i % nb) as usize]);
            // (a large range is as large as asked for)
            if c == "range" || c == "rand" {
                return Ok(0);
            }
            let mut k = 0;
            for src in [format!("{c} {b}"), format!("{c} {b} {b}"), format!("{c} {b} x"), format!("{c} x {b}"), format!("{c} {b} get:Num x"), format!("{c} {b} {{ get:Num x }}")] {
                for v in V {
                    let t = format!("{v} | {src}");
                    defs(|d| answer(&t, &lang::eval(&t, d)))?;
                }
                let t = format!("\\ {b} | {src}");
                defs(|d| answer(&t, &lang::eval(&t, d)))?;
                for t in &tabs {
                    defs(|d| answer(&src, &lang::eval_owned(to_table(t), &src, d))).map_err(|e| format!("{e}, on {t:?}"))?;
                }
                k += V.len() as u64 + 6;
            }
            Ok(k)
        },
    );
}
/// Definitions which would call themselves.
fn recursion(ctx: &mut Ctx) {
    const B: &[&str] = &["f", "+ {f} {f}", "g", "g | f", "if #t {f} {g}", "\\ 1", "to-str | f", "+ {g} {g} {g}", "let { f } $x | g"];
    const H: &[&str] = &["def f ()", "def g ()", "def f Num ()", "def g Num ()", "def f Str ()"];
    let k = B.len() * H.len();
    let depth = ctx.pick(2, 3);
    ctx.sequences(
        "recursion",
        k,
        depth,
        |o| o.iter().map(|&o| format!("{} {{ {} }}", H[o as usize / B.len()], B[o as usize % B.len()])).collect::<Vec<_>>().join("; "),
        |o| {
            defs(|d| {
                let mut own = d.clone();
                // something to begin with
                for p in ["def f () { \\ 1 }", "def g () { \\ 2 }"] {
                    define(&mut own, p)?;
                }
                for &o in o {
                    define(&mut own, &format!("{} {{ {} }}", H[o as usize / B.len()], B[o as usize % B.len()]))?;
                }
                for e in ["\\ 1 | f", "\\ 1 | g"] {
                    answer(e, &lang::eval(e, &own))?;
                }
                Ok(())
            })
        },
    );
}
