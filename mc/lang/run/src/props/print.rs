//! What is printed: tables with rows and columns left out, and errors with the text at fault.
use crate::lang::Table;
use super::syntax::{lead, src, start, starts, PLAIN};
use crate::model::{defs, n, s, to_table, Cell};
use mcrt::driver::Ctx;
use ogma::common::err::{Category, Error, Trace};
use ogma::lang::ast::Location;

// ------ tables ------
/// Cells whose kind and contents depend on the place.
fn cell(kind: u32, r: usize, c: usize) -> Cell {
    let k = match kind {
        0 => 1,
        1 => (r + 2 * c) % 6,
        k => k as usize,
    };
    match k {
        0 => Cell::Nil,
        1 => s(&format!("{r}.{c}")),
        2 => n((r * 1000 + c) as f64 + 0.5),
        3 => Cell::Bool((r + c) % 2 == 0),
        4 => Cell::Tab(vec![vec![Cell::Nil; c]; if c > 0 { r % 3 } else { 0 }]),
        _ => n(-(r as f64)),
    }
}
fn text(x: &Cell, header: bool) -> String {
    match x {
        Cell::Nil => "-".into(),
        Cell::Str(x) => x.to_string(),
        Cell::Num(x) => {
            let mut f = if header { numfmt::Formatter::new() } else { numfmt::Formatter::default() };
            f.fmt(*x).to_string()
        }
        Cell::Bool(b) => b.to_string(),
        Cell::Tab(t) => format!("<table [{},{}]>", t.len(), t.first().map_or(0, |r| r.len())),
        x => panic!("{x:?}"),
    }
}
/// The grid which is expected: all of at most 30 rows and 7 columns, else the ends and a count.
fn grid(t: &[Vec<Cell>], header: bool) -> Vec<Vec<String>> {
    let pick = |len: usize, lim: usize, fixed: usize, end: usize| -> Vec<Result<usize, usize>> {
        if len <= lim {
            return (0..len).map(Ok).collect();
        }
        let mut v: Vec<_> = (0..fixed + end).map(Ok).collect();
        v.push(Err(len - fixed - 2 * end));
        v.extend((len - end..len).map(Ok));
        v
    };
    let cols = pick(t[0].len(), 7, 0, 3);
    pick(t.len(), 30, usize::from(header), 5)
        .into_iter()
        .map(|r| {
            cols.iter()
                .enumerate()
                .map(|(i, c)| match (r, c) {
                    (Err(left), _) if i == 0 => format!("{left} rows elided"),
                    (Err(_), _) => "...".into(),
                    (Ok(0), Err(left)) if header => format!("{left} cols elided"),
                    (Ok(_), Err(_)) => "...".into(),
                    (Ok(r), Ok(c)) => text(&t[r][*c], header && r == 0),
                })
                .collect()
        })
        .collect()
}
pub fn c43(ctx: &mut Ctx) {
    let (rows, cols) = ctx.pick((50u64, 16u64), (130, 40));
    for (what, kind) in [("places", 0u32), ("mixed cells", 1), ("numbers", 2), ("empty cells", 6)] {
        ctx.cases(
            &format!("tables of {what}"),
            2 * rows * cols,
            |i| format!("{} rows, {} columns{}", 1 + i / 2 % rows, 1 + i / 2 / rows, ["", ", no header"][(i % 2) as usize]),
            |i| {
                let (header, rows, cols) = (i % 2 == 0, 1 + i / 2 % rows, 1 + i / 2 / rows);
                let kind = if kind == 6 { 7 } else { kind };
                let t: Vec<Vec<Cell>> = (0..rows as usize).map(|r| (0..cols as usize).map(|c| if kind == 7 { Cell::Nil } else { cell(kind, r, c) }).collect()).collect();
                let mut table: Table = to_table(&t);
                table.make_mut().header = header;
                let mut out = Vec::new();
                ogma::output::print_table(&table, &mut out).map_err(|e| e.to_string())?;
                let out = String::from_utf8(out).map_err(|e| e.to_string())?;
                let got: Vec<Vec<String>> = out.lines().filter(|l| l.starts_with('│')).map(|l| l.trim_matches('│').split('┆').map(|c| c.trim().to_string()).collect()).collect();
                let exp = grid(&t, header);
                if got != exp {
                    return Err(format!("printed:\n{out}expected {exp:?}"));
                }
                Ok(rows * cols)
            },
        );
    }
}

// ------ errors ------
/// The lines of a source which a span touches, and the columns it covers in them.
fn marks(src: &str, start: usize, len: usize) -> (Vec<String>, Option<(usize, usize)>) {
    let width = |t: &str| -> usize { t.chars().map(|c| if c == '\t' { 4 } else { 1 }).sum() };
    let (mut at, mut lines, mut mark) = (0, Vec::new(), None::<(usize, usize)>);
    for l in src.split('\n') {
        // (the last line ends where the source ends)
        let (a, b) = (at, at + l.len());
        at = b + 1;
        let eof = a == src.len();
        if len == 0 {
            if !eof {
                lines.push(l.to_string());
            }
            continue;
        }
        if start > b || start + len <= a || eof {
            continue;
        }
        lines.push(l.to_string());
        let first = if start >= a { start - a } else { l.len() - l.trim_start().len() };
        let last = if start + len <= b { start + len - a } else { l.trim_end().len() };
        // the end of a line is marked behind it
        let (x, y) = if start == b { (width(l), width(l) + 1) } else { (width(&l[..first]), width(&l[..last])) };
        mark = Some(mark.map_or((x, y), |(p, q)| (p.min(x), q.max(y))));
    }
    (lines, mark.filter(|(x, y)| x < y))
}
fn printed(src: &str, start: usize, len: usize, desc: Option<&str>, head: &str, help: Option<&str>) -> String {
    let (lines, mark) = marks(src, start, len);
    let first = marks(src, start, len).0.first().map_or(0, |_| {
        if len == 0 {
            return 0;
        }
        let a = src[..start].rfind('\n').map_or(0, |x| x + 1);
        src[a..start].chars().map(|c| if c == '\t' { 4 } else { 1 }).sum()
    });
    let mut out = format!("{head}\n--> shell:{first}\n");
    for l in lines {
        out += &format!(" | {l}\n");
    }
    if let Some((x, y)) = mark {
        out += &format!(" | {}{}{}\n", " ".repeat(x), "^".repeat(y - x), desc.map_or(String::new(), |d| format!(" {d}")));
    }
    if let Some(h) = help {
        out += &format!("--> help: {h}\n");
    }
    out
}
fn marked(src: &str) -> Result<u64, String> {
    let mut n = 0;
    let at: Vec<usize> = (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect();
    for &a in &at {
        for &b in at.iter().filter(|b| **b >= a).chain([&(src.len() + 1)]) {
            // the end is marked with one character behind it
            if b > src.len() && a != src.len() {
                continue;
            }
            for (desc, help) in [(None, None), (Some("why"), Some("do"))] {
                let t = Trace { loc: Location::Shell, source: src.into(), desc: desc.map(str::to_string), start: a, len: b - a };
                let e = Error { cat: Category::Semantics, desc: "what".into(), traces: vec![t], help_msg: help.map(str::to_string), hard: false };
                let got = e.to_string();
                let exp = printed(src, a, b - a, desc, "Semantics Error: what", help);
                n += 1;
                if got != exp {
                    return Err(format!("{src:?} from {a} to {b} gives\n{got}and not\n{exp}"));
                }
            }
        }
    }
    Ok(n)
}
pub fn c44(ctx: &mut Ctx) {
    for (what, cs, k) in [
        ("characters", &["a", "é", " ", "\n", "\t", "字"][..], ctx.pick(7u32, 8)),
        ("lines", &["  ab", "\n", "", "c ", "ééé", "\n\n"][..], ctx.pick(6, 7)),
    ] {
        let text = |i: u64| {
            let mut i = i;
            let v: Vec<&str> = (0..k)
                .map(|_| {
                    let w = cs[(i % cs.len() as u64) as usize];
                    i /= cs.len() as u64;
                    w
                })
                .collect();
            v.concat()
        };
        ctx.cases(what, (cs.len() as u64).pow(k), |i| format!("{:?}", text(i)), |i| marked(&text(i)));
    }
    // a command which does not exist, in the place of each command of a program
    for (what, ty, ps) in starts(ctx) {
        let ps = &ps;
        ctx.cases(
            &format!("unknown commands in {what}"),
            ps.len() as u64,
            |i| src(&ps[i as usize], PLAIN, lead(what)),
            |i| {
                let t = src(&ps[i as usize], PLAIN, lead(what));
                defs(|d| {
                    let (mut at, mut head, mut open, mut n) = (0, true, false, 0);
                    for w in t.split(' ') {
                        if head && w != "{" {
                            let bad = format!("{}zzé{}", &t[..at], &t[at + w.len()..]);
                            let r = start(ty, &bad, d);
                            n += 1;
                            let Err(e) = &r else { return Err(format!("{bad:?} gives {r:?}")) };
                            let tr = &e.traces[0];
                            if e.cat != Category::UnknownCommand || tr.source != bad || (tr.start, tr.len) != (at, "zzé".len()) {
                                return Err(format!("{bad:?} gives {e}"));
                            }
                        }
                        open ^= w.matches('\'').count() % 2 == 1;
                        head = !open && ["|", "{"].contains(&w);
                        at += w.len() + 1;
                    }
                    Ok(n)
                })
            },
        );
    }
    // far to the right
    let ns: Vec<usize> = vec![100, 9_998, 9_999, 10_000, 10_001, 65_535, 65_536, 100_000];
    let ns = &ns;
    ctx.cases(
        "long lines",
        ns.len() as u64 * 2,
        |i| format!("{} characters before", ns[(i / 2) as usize]),
        |i| {
            let (k, nl) = (ns[(i / 2) as usize], i % 2 == 1);
            let src = format!("{}abc{}", "x".repeat(k), if nl { "\nz" } else { "" });
            let t = Trace { loc: Location::Shell, source: src.clone(), desc: None, start: k, len: 3 };
            let e = Error { cat: Category::Semantics, desc: "what".into(), traces: vec![t], help_msg: None, hard: false };
            let (got, exp) = (e.to_string(), printed(&src, k, 3, None, "Semantics Error: what", None));
            if got != exp {
                return Err(format!("the mark of {k} starts at {:?}", got.lines().last().and_then(|l| l.find('^'))));
            }
            Ok(1)
        },
    );
}
