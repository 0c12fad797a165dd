//! Batch files: how they are taken apart, and in which order and how far they are processed.
use crate::lang::{Definitions, Location};
use crate::model::defs;
use libs::divvy::{ProgressTx, Switch};
use libs::serde_json;
use mcrt::driver::Ctx;
use mcrt::Config;
use ogma::rt::bat::{self, Batch, BatchProgress, ItemType, Outcome, OutcomeProgress};
use std::path::Path;
use std::sync::{Arc, Mutex};

// ------ parsing ------
/// What a file is made of; `text` and `expect` are two readings of it.
#[derive(Clone, Debug)]
struct Src {
    lead: &'static str,
    header: usize,
    dirs: usize,
    items: Vec<(usize, usize)>, // lines of comment, kind of code
    gap: &'static str,
    nl: &'static str,
    trail: bool,
}
const CODE: [(&str, ItemType); 12] = [
    ("\\ 1", ItemType::Expr),
    ("foo |\n  bar", ItemType::Expr),
    ("def f () { \\ 1 }", ItemType::Impl),
    ("def-ty P { x:Num }", ItemType::Type),
    ("def g Num (x) {\n\n}", ItemType::Impl), // the blank line ends the item
    ("ls | filter #t", ItemType::Expr),
    ("  def-ty Q :: A | B", ItemType::Type),
    ("é { \\ 'x # y' }", ItemType::Expr),
    ("x def", ItemType::Expr),
    ("default 1", ItemType::Expr), // the name of an operation may begin like a keyword
    ("def-type | x", ItemType::Expr),
    ("def > (rhs) { x }", ItemType::Impl),
];
const DIRS: [&[&[&str]]; 6] =
    [&[], &[&["fail-fast"]], &[&["no-parallelise"]], &[&["no-parallelise", "fail-fast"]], &[&["fail-fast"], &["no-parallelise"]], &[&["fail-fast"], &["fail-fast"]]];
#[derive(PartialEq, Debug)]
struct Parsed {
    items: Vec<(ItemType, String, u16, Option<String>)>,
    par: bool,
    ff: bool,
}
impl Src {
    fn build(&self) -> (String, Parsed) {
        let mut lines: Vec<String> = Vec::new();
        let mut o = Parsed { items: vec![], par: true, ff: false };
        for l in self.lead.split('\n').take(self.lead.matches('\n').count()) {
            lines.push(l.into());
        }
        for k in 0..self.header {
            lines.push(format!("# head {k}"));
        }
        let gaps: Vec<&str> = self.gap.split('\n').collect();
        let gap = |lines: &mut Vec<String>| lines.extend(gaps.iter().map(|s| s.to_string()));
        if self.header > 0 {
            gap(&mut lines)
        }
        for d in DIRS[self.dirs] {
            lines.push(format!("[{}]", d.join(" ")));
            o.par &= !d.contains(&"no-parallelise");
            o.ff |= d.contains(&"fail-fast");
        }
        if self.dirs > 0 {
            gap(&mut lines)
        }
        for (i, (c, k)) in self.items.iter().enumerate() {
            if i > 0 {
                gap(&mut lines)
            }
            for j in 0..*c {
                lines.push(format!("#{}c{i}.{j} ", [" ", "", "  # "][j % 3]));
            }
            let doc = (0..*c).map(|j| format!("{}c{i}.{j}", ["", "", "# "][j % 3])).collect::<Vec<_>>().join("\n");
            let doc = (*c > 0).then_some(doc);
            let (code, ty) = CODE[*k];
            let at = lines.len() as u16 + 1;
            lines.extend(code.split('\n').map(|s| s.to_string()));
            let code = code.replace('\n', self.nl);
            match code.find(&format!("{0}{0}", self.nl)) {
                Some(p) => {
                    o.items.push((ty, code[..p].trim().into(), at, doc));
                    o.items.push((ItemType::Expr, code[p..].trim().into(), at + 2, None));
                }
                None => o.items.push((ty, code.trim().into(), at, doc)),
            }
        }
        let mut s = lines.join(self.nl);
        if self.trail {
            s += self.nl;
        }
        // types, then implementations, then expressions, each in the order of the file
        let rank = |t: &ItemType| match t {
            ItemType::Type => 0,
            ItemType::Impl => 1,
            ItemType::Expr => 2,
        };
        o.items.sort_by_key(|x| rank(&x.0));
        (s, o)
    }
}
fn read(b: &Batch) -> Parsed {
    Parsed {
        items: b.items.iter().map(|i| (i.ty(), i.code().to_string(), i.line, i.comment.clone())).collect(),
        par: b.parallelise,
        ff: b.fail_fast,
    }
}
pub fn c35(ctx: &mut Ctx) {
    let lead = ["", "\n", "  \n\n"];
    let gap = ["", "\n", "  ", "\t\n\n"];
    let nl = ["\n", "\r\n"];
    let per = 3u64 * CODE.len() as u64;
    let hi = ctx.pick(2u32, 3);
    for len in 0..=hi {
        let get = |mut i: u64| {
            let mut d = |k: usize| {
                let r = (i % k as u64) as usize;
                i /= k as u64;
                r
            };
            let (l, h, dir, g, n, t) = (d(3), d(3), d(DIRS.len()), d(4), d(2), d(2));
            let items = (0..len).map(|_| (d(3), d(CODE.len()))).collect();
            Src { lead: lead[l], header: h, dirs: dir, items, gap: gap[g], nl: nl[n], trail: t == 1 }
        };
        ctx.cases(
            &format!("files of {len} items"),
            3 * 3 * DIRS.len() as u64 * 4 * 2 * 2 * per.pow(len),
            |i| format!("{:?}", get(i).build().0),
            |i| {
                let x = get(i);
                // (a directive has to be followed by the end of its line)
                if len == 0 && x.dirs > 0 && !x.trail {
                    return Ok(0);
                }
                let (s, e) = x.build();
                match bat::parse_str(&s, Location::Shell) {
                    Ok(b) if read(&b) == e => Ok(1),
                    Ok(b) => Err(format!("{s:?} is read as {:?}, expected {e:?}", read(&b))),
                    Err(m) => Err(format!("{s:?} is refused: {m}")),
                }
            },
        );
    }
}

// ------ processing ------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Res {
    Ok,
    Failed,
    Outstanding,
    Cancelled,
}
fn res(o: &Outcome) -> Res {
    match o {
        Outcome::Success => Res::Ok,
        Outcome::Failed(_) => Res::Failed,
        Outcome::Outstanding => Res::Outstanding,
        Outcome::Cancelled => Res::Cancelled,
    }
}
fn resp(o: &OutcomeProgress) -> Res {
    match o {
        OutcomeProgress::Success => Res::Ok,
        OutcomeProgress::Failed => Res::Failed,
        OutcomeProgress::Outstanding => Res::Outstanding,
        OutcomeProgress::Cancelled => Res::Cancelled,
    }
}
/// Code, what it defines, what it needs, whether it fails in any case.
const ITEMS: [(&str, &str, &str, bool); 12] = [
    ("\\ 1 | + 1", "", "", false),
    ("\\ 1 | + #t", "", "", true),
    ("\\ 1 | f", "", "f", false),
    ("def f () { + 1 }", "f", "", false),
    ("def f (x y { + 1 }", "", "", true),
    ("Table a | append-row 1 | filter { get z --Num | = 1 }", "", "", true), // fails when it runs
    ("P 1 | get x", "", "P", false),
    ("def-ty P { x:Num }", "P", "", false),
    ("def-ty P { x:Nope }", "", "", true),
    ("def g P () { get x }", "g", "P", false),
    ("P 2 | g", "", "g", false),
    ("\\ { ) }", "", "", true),
];
fn kind(k: usize) -> u8 {
    match ITEMS[k].0 {
        c if c.starts_with("def-ty") => 0,
        c if c.starts_with("def") => 1,
        _ => 2,
    }
}
/// What each item gives if it is processed: definitions in order first, then expressions.
fn alone(items: &[usize]) -> Vec<Res> {
    let mut have: Vec<&str> = vec![""];
    items
        .iter()
        .map(|k| {
            let (_, def, need, fails) = ITEMS[*k];
            // a type is defined once; a second definition of an operation replaces the first
            if fails || !have.contains(&need) || def == "P" && have.contains(&def) {
                return Res::Failed;
            }
            have.push(def);
            Res::Ok
        })
        .collect()
}
struct Run {
    items: Vec<usize>,
    ff: bool,
    par: bool,
    out: Vec<Res>,
    reports: Vec<Vec<Res>>,
}
fn batch(items: &[usize], ff: bool, par: bool) -> (Vec<usize>, Batch) {
    let mut it = items.to_vec();
    it.sort_by_key(|k| kind(*k));
    let src = items.iter().map(|k| ITEMS[*k].0).collect::<Vec<_>>().join("\n\n");
    let mut b = bat::parse_str(&src, Location::Shell).unwrap_or_else(|e| panic!("{src} is refused: {e}"));
    b.fail_fast = ff;
    b.parallelise = par;
    (it, b)
}
fn process(items: &[usize], ff: bool, par: bool, cancel: Switch, after: usize, d: &Definitions) -> Run {
    let (items, b) = batch(items, ff, par);
    let reports: Arc<Mutex<Vec<String>>> = Default::default();
    let (r2, c2) = (reports.clone(), cancel.clone());
    let tx = ProgressTx::to(cancel, move |_, s| {
        let n = {
            let mut r = r2.lock().unwrap();
            r.push(s);
            r.len()
        };
        if n == after {
            c2.flip_on();
        }
    });
    let out = bat::process(&b, Path::new("."), Path::new("."), &tx, d.clone());
    let reports = reports
        .lock()
        .unwrap()
        .iter()
        .map(|s| {
            let p: BatchProgress = serde_json::from_str(s).expect("a report which is not one");
            p.iter().map(|x| resp(&x.status)).collect()
        })
        .collect();
    Run { items, ff, par, out: out.iter().map(|o| res(&o.0)).collect(), reports }
}
/// `cancelled`: whether it was, by the end. `done`: how many have been processed before the
/// cancellation, where that is certain.
fn judge(r: &Run, cancelled: bool, done: Option<usize>) -> Result<(), String> {
    let say = |m: String| {
        let what = r.items.iter().map(|k| ITEMS[*k].0).collect::<Vec<_>>();
        Err(format!("{m}: {what:?} (fail-fast {}, parallel {}) gave {:?}, reports {:?}", r.ff, r.par, r.out, r.reports))
    };
    let n = r.items.len();
    let full = alone(&r.items);
    if r.out.len() != n {
        return say("not one outcome per item".into());
    }
    let defs = r.items.iter().filter(|k| kind(**k) < 2).count();
    // an item which was processed has the outcome of that item
    let ran = |o: Res| o == Res::Ok || o == Res::Failed;
    for i in 0..n {
        if ran(r.out[i]) && r.out[i] != full[i] {
            return say(format!("item {i} should be {:?}", full[i]));
        }
        if r.out[i] == Res::Cancelled && !cancelled || r.out[i] == Res::Outstanding && cancelled {
            return say(format!("item {i} is cancelled or outstanding and should not be"));
        }
    }
    let failed = r.out.iter().any(|o| *o == Res::Failed);
    if !cancelled && !(r.ff && failed) && r.out.iter().any(|o| !ran(*o)) {
        return say("an item was not processed".into());
    }
    // the order: definitions one by one before everything else, expressions too if not in parallel
    let ordered = if r.par { defs } else { n };
    if let Some(stop) = (0..ordered).find(|i| !ran(r.out[*i])) {
        if r.out[stop..].iter().any(|o| ran(*o)) {
            return say(format!("processing went on after {stop} was not processed"));
        }
    }
    if r.ff {
        if let Some(f) = (0..ordered).find(|i| r.out[*i] == Res::Failed) {
            if r.out[f + 1..].iter().any(|o| ran(*o)) {
                return say(format!("processing went on after {f} failed"));
            }
        }
    }
    if let Some(d) = done {
        let k = r.out.iter().filter(|o| ran(**o)).count();
        if k != d {
            return say(format!("{k} were processed, {d} before the cancellation"));
        }
    }
    // the reports: one per processed item, each with the outcomes so far
    let k = r.out.iter().filter(|o| ran(**o)).count();
    if r.reports.len() != k {
        return say(format!("{} reports for {k} items", r.reports.len()));
    }
    let mut prev = vec![Res::Outstanding; n];
    for (j, p) in r.reports.iter().enumerate() {
        let new = (0..n).filter(|i| p[*i] != prev[*i]).collect::<Vec<_>>();
        if new.len() != 1 || p[new[0]] != r.out[new[0]] || prev[new[0]] != Res::Outstanding {
            return say(format!("report {j} does not add one outcome to those before"));
        }
        if new[0] < ordered && new[0] != j {
            return say(format!("report {j} is about item {}", new[0]));
        }
        prev = p.clone();
    }
    Ok(())
}
fn pick(i: &mut u64, k: usize) -> usize {
    let r = (*i % k as u64) as usize;
    *i /= k as u64;
    r
}
pub fn c34(ctx: &mut Ctx) {
    let k = ITEMS.len();
    let hi = ctx.pick(3usize, 4);
    for len in 0..=hi {
        ctx.cases(
            &format!("batches of {len} items"),
            (k as u64).pow(len as u32) * 2 * (1 + 2),
            |mut i| {
                let (ff, mode) = (pick(&mut i, 2), pick(&mut i, 3));
                format!("fail-fast {ff} mode {mode} {:?}", (0..len).map(|_| ITEMS[pick(&mut i, k)].0).collect::<Vec<_>>())
            },
            |mut i| {
                let (ff, mode) = (pick(&mut i, 2) == 1, pick(&mut i, 3));
                let items: Vec<usize> = (0..len).map(|_| pick(&mut i, k)).collect();
                rayon::plan(if mode == 0 { 0 } else { !0 }, mode == 2);
                let r = defs(|d| judge(&process(&items, ff, mode > 0, Switch::off(), usize::MAX, d), false, None));
                rayon::plan(0, false);
                r.map(|_| len as u64)
            },
        );
    }
    // cancelled before it begins, or from the n-th report
    let sub = [0usize, 1, 2, 3, 4, 7];
    let m = sub.len();
    for len in 1..=hi {
        ctx.cases(
            &format!("cancellation of {len} items"),
            (m as u64).pow(len as u32) * 2 * 2 * (len as u64 + 1),
            |i| format!("{i}"),
            |mut i| {
                let (ff, par, after) = (pick(&mut i, 2) == 1, pick(&mut i, 2) == 1, pick(&mut i, len + 1));
                let items: Vec<usize> = (0..len).map(|_| sub[pick(&mut i, m)]).collect();
                let sw = if after == 0 { Switch::on() } else { Switch::off() };
                rayon::plan(!0, false);
                let r = defs(|d| {
                    let r = process(&items, ff, par, sw.clone(), if after == 0 { usize::MAX } else { after }, d);
                    // (one after another, also if divided)
                    let done = sw.get().then_some(after);
                    judge(&r, sw.get(), done)
                });
                rayon::plan(0, false);
                r.map(|_| len as u64)
            },
        );
    }
    // what one batch defines is unknown to the next
    ctx.cases(
        "batches one after another",
        (k as u64).pow(4),
        |i| format!("{i}"),
        |mut i| {
            let a = [pick(&mut i, k), pick(&mut i, k)];
            let b = [pick(&mut i, k), pick(&mut i, k)];
            defs(|d| {
                judge(&process(&a, false, false, Switch::off(), usize::MAX, d), false, None)?;
                judge(&process(&b, false, false, Switch::off(), usize::MAX, d), false, None)
            })?;
            Ok(4)
        },
    );
    // divided over threads, in every order, with a cancellation at any time
    let progs: [&[usize]; 7] = [&[0, 1], &[0, 0, 0], &[0, 1, 0], &[1, 1], &[3, 2, 1, 0], &[4, 0, 0], &[3, 2, 2]];
    let bound = ctx.pick(1, 2);
    for cancel in [false, true] {
        ctx.explore(Config::new(if cancel { "schedules with a cancellation" } else { "schedules" }).bound(bound), || {
            let items = progs[mcrt::choose(progs.len(), "batch")];
            let ff = mcrt::choose(2, "fail-fast") == 1;
            let par = mcrt::choose(2, "parallel") == 1;
            let sw = Switch::off();
            let h = cancel.then(|| {
                let sw = sw.clone();
                mc_std::thread::spawn(move || sw.flip_on())
            });
            let r = defs(|d| process(items, ff, par, sw.clone(), usize::MAX, d));
            let was = sw.get();
            if let Some(h) = h {
                let _ = h.join();
            }
            // (if it came in after the end, either is right)
            let v = judge(&r, was, None);
            let v = if was { v.or_else(|_| judge(&r, false, None)) } else { v };
            if let Err(e) = v {
                mcrt::fail(e);
            }
        });
    }
}
