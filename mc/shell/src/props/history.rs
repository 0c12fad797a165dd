use crate::interface::history::History;
use mcrt::driver::Ctx;

/// The reference: the last 100 lines and, while browsing, which one.
struct Model {
    lines: Vec<String>,
    at: Option<usize>,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Back,
    Fwd,
    Add(&'static str),
}
use Op::*;

impl Model {
    /// The positions form a ring: neutral, newest, ..., oldest, neutral.
    fn apply(&mut self, op: Op, fresh: &mut usize) -> Option<String> {
        let n = self.lines.len();
        match op {
            Back => {
                self.at = match self.at {
                    None if n > 0 => Some(n - 1),
                    None | Some(0) => None,
                    Some(i) => Some(i - 1),
                };
                None
            }
            Fwd => {
                self.at = match self.at {
                    None if n > 0 => Some(0),
                    None => None,
                    Some(i) if i + 1 == n => None,
                    Some(i) => Some(i + 1),
                };
                None
            }
            Add(s) => {
                *fresh += 1;
                let line = if s == "#" { format!("line {fresh}") } else { s.to_string() };
                self.lines.push(line.clone());
                if self.lines.len() > 100 {
                    self.lines.remove(0);
                }
                self.at = None;
                Some(line)
            }
        }
    }
    fn current(&self) -> Option<&str> {
        self.at.map(|i| self.lines[i].as_str())
    }
}

struct Pair {
    h: History,
    m: Model,
    fresh: usize,
    // with an empty history the implementation may sit on a position which shows nothing
}

impl Pair {
    fn new(n: usize) -> Self {
        let mut p = Pair { h: History::new(), m: Model { lines: vec![], at: None }, fresh: 0 };
        for _ in 0..n {
            p.step(Add("#")).unwrap();
        }
        p
    }
    fn step(&mut self, op: Op) -> Result<(), String> {
        match op {
            Back => self.h.back(),
            Fwd => self.h.fwd(),
            Add(_) => {}
        }
        if let Some(l) = self.m.apply(op, &mut self.fresh) {
            self.h.add(l);
        }
        let (a, b) = (self.h.current(), self.m.current());
        if a != b {
            let cut = |x: Option<&str>| x.map(|l| (l.chars().take(60).collect::<String>(), l.len()));
            return Err(format!("after {op:?} the line shown is {:?}, should be {:?} (with its length; {} lines kept)", cut(a), cut(b), self.m.lines.len()));
        }
        Ok(())
    }
    fn add(&mut self, line: &str) -> Result<(), String> {
        self.h.add(line.to_string());
        self.m.lines.push(line.to_string());
        if self.m.lines.len() > 100 {
            self.m.lines.remove(0);
        }
        self.m.at = None;
        match self.h.current() {
            None => Ok(()),
            Some(l) => Err(format!("after adding a line {:?} is shown", l.chars().take(40).collect::<String>())),
        }
    }
    /// Walk once around the ring in both directions: exactly the kept lines, in order.
    fn walk(&mut self) -> Result<u64, String> {
        // to the neutral position first
        for _ in 0..=self.m.lines.len() {
            if self.m.at.is_none() {
                break;
            }
            self.step(Back)?;
        }
        let n = self.m.lines.len();
        for _ in 0..n + 1 {
            self.step(Back)?;
        }
        for _ in 0..n + 1 {
            self.step(Fwd)?;
        }
        Ok(2 * n as u64 + 2)
    }
}

const OPS: &[Op] = &[Back, Fwd, Add("#"), Add("dup"), Add("")];

fn show(n: usize, d: &[u32]) -> String {
    format!("{n} lines, then {:?}", d.iter().map(|&o| OPS[o as usize]).collect::<Vec<_>>())
}

pub fn navigation(cx: &mut Ctx) {
    // With no line yet, `back` and `fwd` have nowhere to go; that is checked on its own
    // (`navigation-empty`), since browsing an empty history is not observable until a line is added.
    let depth = cx.pick(10, 12);
    cx.sequences(
        "navigation-from-empty",
        OPS.len(),
        depth,
        |s| show(0, s),
        |s| {
            let mut p = Pair::new(0);
            for &o in s {
                p.step(OPS[o as usize])?;
            }
            Ok(())
        },
    );
    let starts = [1usize, 2, 3, 98, 99, 100, 101, 150, 200];
    let d = cx.pick(5, 7);
    let per = (OPS.len() as u64).pow(d as u32);
    cx.cases(
        "navigation-from-filled",
        per * starts.len() as u64,
        |i| show(starts[(i / per) as usize], &mcrt::seq::digits(i % per, OPS.len(), d)),
        |i| {
            let mut p = Pair::new(starts[(i / per) as usize]);
            for o in mcrt::seq::digits(i % per, OPS.len(), d) {
                p.step(OPS[o as usize])?;
            }
            Ok(d as u64)
        },
    );
    // from every position of a history of every size: there and back again
    cx.cases(
        "navigation-inverse",
        131,
        |i| format!("{i} lines, every position"),
        |i| {
            let mut p = Pair::new(i as usize);
            let mut t = 0;
            for k in 0..(i.min(100) + 3) {
                p.step(Back)?;
                p.step(Fwd)?;
                p.step(Fwd)?;
                p.step(Back)?;
                p.step(Back)?;
                t += 5;
                if k % 17 == 3 {
                    p.step(Add("again"))?;
                    p.step(Back)?;
                    p.step(Fwd)?;
                    t += 3;
                }
            }
            Ok(t)
        },
    );
}

pub fn retention(cx: &mut Ctx) {
    let max = cx.pick(350u64, 1200);
    cx.cases(
        "retention-every-count",
        max,
        |i| format!("{i} lines added"),
        |i| {
            let mut p = Pair::new(i as usize);
            p.walk().map(|t| t + i)
        },
    );
    // lines added while browsing, around the limit
    let starts = [0usize, 1, 2, 97, 98, 99, 100, 101, 199, 200, 300];
    let d = cx.pick(5, 6);
    let per = (OPS.len() as u64).pow(d as u32);
    cx.cases(
        "retention-while-browsing",
        per * starts.len() as u64,
        |i| show(starts[(i / per) as usize], &mcrt::seq::digits(i % per, OPS.len(), d)),
        |i| {
            let mut p = Pair::new(starts[(i / per) as usize]);
            for o in mcrt::seq::digits(i % per, OPS.len(), d) {
                p.step(OPS[o as usize])?;
            }
            p.walk().map(|t| t + d as u64)
        },
    );
    // lines of every sort and length
    let lens = [255usize, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 200_000];
    let odd: Vec<String> = ["", " ", "  \t", "\n", "a\nb", "a\r\n", "é字😀", "-", "# c", "foo", "foo ", " foo", "FOO", "\0", "\u{feff}x", "exit", "def a {}"]
        .iter()
        .map(|s| s.to_string())
        .chain(lens.iter().map(|&n| "x".repeat(n)))
        .chain(lens.iter().map(|&n| "é ".repeat(n)))
        .collect();
    let k = odd.len() as u64;
    let starts = [0usize, 1, 98, 99, 100, 150];
    cx.cases(
        "retention-odd-lines",
        k * k * starts.len() as u64,
        |i| format!("{} lines, then odd lines {} and {}", starts[(i / (k * k)) as usize], i / k % k, i % k),
        |i| {
            let mut p = Pair::new(starts[(i / (k * k)) as usize]);
            for j in [i / k % k, i % k, i / k % k] {
                p.add(&odd[j as usize])?;
            }
            p.walk().map(|t| t + 3)
        },
    );
}
