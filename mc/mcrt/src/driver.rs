//! Glue between the harnesses of a property and the outside: tiers, evidence, replays, verdicts.
use crate::{seq::SeqReport, Config, Report};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum J {
    S(String),
    I(u64),
    F(f64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::S(s.into())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::S(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::I(s)
    }
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::F(f) => {
                let _ = write!(o, "{f:.3}");
            }
            J::B(b) => {
                let _ = write!(o, "{b}");
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    J::S(k.clone()).write(o);
                    o.push_str(": ");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

pub struct Found {
    pub harness: String,
    pub msg: String,
    pub detail: Vec<String>,
    pub choices: Vec<u32>,
}

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    verif: PathBuf,
    start: Instant,
    states: u64,
    transitions: u64,
    executions: u64,
    outcomes: u64,
    capped: Vec<String>,
    harnesses: Vec<J>,
    samples: Vec<J>,
    assumptions: Vec<String>,
    found: Vec<Found>,
    known: Vec<(String, String, String)>,
    known_hit: BTreeMap<String, u64>,
    replay: Option<(String, Vec<u32>)>,
}

/// What a property is decided by.
pub type Run = fn(&mut Ctx);

impl Ctx {
    pub fn quick(&self) -> bool {
        !self.thorough
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }
    pub fn cap(&self) -> Duration {
        Duration::from_secs(self.pick(45, 700))
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 40 {
            self.samples.push(J::S(s.into()));
        }
    }

    fn is_known(&mut self, harness: &str, msg: &str) -> bool {
        for (h, m, what) in &self.known {
            if (h == "*" || harness.starts_with(h.as_str())) && msg.contains(m.as_str()) {
                *self.known_hit.entry(what.clone()).or_default() += 1;
                return true;
            }
        }
        false
    }

    /// Whether a harness has known findings (and therefore has to look past the first violation).
    pub fn has_known(&self, harness: &str) -> bool {
        self.known.iter().any(|(h, _, _)| h == "*" || harness.starts_with(h.as_str()))
    }

    /// Explore all executions of `body` within `cfg`.
    pub fn explore(&mut self, cfg: Config, body: impl Fn() + Sync) {
        let mut cfg = cfg;
        cfg.time_cap = cfg.time_cap.min(self.cap());
        if let Some((h, ch)) = &self.replay {
            if *h == cfg.name {
                match crate::replay(&cfg, ch, &body) {
                    Some(v) => {
                        for l in &v.log {
                            println!("{l}");
                        }
                        let v2 = v.clone();
                        self.found.push(Found { harness: v2.harness, msg: v2.msg, detail: v2.log, choices: v2.choices });
                    }
                    None => println!("replay of {h}: no violation"),
                }
            }
            return;
        }
        if self.has_known(&cfg.name) {
            cfg.keep_going = true;
        }
        let r = crate::explore(&cfg, body);
        self.add_report(&r);
        for v in r.violations {
            if !self.is_known(&v.harness, &v.msg) {
                self.found.push(Found { harness: v.harness, msg: v.msg, detail: v.log, choices: v.choices });
            }
        }
    }

    fn add_report(&mut self, r: &Report) {
        self.states += r.states;
        self.transitions += r.transitions;
        self.executions += r.executions;
        self.outcomes += r.distinct_outcomes;
        if r.capped {
            self.capped.push(r.name.clone());
        }
        self.harnesses.push(J::O(vec![
            ("harness".into(), r.name.as_str().into()),
            ("deviation_bound".into(), if r.bound == u32::MAX { "none".into() } else { J::I(r.bound as u64) }),
            ("executions".into(), J::I(r.executions)),
            ("choice_points".into(), J::I(r.states)),
            ("visible_operations".into(), J::I(r.transitions)),
            ("longest_choice_vector".into(), J::I(r.max_choices as u64)),
            ("tasks".into(), J::I(r.max_tasks as u64)),
            ("distinct_outcomes".into(), J::I(r.distinct_outcomes)),
            ("complete".into(), J::B(!r.capped)),
            ("wall_s".into(), J::F(r.wall.as_secs_f64())),
        ]));
        let n = r.outcomes.len();
        for (o, c) in r.outcomes.iter().take(3) {
            self.sample(format!("{}: outcome {o} (in {c} executions; {n} kept)", r.name));
        }
        eprintln!(
            "  {:<44} executions={} choice points={} ops={} outcomes={} bound={} tasks={} {:.2}s{}{}",
            r.name,
            r.executions,
            r.states,
            r.transitions,
            r.distinct_outcomes,
            if r.bound == u32::MAX { "-".into() } else { r.bound.to_string() },
            r.max_tasks,
            r.wall.as_secs_f64(),
            if r.capped { " CAPPED" } else { "" },
            if r.violations.is_empty() { "" } else { " VIOLATED" }
        );
    }

    fn add_seq(&mut self, r: SeqReport, nodes: u64, show: &dyn Fn(&[u32]) -> String) {
        // states: every history (prefix of a sequence), or every case plus one per operation of it
        let nodes = if nodes > 0 && !r.capped && r.failure.is_none() { nodes } else { r.cases + r.transitions };
        self.states += nodes;
        self.transitions += r.transitions;
        self.executions += r.cases;
        if r.capped {
            self.capped.push(r.name.clone());
        }
        self.harnesses.push(J::O(vec![
            ("harness".into(), r.name.as_str().into()),
            ("cases".into(), J::I(r.cases)),
            ("operations".into(), J::I(r.transitions)),
            ("complete".into(), J::B(!r.capped)),
            ("wall_s".into(), J::F(r.wall.as_secs_f64())),
        ]));
        eprintln!(
            "  {:<44} cases={} ops={} {:.2}s{}{}",
            r.name,
            r.cases,
            r.transitions,
            r.wall.as_secs_f64(),
            if r.capped { " CAPPED" } else { "" },
            if r.failure.is_some() { " VIOLATED" } else { "" }
        );
        if let Some((ch, msg)) = r.failure {
            if !self.is_known(&r.name, &msg) {
                let d = show(&ch);
                self.found.push(Found { harness: r.name, msg, detail: vec![d], choices: ch });
            }
        }
    }

    /// All operation sequences of length `depth` over `k` operations.
    pub fn sequences(
        &mut self,
        name: &str,
        k: usize,
        depth: usize,
        show: impl Fn(&[u32]) -> String,
        f: impl Fn(&[u32]) -> Result<(), String> + Sync,
    ) {
        if let Some((h, ch)) = self.replay.clone() {
            if h == name {
                self.replayed(name, &ch, show(&ch), crate::catch(|| f(&ch)));
            }
            return;
        }
        let r = crate::seq::sequences(name, k, depth, self.cap(), f);
        let last = crate::seq::digits((k as u64).pow(depth as u32) / 3, k, depth);
        self.sample(format!("{name}: {}", show(&last)));
        let nodes = (0..=depth as u32).map(|i| (k as u64).pow(i)).sum();
        self.add_seq(r, nodes, &show);
    }

    /// The cases `0..n`.
    pub fn cases(
        &mut self,
        name: &str,
        n: u64,
        show: impl Fn(u64) -> String,
        f: impl Fn(u64) -> Result<u64, String> + Sync,
    ) {
        let un = |ch: &[u32]| ch.first().copied().unwrap_or(0) as u64 | (ch.get(1).copied().unwrap_or(0) as u64) << 32;
        if let Some((h, ch)) = self.replay.clone() {
            if h == name {
                let i = un(&ch);
                self.replayed(name, &ch, show(i), crate::catch(|| f(i).map(|_| ())));
            }
            return;
        }
        // a known finding is counted, and the exploration goes on past it
        let known: Vec<_> = self.known.iter().filter(|(h, _, _)| h == "*" || name.starts_with(h.as_str())).cloned().collect();
        let hits: Vec<_> = known.iter().map(|_| std::sync::atomic::AtomicU64::new(0)).collect();
        let r = crate::seq::cases(name, n, self.cap(), |i| match f(i) {
            Err(m) => match known.iter().position(|(_, k, _)| m.contains(k.as_str())) {
                Some(k) => {
                    hits[k].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    Ok(1)
                }
                None => Err(m),
            },
            r => r,
        });
        for ((_, _, what), n) in known.into_iter().zip(hits) {
            let n = n.into_inner();
            if n > 0 {
                *self.known_hit.entry(what).or_default() += n;
            }
        }
        if n > 0 {
            self.sample(format!("{name}: {}", show(n / 3)));
        }
        self.add_seq(r, 0, &|ch| show(un(ch)));
    }

    fn replayed(&mut self, name: &str, ch: &[u32], shown: String, r: Result<Result<(), String>, String>) {
        println!("{shown}");
        let msg = match r {
            Ok(Ok(())) => {
                println!("replay of {name}: no violation");
                return;
            }
            Ok(Err(m)) => m,
            Err(p) => format!("panic: {p}"),
        };
        println!("{msg}");
        self.found.push(Found { harness: name.into(), msg, detail: vec![shown], choices: ch.to_vec() });
    }

    /// Counts of an exploration done elsewhere (explicit-state search).
    pub fn add_counts(&mut self, name: &str, states: u64, transitions: u64, executions: u64, complete: bool, wall: Duration) {
        self.states += states;
        self.transitions += transitions;
        self.executions += executions;
        if !complete {
            self.capped.push(name.into());
        }
        self.harnesses.push(J::O(vec![
            ("harness".into(), name.into()),
            ("states".into(), J::I(states)),
            ("transitions".into(), J::I(transitions)),
            ("executions".into(), J::I(executions)),
            ("complete".into(), J::B(complete)),
            ("wall_s".into(), J::F(wall.as_secs_f64())),
        ]));
        eprintln!("  {name:<44} states={states} transitions={transitions} executions={executions} {:.2}s", wall.as_secs_f64());
    }

    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }

    /// A violation found by other means than `explore`, `sequences` or `cases`.
    pub fn violation(&mut self, harness: &str, msg: impl Into<String>, detail: Vec<String>) {
        let msg = msg.into();
        if !self.is_known(harness, &msg) {
            self.found.push(Found { harness: harness.into(), msg, detail, choices: Vec::new() });
        }
    }

    pub fn failed(&self) -> bool {
        !self.found.is_empty()
    }

    fn finish(self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let exhaustive = self.capped.is_empty();
        let mut cov = vec![
            ("states".to_string(), J::I(self.states)),
            ("transitions".into(), J::I(self.transitions)),
            ("traces_validated_against_impl".into(), J::I(self.executions)),
            ("distinct_outcomes".into(), J::I(self.outcomes)),
            ("exhaustive".into(), J::B(exhaustive)),
            ("samples".into(), J::A(self.samples.clone())),
            (
                "explanation".into(),
                "states: nodes of the execution tree (choice points; for sequential enumerations the operation \
                 histories) visited for the first time, each compared with the oracle; transitions: visible operations executed on the real code; traces_validated_against_impl: \
                 complete executions, every one of which ran the implementation itself next to the oracle; \
                 exhaustive: every harness enumerated its bounded space completely."
                    .into(),
            ),
            ("harnesses".into(), J::A(self.harnesses.clone())),
        ];
        if !exhaustive {
            cov.push(("capped".into(), J::A(self.capped.iter().map(|s| J::S(s.clone())).collect())));
        }
        if !self.known_hit.is_empty() {
            cov.push((
                "known_findings_seen".into(),
                J::O(self.known_hit.iter().map(|(k, n)| (k.clone(), J::I(*n))).collect()),
            ));
        }
        let ev = J::O(vec![
            ("property".into(), self.property.as_str().into()),
            ("tier".into(), if self.thorough { "thorough" } else { "quick" }.into()),
            ("seed".into(), J::I(self.seed)),
            ("level".into(), "model_checking".into()),
            ("coverage".into(), J::O(cov)),
            ("assumptions".into(), J::A(self.assumptions.iter().map(|s| J::S(s.clone())).collect())),
            ("wall_s".into(), J::F(wall)),
            ("violations".into(), J::I(self.found.len() as u64)),
        ]);
        let dir = self.verif.join("evidence");
        if self.replay.is_none() {
            std::fs::create_dir_all(&dir).ok();
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.property)), ev.text() + "\n") {
                crate::engine_error(&format!("evidence: {e}"));
            }
        }
        for k in &self.known {
            if self.replay.is_none() && self.known_hit.contains_key(&k.2) {
                println!("KNOWN-FINDING: property={} {}", self.property, k.2);
            }
        }
        if self.found.is_empty() {
            println!(
                "OK property={} tier={} states={} transitions={} executions={} exhaustive={} wall={:.1}s",
                self.property,
                if self.thorough { "thorough" } else { "quick" },
                self.states,
                self.transitions,
                self.executions,
                exhaustive,
                wall
            );
            return 0;
        }
        let f = &self.found[0];
        for f in &self.found {
            println!("violated in {}: {}", f.harness, f.msg);
            for d in f.detail.iter().take(60) {
                println!("    {d}");
            }
        }
        if self.replay.is_some() {
            return 1;
        }
        let rdir = dir.join("replays");
        std::fs::create_dir_all(&rdir).ok();
        let path = rdir.join(format!("{}.json", self.property));
        let rj = J::O(vec![
            ("property".into(), self.property.as_str().into()),
            ("harness".into(), f.harness.as_str().into()),
            ("message".into(), f.msg.as_str().into()),
            ("choices".into(), J::A(f.choices.iter().map(|c| J::I(*c as u64)).collect())),
            ("detail".into(), J::A(f.detail.iter().map(|c| J::S(c.clone())).collect())),
            (
                "how".into(),
                format!(
                    "MC_REPLAY='{}' MC_CHOICES='{}' ./check {} quick",
                    f.harness,
                    f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
                    self.property
                )
                .into(),
            ),
        ]);
        std::fs::write(&path, rj.text() + "\n").ok();
        println!("VIOLATION property={} replay={}", self.property, path.display());
        1
    }
}

/// `known_findings.txt`: lines `finding: property=<id> harness=<prefix or *> match=<text in the
/// message> what=<description>`; lines `fixed: ...` and comments suppress nothing.
fn load_known(verif: &std::path::Path, property: &str) -> Vec<(String, String, String)> {
    let s = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let (p, l) = l.strip_prefix("property=")?.split_once(" harness=")?;
            let (h, l) = l.split_once(" match=")?;
            let (m, w) = l.split_once(" what=")?;
            (p == property).then(|| (h.to_string(), m.to_string(), w.trim().to_string()))
        })
        .collect()
}

/// What is left to say when the code under test did not come back.
fn broken(verif: &std::path::Path, id: &str, tier: &str, harness: &str, choices: &[u32], msg: &str) -> i32 {
    let mut c = Ctx {
        known: Vec::new(),
        property: id.into(),
        thorough: tier == "thorough",
        seed: 1,
        verif: verif.into(),
        start: Instant::now(),
        states: 0,
        transitions: 0,
        executions: 0,
        outcomes: 0,
        capped: vec![harness.into()],
        harnesses: Vec::new(),
        samples: Vec::new(),
        assumptions: Vec::new(),
        found: Vec::new(),
        known_hit: BTreeMap::new(),
        replay: None,
    };
    c.sample(format!("{harness}: {msg}"));
    c.found.push(Found { harness: harness.into(), msg: msg.into(), detail: vec![format!("choices {choices:?}")], choices: choices.to_vec() });
    c.finish()
}

/// Run the check in a child with bounded memory, so that code which overflows its stack, aborts or
/// allocates without end is a violation and not the end of the check; within the child, somebody
/// watches that every case ends.
fn supervise(verif: &std::path::Path, id: &str, tier: &str) {
    #[repr(C)]
    struct Limit(u64, u64);
    extern "C" {
        fn setrlimit(r: i32, l: *const Limit) -> i32;
    }
    if std::env::var_os("MC_STATE").is_some() {
        let l = Limit(16 << 30, 16 << 30);
        unsafe { setrlimit(9, &l) };
        let (v, i, t) = (verif.to_path_buf(), id.to_string(), tier.to_string());
        let secs = if tier == "thorough" { 400 } else { 120 };
        crate::beat::watch(secs, move |h, c| {
            std::process::exit(broken(&v, &i, &t, &h, &c, &format!("does not end (within {secs} s)")));
        });
        return;
    }
    let state = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    let child = std::env::current_exe().and_then(|e| {
        std::process::Command::new(e).args(std::env::args_os().skip(1)).env("MC_STATE", &state).status()
    });
    let h = std::fs::read_to_string(&state).unwrap_or_default();
    let _ = std::fs::remove_file(&state);
    use std::os::unix::process::ExitStatusExt;
    match child {
        Ok(s) => match (s.code(), s.signal()) {
            (Some(c), _) => std::process::exit(c),
            // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
            (_, Some(n @ (4 | 6 | 7 | 8 | 11))) => {
                std::process::exit(broken(verif, id, tier, &h, &[], &format!("the code under test ended the process (signal {n})")))
            }
            (_, n) => crate::engine_error(&format!("the check was ended by signal {n:?}")),
        },
        Err(e) => crate::engine_error(&format!("cannot run the check: {e}")),
    }
}

/// `main` of a checker: `checker <property> <quick|thorough>`.
pub fn main(checks: &[(&str, Run)]) -> ! {
    crate::install_hook();
    let mut args = std::env::args().skip(1);
    let Some(id) = args.next() else {
        for (id, _) in checks {
            println!("{id}");
        }
        std::process::exit(2)
    };
    let tier = args
        .next()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let Some((_, run)) = checks.iter().find(|(i, _)| *i == id) else {
        crate::engine_error(&format!("no check for property {id}"))
    };
    let verif: PathBuf = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into());
    let replay = std::env::var("MC_REPLAY").ok().map(|h| {
        let c = std::env::var("MC_CHOICES").unwrap_or_default();
        (h, c.split(',').filter_map(|x| x.trim().parse().ok()).collect())
    });
    if replay.is_none() {
        supervise(&verif, &id, &tier);
    }
    let mut ctx = Ctx {
        known: load_known(&verif, &id),
        property: id,
        thorough: tier == "thorough",
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        verif,
        start: Instant::now(),
        states: 0,
        transitions: 0,
        executions: 0,
        outcomes: 0,
        capped: Vec::new(),
        harnesses: Vec::new(),
        samples: Vec::new(),
        assumptions: Vec::new(),
        found: Vec::new(),
        known_hit: BTreeMap::new(),
        replay,
    };
    run(&mut ctx);
    std::process::exit(ctx.finish())
}
