//! `mcrt` -- a small stateless model checker for real Rust code.
//!
//! The code under test runs as coroutines (one per thread it spawns) on one OS thread; every
//! visible operation (spawn, channel operation, lock, atomic access, sleep, ...) of the facades
//! `mc_std`, `crossbeam`, `parking_lot`, `rayon` calls [`point`] or [`block_until`], where the
//! scheduler decides which task goes next. Every decision (which task runs, which answer the
//! environment gives) is an entry of a *choice vector*; [`explore`] enumerates every choice vector
//! whose deviation cost (preemptions, early timers, environment faults) is within the bound.
//!
//! Outside of an exploration (no scheduler on this OS thread) the facades behave like the real
//! thing.
pub mod chan;
pub mod beat;
pub mod driver;
pub mod seq;

use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ configuration and results

#[derive(Clone, Debug)]
pub struct Config {
    /// Name of the harness, for reports.
    pub name: String,
    /// Maximal total deviation cost of one execution (`u32::MAX`: no bound).
    pub bound: u32,
    /// Horizon: more steps than this in one execution is reported as a livelock.
    pub max_steps: usize,
    /// Give up (and say so) after this long.
    pub time_cap: Duration,
    /// OS threads exploring in parallel.
    pub workers: usize,
    /// Stack size of a task.
    pub stack: usize,
    /// A panic in a task which is not the main one is a violation.
    pub task_panic_is_violation: bool,
    /// Firing a timer while some task can still run is a deviation (otherwise: not offered).
    pub early_timers: bool,
    /// Any departure from the default schedule counts (delay bounding), not just preemptions.
    pub delays: bool,
    /// Collect all violations instead of stopping at the first one.
    pub keep_going: bool,
    /// Upper bound on the number of violations kept.
    pub max_violations: usize,
}

impl Config {
    pub fn new(name: impl Into<String>) -> Self {
        Config {
            name: name.into(),
            bound: u32::MAX,
            max_steps: 20_000,
            time_cap: Duration::from_secs(600),
            workers: workers(),
            stack: 256 * 1024,
            task_panic_is_violation: true,
            early_timers: false,
            delays: false,
            keep_going: false,
            max_violations: 200,
        }
    }
    pub fn bound(mut self, b: u32) -> Self {
        self.bound = b;
        self
    }
    pub fn stack(mut self, s: usize) -> Self {
        self.stack = s;
        self
    }
    pub fn workers(mut self, s: usize) -> Self {
        self.workers = s;
        self
    }
    pub fn steps(mut self, s: usize) -> Self {
        self.max_steps = s;
        self
    }
    pub fn keep_going(mut self) -> Self {
        self.keep_going = true;
        self
    }
    pub fn allow_task_panics(mut self) -> Self {
        self.task_panic_is_violation = false;
        self
    }
    pub fn early_timers(mut self) -> Self {
        self.early_timers = true;
        self
    }
    pub fn delays(mut self) -> Self {
        self.delays = true;
        self
    }
    pub fn cap(mut self, secs: u64) -> Self {
        self.time_cap = Duration::from_secs(secs);
        self
    }
}

pub fn workers() -> usize {
    std::env::var("MC_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()).min(8))
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub harness: String,
    pub msg: String,
    pub choices: Vec<u32>,
    pub log: Vec<String>,
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub name: String,
    pub bound: u32,
    /// Complete executions.
    pub executions: u64,
    /// Nodes of the choice tree visited for the first time (choice points).
    pub states: u64,
    /// Visible operations executed.
    pub transitions: u64,
    pub max_choices: usize,
    pub max_tasks: usize,
    /// Distinct observations reported with [`outcome`].
    pub outcomes: BTreeMap<String, u64>,
    pub distinct_outcomes: u64,
    /// Some limit was hit before the space was exhausted.
    pub capped: bool,
    pub violations: Vec<Violation>,
    pub wall: Duration,
}

// ------------------------------------------------------------------------------- one execution

struct Teardown;
/// Panic payload of [`fail`].
pub struct Failure(pub String);

type Pred = *const (dyn Fn() -> bool + 'static);

enum TaskState {
    Runnable,
    Blocked(Pred),
    Done,
}

struct Task {
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    state: TaskState,
    deadline: Option<u64>,
    yielder: *const Yielder<(), ()>,
    name: String,
    label: &'static str,
}

#[derive(Clone, Copy)]
struct Choice {
    chosen: u32,
    n: u32,
    /// Cost of choosing an alternative other than 0.
    alt: u8,
    /// Cost of choosing the last alternative.
    last: u8,
}

static EXECUTIONS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

struct Exec {
    id: u64,
    tasks: Vec<Task>,
    cur: usize,
    next: usize,
    prefix: Vec<u32>,
    choices: Vec<Choice>,
    steps: usize,
    now: u64,
    teardown: bool,
    over: bool,
    violation: Option<String>,
    engine_error: Option<String>,
    outcome: Vec<String>,
    log: Option<Vec<String>>,
    max_steps: usize,
    early_timers: bool,
    delays: bool,
    task_panic_is_violation: bool,
    stack: usize,
    task_panics: Vec<(String, String)>,
}

thread_local! {
    static CTX: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn ctx() -> Option<&'static mut Exec> {
    let p = CTX.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        // SAFETY: set only while the execution runs on this OS thread; tasks of an execution never
        // run concurrently, and no reference is kept across a suspension.
        Some(unsafe { &mut *p })
    }
}

/// A number unique to the execution the caller belongs to (0 outside the scheduler).
pub fn execution() -> u64 {
    ctx().map_or(0, |e| e.id)
}

/// Whether the caller runs under the scheduler.
pub fn active() -> bool {
    ctx().is_some()
}

/// Whether the caller is being torn down (the execution is over).
pub fn tearing_down() -> bool {
    ctx().map_or(false, |e| e.teardown)
}

fn suspend() {
    let y = {
        let e = ctx().unwrap();
        e.tasks[e.cur].yielder
    };
    unsafe { (*y).suspend(()) };
    if ctx().unwrap().teardown {
        resume_unwind(Box::new(Teardown));
    }
}

fn enabled(e: &Exec, i: usize) -> bool {
    let t = &e.tasks[i];
    match &t.state {
        TaskState::Runnable => true,
        TaskState::Done => false,
        TaskState::Blocked(p) => {
            t.deadline.map_or(false, |d| e.now >= d) || unsafe { (**p)() }
        }
    }
}

fn record(e: &mut Exec, n: u32, alt: u8, last: u8, what: impl FnOnce(u32) -> String) -> u32 {
    debug_assert!(n >= 1);
    if n == 1 {
        return 0;
    }
    let i = e.choices.len();
    let chosen = match e.prefix.get(i) {
        Some(&c) => {
            if c >= n {
                e.engine_error = Some(format!(
                    "divergence while replaying: choice {i} is {c} but only {n} options"
                ));
                0
            } else {
                c
            }
        }
        None => 0,
    };
    e.choices.push(Choice { chosen, n, alt, last });
    if e.log.is_some() {
        let s = what(chosen);
        let cur = e.tasks.get(e.cur).map(|t| t.name.clone()).unwrap_or_default();
        e.log
            .as_mut()
            .unwrap()
            .push(format!("#{i} [{cur}] {s} ({chosen} of {n})"));
    }
    chosen
}

/// Decide who runs next. Returns `false` if nobody can (deadlock).
fn schedule(e: &mut Exec, cur_ok: bool) -> bool {
    e.steps += 1;
    if e.steps > e.max_steps {
        if e.violation.is_none() {
            e.violation = Some(format!(
                "no progress: more than {} steps in one execution (livelock); tasks: {}",
                e.max_steps,
                describe(e)
            ));
        }
        e.over = true;
        return false;
    }
    loop {
        let mut opts: [usize; 24] = [0; 24];
        let mut n = 0;
        let cur_en = cur_ok && enabled(e, e.cur);
        if cur_en {
            opts[n] = e.cur;
            n += 1;
        }
        for i in 0..e.tasks.len() {
            if i != e.cur && enabled(e, i) && n < opts.len() {
                opts[n] = i;
                n += 1;
            }
        }
        if !cur_ok && n == 0 && enabled(e, e.cur) {
            opts[0] = e.cur;
            n = 1;
        }
        let timer = e
            .tasks
            .iter()
            .filter(|t| matches!(t.state, TaskState::Blocked(_)))
            .filter_map(|t| t.deadline)
            .filter(|d| *d > e.now)
            .min();
        if n == 0 {
            match timer {
                Some(d) => {
                    e.now = d;
                    continue;
                }
                None => return false,
            }
        }
        let offer_timer = e.early_timers && timer.is_some();
        let total = n as u32 + offer_timer as u32;
        let alt = (cur_en || e.delays) as u8;
        let last = if offer_timer { 1 } else { alt };
        let names: Vec<String> = if e.log.is_some() {
            opts[..n]
                .iter()
                .map(|&i| format!("{}@{}", e.tasks[i].name, e.tasks[i].label))
                .collect()
        } else {
            Vec::new()
        };
        let c = record(e, total, alt, last, |c| {
            if (c as usize) < n {
                format!("run {} of {:?}", names[c as usize], names)
            } else {
                "let the next timer fire".to_string()
            }
        });
        if c as usize >= n {
            e.now = timer.unwrap();
            continue;
        }
        e.next = opts[c as usize];
        return true;
    }
}

fn describe(e: &Exec) -> String {
    e.tasks
        .iter()
        .map(|t| {
            format!(
                "{}:{}@{}",
                t.name,
                match t.state {
                    TaskState::Runnable => "runnable",
                    TaskState::Blocked(_) => "blocked",
                    TaskState::Done => "done",
                },
                t.label
            )
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn deadlock(e: &mut Exec) {
    if e.violation.is_none() {
        e.violation = Some(format!("deadlock: no task can run; tasks: {}", describe(e)));
    }
    e.over = true;
}

fn switch(label: &'static str, cur_ok: bool) {
    let e = ctx().unwrap();
    let cur = e.cur;
    e.tasks[cur].label = label;
    if !schedule(e, cur_ok) {
        if !e.over {
            deadlock(e);
        }
        suspend();
        return;
    }
    if e.next != cur {
        suspend();
    }
}

thread_local! {
    /// The closure of a task which never started is being dropped.
    static DROPPING: Cell<bool> = const { Cell::new(false) };
}

/// No operation may switch tasks or panic now.
fn unwinding() -> bool {
    std::thread::panicking() || DROPPING.with(|d| d.get())
}

/// A visible operation is about to happen: any enabled task may go first.
pub fn point(label: &'static str) {
    let Some(e) = ctx() else { return };
    if e.teardown {
        if !unwinding() {
            resume_unwind(Box::new(Teardown));
        }
        return;
    }
    if unwinding() {
        return;
    }
    switch(label, true);
}

/// The caller gives way: somebody else goes first if anybody can.
pub fn yield_now(label: &'static str) {
    let Some(e) = ctx() else { return };
    if e.teardown {
        if !unwinding() {
            resume_unwind(Box::new(Teardown));
        }
        return;
    }
    if unwinding() {
        return;
    }
    switch(label, false);
}

/// Block the calling task until `f` holds. `f` must depend on state only tasks change.
/// Only for use under the scheduler.
pub fn block_until(label: &'static str, f: impl Fn() -> bool) {
    block_until_deadline(label, None, f);
}

/// As `block_until`, giving up at the virtual time `deadline`. Returns whether `f` holds.
pub fn block_until_deadline(label: &'static str, deadline: Option<u64>, f: impl Fn() -> bool) -> bool {
    let e = ctx().expect("block_until outside of the scheduler");
    if e.teardown || unwinding() {
        if e.teardown && !unwinding() {
            resume_unwind(Box::new(Teardown));
        }
        return f();
    }
    let cur = e.cur;
    let r: &dyn Fn() -> bool = &f;
    // SAFETY: the predicate is read only while the task is suspended here.
    let p: Pred = unsafe { std::mem::transmute::<*const (dyn Fn() -> bool + '_), Pred>(r) };
    e.tasks[cur].deadline = deadline;
    e.tasks[cur].state = TaskState::Blocked(p);
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            let e = ctx().unwrap();
            e.tasks[self.0].state = TaskState::Runnable;
            e.tasks[self.0].deadline = None;
        }
    }
    let reset = Reset(cur);
    switch(label, true);
    drop(reset);
    f()
}

/// An environment choice among `n` answers, all free: every one is explored.
pub fn choose(n: usize, label: &str) -> usize {
    let e = ctx().expect("choose outside of the scheduler");
    record(e, n as u32, 0, 0, |c| format!("choose {label} = {c}")) as usize
}

/// An environment choice in which everything but 0 counts as a deviation.
pub fn deviate(n: usize, label: &str) -> usize {
    let e = ctx().expect("deviate outside of the scheduler");
    record(e, n as u32, 1, 1, |c| format!("deviate {label} = {c}")) as usize
}

/// Virtual time in nanoseconds (`None` outside of the scheduler).
pub fn now() -> Option<u64> {
    ctx().map(|e| e.now)
}

pub fn sleep(d: Duration) -> bool {
    let Some(e) = ctx() else { return false };
    if e.teardown || unwinding() {
        point("sleep");
        return true;
    }
    let dl = e.now.saturating_add((d.as_nanos() as u64).max(1));
    block_until_deadline("sleep", Some(dl), || false);
    true
}

/// The property is broken in this execution.
pub fn fail(msg: impl Into<String>) -> ! {
    resume_unwind(Box::new(Failure(msg.into())))
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { $crate::fail(format!($($t)*)) } };
}

/// An observation of this execution, to be counted in the report.
pub fn outcome(s: impl Into<String>) {
    if let Some(e) = ctx() {
        e.outcome.push(s.into());
    }
}

/// Add a line to the log of the execution (kept only when one is replayed).
pub fn note(s: impl FnOnce() -> String) {
    if let Some(e) = ctx() {
        if e.log.is_some() {
            let cur = e.tasks.get(e.cur).map(|t| t.name.clone()).unwrap_or_default();
            let s = s();
            e.log.as_mut().unwrap().push(format!("   [{cur}] {s}"));
        }
    }
}

/// The calling task ends with this panic, which somebody else is going to look at. `false`: the
/// payload belongs to the scheduler and must go on unwinding.
pub fn record_panic(p: &(dyn Any + Send)) -> bool {
    if p.is::<Teardown>() || p.is::<Failure>() || tearing_down() {
        return false;
    }
    let m = panic_message(p);
    if let Some(e) = ctx() {
        let name = e.tasks[e.cur].name.clone();
        if e.task_panic_is_violation {
            if e.violation.is_none() {
                e.violation = Some(format!("panic in `{name}`: {m}"));
            }
            e.over = true;
        }
        e.task_panics.push((name, m));
    }
    true
}

/// Panics of tasks other than the main one so far: (task, message).
pub fn task_panics() -> Vec<(String, String)> {
    ctx().map(|e| e.task_panics.clone()).unwrap_or_default()
}

/// Names of the tasks which have not ended (the caller excluded).
pub fn live_tasks() -> Vec<String> {
    let Some(e) = ctx() else { return Vec::new() };
    (0..e.tasks.len())
        .filter(|&i| i != e.cur && !matches!(e.tasks[i].state, TaskState::Done))
        .map(|i| e.tasks[i].name.clone())
        .collect()
}

/// Block until no other task can run (all are done or blocked, timers not counted).
pub fn quiesce() {
    let me = ctx().expect("quiesce outside of the scheduler").cur;
    block_until("quiesce", move || {
        let e = ctx().unwrap();
        (0..e.tasks.len()).all(|i| i == me || !enabled_no_rec(e, i, me))
    });
}

fn enabled_no_rec(e: &Exec, i: usize, me: usize) -> bool {
    // two quiescing tasks would recurse for ever: the label tells them apart
    if i != me && e.tasks[i].label == "quiesce" {
        return false;
    }
    enabled(e, i)
}

/// Steps taken so far in this execution.
pub fn steps() -> usize {
    ctx().map_or(0, |e| e.steps)
}

fn get_stack(size: usize) -> DefaultStack {
    STACKS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(size).expect("stack"))
}

pub fn panic_message(p: &(dyn Any + Send)) -> String {
    if let Some(f) = p.downcast_ref::<Failure>() {
        return f.0.clone();
    }
    let m = p
        .downcast_ref::<&str>()
        .map(|x| x.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "(panic payload is not a string)".to_string());
    let at = LAST_PANIC.with(|l| l.borrow().clone());
    if at.is_empty() {
        m
    } else {
        format!("{m} (at {at})")
    }
}

fn new_task(e: &mut Exec, name: String, main: bool, f: Box<dyn FnOnce()>) -> usize {
    let id = e.tasks.len();
    let co = Coroutine::with_stack(get_stack(e.stack), move |y: &Yielder<(), ()>, ()| {
        {
            let e = ctx().unwrap();
            e.tasks[id].yielder = y as *const _;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let e = ctx().unwrap();
        if let Err(p) = r {
            if p.is::<Teardown>() {
                // the execution is over
            } else {
                let m = panic_message(&*p);
                let is_failure = p.is::<Failure>();
                if main || is_failure || e.task_panic_is_violation {
                    if e.violation.is_none() {
                        e.violation = Some(if is_failure {
                            m.clone()
                        } else {
                            format!("panic in `{}`: {m}", e.tasks[id].name)
                        });
                    }
                    e.over = true;
                }
                if !main {
                    e.task_panics.push((e.tasks[id].name.clone(), m));
                }
                // payloads may own tracked objects
                let _ = catch_unwind(AssertUnwindSafe(|| drop(p)));
            }
        }
        e.tasks[id].state = TaskState::Done;
        if main {
            e.over = true;
        }
    });
    e.tasks.push(Task {
        co: Some(co),
        state: TaskState::Runnable,
        deadline: None,
        yielder: std::ptr::null(),
        name,
        label: "start",
    });
    id
}

/// Create a task (under the scheduler only). The caller sees to it that `f` does not outlive what
/// it borrows (scoped threads). Returns its id.
///
/// # Safety
/// `f` may borrow; the caller must not return before the task has ended.
pub unsafe fn spawn_unchecked<'a>(name: Option<String>, f: Box<dyn FnOnce() + 'a>) -> usize {
    let f: Box<dyn FnOnce() + 'static> = std::mem::transmute(f);
    let e = ctx().expect("spawn outside of the scheduler");
    let id = e.tasks.len();
    let name = name.map(|n| format!("{n}#{id}")).unwrap_or_else(|| format!("thread#{id}"));
    let id = new_task(e, name, false, f);
    if !e.teardown && !unwinding() {
        switch("spawned", true);
    }
    id
}

pub fn task_done(id: usize) -> bool {
    matches!(ctx().unwrap().tasks[id].state, TaskState::Done)
}

pub fn current_task() -> usize {
    ctx().map_or(usize::MAX, |e| e.cur)
}

struct ExecResult {
    choices: Vec<Choice>,
    steps: usize,
    tasks: usize,
    violation: Option<String>,
    engine_error: Option<String>,
    outcome: Vec<String>,
    log: Vec<String>,
}

fn run_one(cfg: &Config, prefix: Vec<u32>, log: bool, body: &(dyn Fn() + Sync)) -> ExecResult {
    let mut exec = Box::new(Exec {
        id: EXECUTIONS.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
        tasks: Vec::with_capacity(8),
        cur: 0,
        next: 0,
        prefix,
        choices: Vec::with_capacity(32),
        steps: 0,
        now: 0,
        teardown: false,
        over: false,
        violation: None,
        engine_error: None,
        outcome: Vec::new(),
        log: log.then(Vec::new),
        max_steps: cfg.max_steps,
        early_timers: cfg.early_timers,
        delays: cfg.delays,
        task_panic_is_violation: cfg.task_panic_is_violation,
        stack: cfg.stack,
        task_panics: Vec::new(),
    });
    assert!(CTX.with(|c| c.get()).is_null(), "nested exploration");
    CTX.with(|c| c.set(&mut *exec));
    QUIET.with(|q| q.set(true));
    // SAFETY: every task is gone before this function returns.
    let body: &'static (dyn Fn() + Sync) = unsafe { std::mem::transmute(body) };
    {
        let e = ctx().unwrap();
        new_task(e, "main".into(), true, Box::new(move || body()));
        e.next = 0;
    }
    loop {
        let id = {
            let e = ctx().unwrap();
            e.cur = e.next;
            e.cur
        };
        let mut co = ctx().unwrap().tasks[id].co.take().expect("task runs");
        let r = co.resume(());
        ctx().unwrap().tasks[id].co = Some(co);
        if let CoroutineResult::Return(()) = r {
            let e = ctx().unwrap();
            let co = e.tasks[id].co.take().unwrap();
            STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
            if !e.over {
                e.tasks[id].label = "ended";
                if !schedule(e, false) && !e.over {
                    deadlock(e);
                }
            }
        }
        let e = ctx().unwrap();
        if e.over || e.engine_error.is_some() {
            break;
        }
    }
    // tear down the remaining tasks, youngest first
    ctx().unwrap().teardown = true;
    let mut i = ctx().unwrap().tasks.len();
    while i > 0 {
        i -= 1;
        let co = ctx().unwrap().tasks[i].co.take();
        if let Some(mut co) = co {
            ctx().unwrap().cur = i;
            if co.started() {
                for _ in 0..1000 {
                    if let CoroutineResult::Return(()) = co.resume(()) {
                        break;
                    }
                }
                if co.done() {
                    STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                } else {
                    let e = ctx().unwrap();
                    e.engine_error = Some(format!("task {} cannot be torn down", e.tasks[i].name));
                    std::mem::forget(co);
                }
            } else {
                // drops the closure
                DROPPING.with(|d| d.set(true));
                drop(co);
                DROPPING.with(|d| d.set(false));
            }
        }
        // tasks created during the teardown
        let n = ctx().unwrap().tasks.len();
        for j in (i + 1)..n {
            if let Some(co) = ctx().unwrap().tasks[j].co.take() {
                DROPPING.with(|d| d.set(true));
                drop(co);
                DROPPING.with(|d| d.set(false));
            }
        }
    }
    QUIET.with(|q| q.set(false));
    CTX.with(|c| c.set(std::ptr::null_mut()));
    let ex = *exec;
    let mut engine_error = ex.engine_error;
    if engine_error.is_none() && ex.choices.len() < ex.prefix.len() {
        engine_error = Some(format!(
            "divergence while replaying: the execution ended after {} of {} choices",
            ex.choices.len(),
            ex.prefix.len()
        ));
    }
    ExecResult {
        choices: ex.choices,
        steps: ex.steps,
        tasks: ex.tasks.len(),
        violation: ex.violation,
        engine_error,
        outcome: ex.outcome,
        log: ex.log.unwrap_or_default(),
    }
}

/// Install the panic hook: silent (but remembered) under the scheduler, the usual one elsewhere.
pub fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            let at = i
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|l| *l.borrow_mut() = at);
            if !QUIET.with(|q| q.get()) {
                old(i)
            }
        }));
    });
}

/// Silence the panic message on this OS thread while `f` runs; a panic becomes `Err(message)`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    install_hook();
    let q = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|c| c.set(q));
    match r {
        Ok(r) => Ok(r),
        Err(p) if p.is::<Teardown>() => resume_unwind(p),
        Err(p) => Err(panic_message(&*p)),
    }
}

/// Machine error: never a verdict.
pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE-ERROR: {msg}");
    std::process::exit(3)
}

struct Shared {
    stack: Vec<Vec<u32>>,
    active: usize,
    stop: bool,
    report: Report,
    outcomes: HashSet<String>,
}

/// Enumerate every execution of `body` within the bound.
pub fn explore(cfg: &Config, body: impl Fn() + Sync) -> Report {
    install_hook();
    beat::harness(&cfg.name);
    let start = Instant::now();
    let shared = Mutex::new(Shared {
        stack: vec![Vec::new()],
        active: 0,
        stop: false,
        report: Report { name: cfg.name.clone(), bound: cfg.bound, ..Report::default() },
        outcomes: HashSet::new(),
    });
    let cv = Condvar::new();
    let body: &(dyn Fn() + Sync) = &body;
    let work = || {
        let mut rep = Report::default();
        let mut outs: BTreeMap<String, u64> = BTreeMap::new();
        let mut local: Vec<Vec<u32>> = Vec::new();
        loop {
            let prefix = match local.pop() {
                Some(p) => p,
                None => {
                    let mut s = shared.lock().unwrap();
                    loop {
                        if s.stop {
                            break;
                        }
                        if let Some(p) = s.stack.pop() {
                            s.active += 1;
                            local.push(p);
                            break;
                        }
                        if s.active == 0 {
                            break;
                        }
                        s = cv.wait(s).unwrap();
                    }
                    drop(s);
                    match local.pop() {
                        Some(p) => p,
                        None => break,
                    }
                }
            };
            let plen = prefix.len();
            let beat = beat::begin(&prefix);
            let r = run_one(cfg, prefix, false, body);
            drop(beat);
            if let Some(e) = r.engine_error {
                engine_error(&format!("{}: {e}", cfg.name));
            }
            rep.executions += 1;
            rep.transitions += r.steps as u64;
            rep.states += (r.choices.len() - plen.min(r.choices.len())) as u64 + 1;
            rep.max_choices = rep.max_choices.max(r.choices.len());
            rep.max_tasks = rep.max_tasks.max(r.tasks);
            if !r.outcome.is_empty() {
                *outs.entry(r.outcome.join(" | ")).or_default() += 1;
                if outs.len() > 20_000 {
                    let mut s = shared.lock().unwrap();
                    flush(&mut s, &mut rep, &mut outs);
                }
            }
            if let Some(msg) = r.violation {
                let ch: Vec<u32> = r.choices.iter().map(|c| c.chosen).collect();
                let mut s = shared.lock().unwrap();
                s.report.violations.push(Violation {
                    harness: cfg.name.clone(),
                    msg,
                    choices: ch,
                    log: Vec::new(),
                });
                if !cfg.keep_going || s.report.violations.len() >= cfg.max_violations {
                    s.stop = true;
                    cv.notify_all();
                }
            }
            // alternatives
            let mut cost = 0u32;
            for (i, c) in r.choices.iter().enumerate() {
                let cc = |a: u32| -> u32 {
                    if a == 0 {
                        0
                    } else if a + 1 == c.n {
                        c.last as u32
                    } else {
                        c.alt as u32
                    }
                };
                if i >= plen {
                    for alt in (1..c.n).rev() {
                        if cost.saturating_add(cc(alt)) <= cfg.bound {
                            let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                            p.extend(r.choices[..i].iter().map(|c| c.chosen));
                            p.push(alt);
                            local.push(p);
                        }
                    }
                }
                cost = cost.saturating_add(cc(c.chosen));
            }
            // share, and look for a reason to stop
            if rep.executions % 64 == 1 || local.is_empty() || local.len() > 64 {
                let mut s = shared.lock().unwrap();
                if start.elapsed() > cfg.time_cap && !s.stop {
                    s.stop = true;
                    s.report.capped = true;
                    cv.notify_all();
                }
                if s.stop {
                    s.active -= 1;
                    cv.notify_all();
                    break;
                }
                if s.stack.len() < cfg.workers * 4 && local.len() > 1 {
                    // the oldest are the largest subtrees
                    let k = local.len() / 2;
                    s.stack.extend(local.drain(..k));
                    cv.notify_all();
                }
                if local.is_empty() {
                    s.active -= 1;
                    if s.active == 0 {
                        cv.notify_all();
                    }
                }
            }
        }
        let mut s = shared.lock().unwrap();
        flush(&mut s, &mut rep, &mut outs);
        STACKS.with(|s| s.borrow_mut().clear());
    };
    if cfg.workers <= 1 {
        // on a thread of its own: stacks and panics do not mix with the caller's
        std::thread::scope(|s| {
            s.spawn(work);
        });
    } else {
        std::thread::scope(|s| {
            for _ in 0..cfg.workers {
                s.spawn(work);
            }
        });
    }
    let s = shared.into_inner().unwrap();
    let mut report = s.report;
    report.distinct_outcomes = s.outcomes.len() as u64;
    report.wall = start.elapsed();
    report
        .violations
        .sort_by(|a, b| (a.choices.iter().filter(|c| **c > 0).count(), a.choices.len(), &a.choices).cmp(&(
            b.choices.iter().filter(|c| **c > 0).count(),
            b.choices.len(),
            &b.choices,
        )));
    // confirm: the same choices give the same verdict, twice, and once with a log
    let keep = if cfg.keep_going { report.violations.len() } else { 1 };
    report.violations.truncate(keep);
    for v in report.violations.iter_mut() {
        let a = replay(cfg, &v.choices, body);
        let b = replay(cfg, &v.choices, body);
        match (a, b) {
            // (what it says may hold a time measured)
            (Some(a), Some(_)) => v.log = a.log,
            (a, b) => engine_error(&format!(
                "{}: a violation does not replay: `{}` became {:?} and {:?}",
                cfg.name,
                v.msg,
                a.map(|x| x.msg),
                b.map(|x| x.msg)
            )),
        }
    }
    report
}

fn flush(s: &mut Shared, rep: &mut Report, outs: &mut BTreeMap<String, u64>) {
    let r = &mut s.report;
    r.executions += rep.executions;
    r.transitions += rep.transitions;
    r.states += rep.states;
    r.max_choices = r.max_choices.max(rep.max_choices);
    r.max_tasks = r.max_tasks.max(rep.max_tasks);
    for (k, n) in std::mem::take(outs) {
        s.outcomes.insert(k.clone());
        if r.outcomes.len() < 64 || r.outcomes.contains_key(&k) {
            *r.outcomes.entry(k).or_default() += n;
        }
    }
    *rep = Report::default();
}

/// Run one choice vector; returns the violation (with its log) if there is one.
pub fn replay(cfg: &Config, choices: &[u32], body: impl Fn() + Sync) -> Option<Violation> {
    install_hook();
    let r = std::thread::scope(|s| {
        s.spawn(|| {
            let r = run_one(cfg, choices.to_vec(), true, &body);
            STACKS.with(|s| s.borrow_mut().clear());
            r
        })
        .join()
    })
    .unwrap_or_else(|_| engine_error("replay panicked"));
    if let Some(e) = r.engine_error {
        engine_error(&format!("{}: {e}", cfg.name));
    }
    r.violation.map(|msg| Violation {
        harness: cfg.name.clone(),
        msg,
        choices: r.choices.iter().map(|c| c.chosen).collect(),
        log: r.log,
    })
}
