//! Files which are opened again: what was read is kept until the file system reports a change.
use crate::lang::{self, Location};
use crate::model::Cell::{Str as S, Tab as T};
use crate::model::*;
use mcrt::driver::Ctx;
use mcrt::Config;
use notify::DebouncedEvent as Ev;
use std::cell::RefCell;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

static N: AtomicUsize = AtomicUsize::new(0);
thread_local!(static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) });

fn base() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let at = if shm.is_dir() { shm } else { std::env::temp_dir() };
    at.canonicalize().unwrap().join(format!("mc-cache-{}", std::process::id()))
}
const FILES: [&str; 4] = ["a.csv", "A.csv", "d/a.csv", "e/a.csv"];
/// An own directory of this OS thread, as it is at the start of an execution.
fn fresh() -> PathBuf {
    let dir = DIR.with(|d| d.borrow_mut().get_or_insert_with(|| base().join(N.fetch_add(1, Ordering::Relaxed).to_string())).clone());
    let _ = fs::remove_dir_all(&dir);
    for d in ["d", "e"] {
        fs::create_dir_all(dir.join(d)).unwrap();
    }
    for (i, f) in FILES.iter().enumerate() {
        put(&dir.join(f), 900 + i);
    }
    dir
}
fn put(p: &Path, n: usize) {
    fs::write(p, format!("h\nv{n}")).unwrap();
}
/// What is in the file.
fn content(p: &Path) -> Option<String> {
    fs::read_to_string(p).ok()
}
fn as_table(c: &str) -> Cell {
    T(c.lines().map(|l| vec![s(l)]).collect())
}
fn run(src: &str, root: &Path) -> lang::R {
    defs(|d| ogma::rt::process_expression((), src, Location::Shell, d, root, Path::new(".")))
}
/// The file system reports within its debounce time.
fn report(evs: Vec<Ev>, delay: u64) {
    if delay == 0 {
        evs.into_iter().for_each(notify::inject);
    } else {
        mc_std::thread::spawn(move || {
            mcrt::sleep(Duration::from_millis(delay));
            evs.into_iter().for_each(notify::inject);
        });
    }
}
#[derive(Clone, Copy, Debug)]
enum Step {
    Open(usize),
    OpenStr(usize),
    Write(usize),
    Save(usize),
    /// the report is lost, which itself is reported
    Lost(usize),
    Rename(usize, usize),
    Remove(usize),
    /// the directories d and e change places
    Swap,
    /// the directory e takes the place of d
    Over,
    Wait,
}
use Step::*;
fn step(op: Step, n: usize, root: &Path, delay: u64) -> Result<(), String> {
    let at = |f: usize| root.join(FILES[f]);
    match op {
        Open(f) | OpenStr(f) => {
            let str = matches!(op, OpenStr(_));
            let src = format!("open {} '{}'", if str { "--Str" } else { "" }, FILES[f]);
            let exp = content(&at(f)).map(|c| if str { S(c) } else { as_table(&c) });
            let got = run(&src, root);
            match (&got, exp) {
                (Ok(v), Some(e)) if of_value(v) == e => (),
                (Err(_), None) => (),
                (_, e) => return Err(format!("`{src}` gave {}, the file has {e:?}", lang::show(&got))),
            }
        }
        Write(f) | Lost(f) => {
            if !at(f).parent().unwrap().is_dir() {
                return Ok(());
            }
            let ev = if at(f).is_file() { Ev::Write(at(f)) } else { Ev::Create(at(f)) };
            put(&at(f), n);
            report(if matches!(op, Lost(_)) { vec![Ev::Rescan] } else { vec![ev] }, delay);
        }
        Save(f) => {
            let src = format!("Table | save '{}'", FILES[f]);
            let r = run(&src, root);
            if let Err(e) = r {
                return Err(format!("`{src}` failed: {e}"));
            }
        }
        Rename(f, g) => {
            if at(f).is_file() && at(g).parent().unwrap().is_dir() {
                fs::rename(at(f), at(g)).unwrap();
                report(vec![Ev::NoticeRemove(at(f)), Ev::Rename(at(f), at(g))], delay);
            }
        }
        Remove(f) => {
            if at(f).is_file() {
                fs::remove_file(at(f)).unwrap();
                report(vec![Ev::NoticeRemove(at(f)), Ev::Remove(at(f))], delay);
            }
        }
        Swap => {
            let (d, e, x) = (root.join("d"), root.join("e"), root.join("x"));
            if d.is_dir() && e.is_dir() {
                for (a, b) in [(&d, &x), (&e, &d), (&x, &e)] {
                    fs::rename(a, b).unwrap();
                }
                report(vec![Ev::Rename(d.clone(), x.clone()), Ev::Rename(e.clone(), d), Ev::Rename(x, e)], delay);
            }
        }
        Over => {
            let (d, e, x) = (root.join("d"), root.join("e"), root.join("x"));
            if d.is_dir() && e.is_dir() {
                fs::rename(&d, &x).unwrap();
                fs::rename(&e, &d).unwrap();
                report(vec![Ev::Rename(d.clone(), x), Ev::Rename(e, d)], delay);
            }
        }
        Wait => {
            mcrt::sleep(Duration::from_secs(200));
        }
    }
    Ok(())
}
fn start() -> PathBuf {
    let root = fresh();
    lang_std::ctl::WROTE.with(|w| w.set(Some(|p| notify::inject(Ev::Write(p.canonicalize().unwrap_or(p.to_path_buf()))))));
    lang_std::ctl::READING.with(|r| r.set(0));
    // the watcher is there
    let _ = run("\\ 1", &root);
    mcrt::sleep(Duration::from_millis(22));
    root
}
pub fn c37(ctx: &mut Ctx) {
    let _ = fs::create_dir_all(base());
    lang_std::ctl::set_sandbox(base());
    let ops = [
        Open(0), Open(1), Open(2), OpenStr(0), Write(0), Write(1), Write(2), Save(0), Lost(0), Rename(1, 0), Rename(2, 0), Remove(0), Swap, Over,
    ];
    for (delay, steps) in [(0, ctx.pick(4, 5)), (5, ctx.pick(3, 4))] {
        ctx.explore(Config::new(format!("sequences of {steps} steps, reported after {delay} ms")).bound(0).steps(100_000), || {
            let root = start();
            let mut done = Vec::new();
            for n in 0..=steps {
                // the last step looks
                let op = if n < steps { ops[mcrt::choose(ops.len(), "step")] } else { ops[mcrt::choose(4, "look")] };
                done.push(op);
                if let Err(e) = step(op, n, &root, delay) {
                    mcrt::fail(format!("{done:?}: {e}"));
                }
            }
        });
    }
    // in use for long, and left alone for long
    ctx.explore(Config::new("with long waits").bound(0).steps(2_000_000), || {
        let root = start();
        let ops = [Open(0), Wait, Write(0)];
        let mut done = Vec::new();
        for n in 0..=3 {
            let op = if n < 3 { ops[mcrt::choose(ops.len(), "step")] } else { Open(0) };
            done.push(op);
            if let Err(e) = step(op, n, &root, 0) {
                mcrt::fail(format!("{done:?}: {e}"));
            }
        }
    });
    // reading takes its time, during which the file changes
    let times = ctx.pick(9, 14);
    ctx.explore(Config::new("changes while a file is read").bound(ctx.pick(1, 2)).steps(100_000), || {
        let root = start();
        let at = root.join("a.csv");
        let kind = mcrt::choose(3, "opened as");
        lang_std::ctl::READING.with(|r| r.set(40));
        let open = |src: &'static str| {
            let root = root.clone();
            mc_std::thread::spawn(move || run(src, &root).map(|v| of_value(&v)))
        };
        let mut hs = vec![open(if kind == 1 { "open --Str a.csv" } else { "open a.csv" })];
        if kind == 2 {
            hs.push(open("open a.csv"));
        }
        let old = content(&at).unwrap();
        let when = mcrt::choose(times, "when");
        mcrt::sleep(Duration::from_millis(when as u64 * 10));
        put(&at, 7);
        report(vec![Ev::Write(at.clone())], 0);
        let new = content(&at).unwrap();
        let shape = |c: &str| if kind == 1 { S(c.to_string()) } else { as_table(c) };
        for h in hs {
            match h.join() {
                Ok(Ok(v)) if v == shape(&old) || v == shape(&new) => (),
                o => mcrt::fail(format!("an opening during the change gave {o:?}")),
            }
        }
        mcrt::sleep(Duration::from_millis(100));
        lang_std::ctl::READING.with(|r| r.set(0));
        for op in [Open(0), OpenStr(0), Open(0)] {
            if let Err(e) = step(op, 0, &root, 0) {
                mcrt::fail(format!("long after the change, {e}"));
            }
        }
    });
    let _ = fs::remove_dir_all(base());
}
