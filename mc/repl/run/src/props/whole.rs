//! The whole shell and its user: lines entered in tabs, evaluations which take their time.
use crate::term::*;
use crossterm::event::{mc_push, mc_script, Event as Xt, KeyEvent};
use mcrt::driver::Ctx;
use mcrt::{check, choose, Config as Explore};
use std::path::{Path, PathBuf};
use std::time::Duration;

const W: u16 = 100;
const H: u16 = 50;
/// Presses a key at the terminal.
fn press(code: KeyCode, mods: KeyModifiers) {
    mc_push(Some(Xt::Key(KeyEvent::new(code, mods))));
}
fn enter_line(s: &str) {
    for c in s.chars() {
        press(KeyCode::Char(c), if c.is_uppercase() { SHIFT } else { NONE });
    }
    press(KeyCode::Enter, NONE);
}
fn wait(ms: u64) {
    mcrt::sleep(Duration::from_millis(ms));
}
/// What is between the borders of row `i`.
fn row(l: &[String], i: usize) -> String {
    l[i].chars().skip(1).take(W as usize - 3).collect::<String>().trim_end().to_string()
}
/// The rows of the input, and of the outputs.
fn screen() -> (String, Vec<String>) {
    let l = lines();
    let at = (2..l.len()).find(|i| row(&l, *i).trim_start().starts_with("Outputs")).unwrap_or(l.len());
    ((2..at).map(|i| row(&l, i)).collect::<Vec<_>>().join("\n"), (at + 1..l.len() - 1).map(|i| row(&l, i)).collect())
}
/// Waits until the newest output answers `line`; how long that took, and the answer.
fn answer(line: &str, max: u64) -> Option<(u64, String)> {
    for t in 0..=max / 20 {
        let (_, out) = screen();
        if out.first().is_some_and(|o| *o == format!(">> {line}").trim_end()) {
            let rest: Vec<&str> = out[1..].iter().take_while(|l| !l.starts_with(">> ")).map(|x| &**x).collect();
            return Some((t * 20, rest.join("\n").trim_end().to_string()));
        }
        wait(20);
    }
    None
}
/// Runs the shell in the current folder, used by `user`.
fn shell(defs: &[&str], user: impl FnOnce() + Send + 'static) {
    tui::backend::mc_screen(W, H);
    mc_script([], false);
    let t = mc_std::thread::spawn(move || {
        press(KeyCode::Char('h'), ALT);
        user();
        for _ in 0..8 {
            press(KeyCode::Char('q'), ALT);
        }
    });
    let mut s = ogma_shell::OgmaShell::init(PathBuf::from("."));
    for d in defs {
        s = s.defs_file_path(d);
    }
    let r = s.run();
    check!(r.is_ok(), "the shell gave up: {r:?}");
    t.join().ok();
}
fn dir(name: &str) -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let d = base.join(format!("mc-{name}-{}", std::process::id()));
    std::fs::remove_dir_all(&d).ok();
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    d
}
fn explore(name: &str) -> Explore {
    Explore::new(name).delays().bound(0).steps(3_000_000).stack(4 << 20)
}
/// Reading a file takes this long from now on.
fn reading(ms: u64) {
    lang_std::ctl::READING.with(|r| r.set(ms));
}
pub fn c54(cx: &mut Ctx) {
    let d = dir("c54");
    for i in 0..4 {
        std::fs::write(d.join(format!("slow{i}.csv")), "a,b\n1,2\n3,4\n").unwrap();
    }
    std::fs::write(d.join("b.ogma"), "[no-parallelise]\nopen slow1.csv | len\n\n\\ 1\n").unwrap();
    let long = ["open slow0.csv | len", "ls | append { open slow0.csv | len } | len", "run b.ogma", "def --list | append { open slow0.csv | len } | len"];
    let then = [("\\ 1", "1"), ("def f () { \\ 2 }", "()"), ("f2", "7"), ("def --list | len", ""), ("cd .", "working dir:"), ("open slow3.csv | len", "2"), ("run c.ogma", "No such"), ("def --clear", "()")];
    cx.explore(explore("aborting"), || {
        reading(6000);
        let (l, at) = (long[choose(long.len(), "long")], [10u64, 950, 1500, 2500][choose(4, "abort at")]);
        let nexts: Vec<(&str, &str)> = (0..2).map(|_| then[choose(then.len(), "then")]).collect();
        shell(&[], move || {
            wait(50);
            enter_line("def f2 () { \\ 7 }");
            check!(answer("def f2 () { \\ 7 }", 2000).is_some(), "nothing is answered: {:?}", screen());
            enter_line(l);
            // (the batch itself has to be read first)
            wait(if l.starts_with("run") { at + 6200 } else { at });
            check!(screen().0.contains("computing"), "{l:?} is not evaluated: {:?}", screen());
            check!(answer(l, 0).is_none(), "{l:?} is done: {:?}", screen());
            press(KeyCode::Char('x'), CTRL);
            let r = answer(l, 1500);
            check!(r.as_ref().is_some_and(|r| r.1.is_empty()), "1.5 s after {l:?} was aborted: {r:?} {:?}", screen());
            reading(0);
            let mut clear = false;
            for (x, want) in nexts {
                enter_line(x);
                let r = answer(x, 1500);
                check!(r.is_some(), "{l:?} was aborted, and {x:?} is not answered in 1.5 s: {:?}", screen());
                let want = if clear && x == "f2" { "" } else { want };
                check!(r.as_ref().unwrap().1.contains(want), "{x:?} after {l:?} was aborted: {r:?}");
                clear |= x == "def --clear";
            }
        });
        reading(0);
    });
    // evaluations which do what they want
    let k = cx.pick(3, 4);
    cx.explore(explore("evaluations").allow_task_panics(), || evaluations(k));
    let (k, b) = cx.pick((2, 1), (2, 2));
    cx.explore(explore("evaluations, other schedules").allow_task_panics().bound(b), || evaluations(k));
    std::env::set_current_dir("/").ok();
    std::fs::remove_dir_all(&d).ok();
}
fn evaluations(k: usize) {
    let lines = ["quick", "slow", "endless", "panic"];
    let run: Vec<(&str, Option<u64>)> = (0..k)
        .map(|_| {
            let l = lines[choose(4, "line")];
            // (after a moment, or much later)
            (l, if l == "endless" || choose(2, "abort") == 1 { Some([300, 2300][choose(2, "when")]) } else { None })
        })
        .collect();
    let queue: Shared<std::collections::VecDeque<Event>> = Shared::new(Default::default());
    let log: Shared<Vec<(String, bool)>> = Shared::new(Vec::new());
    let (q, lg, r2) = (queue.clone(), log.clone(), run.clone());
    tui::backend::mc_screen(W, H);
    let t = mc_std::thread::spawn(move || {
        let send = |e: Event| q.get(|q| q.push_back(e));
        send(key(KeyCode::Char('h'), ALT));
        for (i, (l, abort)) in r2.into_iter().enumerate() {
            typed(l).into_iter().for_each(send);
            send(enter());
            if let Some(ms) = abort {
                wait(ms);
                // (at the prompt this does nothing)
                send(key(KeyCode::Char('x'), CTRL));
                send(ch('z')); // lost while computing, typed otherwise
                wait(1500);
            }
            wait(3600);
            check!(lg.get(|l| l.len()) == i + 1, "{} of {} lines entered were evaluated", lg.get(|l| l.len()), i + 1);
            let (input, outs) = screen();
            check!(!input.contains("computing"), "{l:?} (aborted: {abort:?}) is over, and the shell shows {input:?}");
            let aborted = lg.get(|l| l[i].1);
            let want = match l {
                "quick" => Some("done quick"),
                "slow" => Some("done slow"),
                "endless" => Some("cut endless"),
                _ => None,
            };
            if let Some(w) = want {
                check!(outs[0] == w, "{l:?} was evaluated, shown is {:?}", outs[0]);
            }
            let running = match l {
                "quick" | "panic" => 0,
                "slow" => 2500,
                _ => u64::MAX,
            };
            if let Some(at) = abort {
                check!(aborted == (at < running && l != "slow" || l == "slow" && at < 1900), "{l:?}: Ctrl+x after {at} ms, aborted: {aborted}");
            } else {
                check!(!aborted, "{l:?}: aborted by nobody");
            }
            // whatever was typed meanwhile
            for _ in 0..3 {
                send(key(KeyCode::Backspace, NONE));
            }
            wait(50);
        }
        send(quit());
    });
    let (lg, q) = (log.clone(), queue.clone());
    let r = go(W, H, Feed(move || q.get(|q| q.pop_front())), move || {
        let lg = lg.clone();
        Config {
            on_enter_press: Box::new(move |s, _, c| {
                let i = lg.get(|l| {
                    l.push((s.clone(), false));
                    l.len() - 1
                });
                check!(!c.get(), "{s:?} is aborted before it begins");
                let out = match &*s {
                    "slow" => {
                        wait(2500);
                        format!("done {s}")
                    }
                    "endless" => {
                        while !c.get() {
                            wait(100)
                        }
                        format!("cut {s}")
                    }
                    "panic" => {
                        mcrt::point("about to panic");
                        panic!("as told")
                    }
                    _ => format!("done {s}"),
                };
                lg.get(|l| l[i].1 = c.get());
                ConfigUpdate { add_output: Some(out), ..Default::default() }
            }),
            ..Default::default()
        }
    });
    check!(r.is_ok(), "the shell gave up: {r:?}");
    t.join().ok();
}

/// What a user does next, and what the shell has to show for it.
const STEPS: [&str; 21] = [
    "open t.csv | fold 0 { + $row.a }",
    "cd sub",
    "cd ..",
    "def f () { \\ 1 }",
    "f",
    "run b.ogma",
    "<tab>",
    "<new>",
    "def f () { \\ 2 }",
    "def --load",
    "cd nope",
    "g",
    "cd /",
    "cd t.csv",
    "\\ 'x' | save new.txt",
    "cd ../..",
    "def --clear",
    "cd",
    "<quit>",
    "def h () { \\ 'x --load' }",
    "h",
];
#[derive(Clone, Default)]
struct Room {
    /// the folder of each tab, whether anything has been shown there
    tabs: Vec<(Vec<&'static str>, bool)>,
    sel: usize,
    f: Option<i32>,
    loaded: bool,
    h: bool,
}
impl Room {
    fn has(wd: &[&str], file: &str) -> bool {
        match wd {
            [] => ["t.csv", "b.ogma"].contains(&file),
            ["sub"] => ["t.csv"].contains(&file),
            _ => false,
        }
    }
    /// The answer: its beginning (errors), or all of it.
    fn step(&mut self, s: &'static str) -> Option<String> {
        let wd = self.tabs[self.sel].0.clone();
        let shown = |w: &[&str]| if w.is_empty() { String::new() } else { w.join("/") };
        if let Some(to) = s.strip_prefix("cd ") {
            let err = match (to, &*wd) {
                ("sub", []) => {
                    self.tabs[self.sel].0.push("sub");
                    None
                }
                ("..", ["sub"]) => {
                    self.tabs[self.sel].0.pop();
                    None
                }
                ("nope", _) | ("sub", _) => Some("No such"),
                ("..", []) | ("/", _) | ("../..", _) => Some("cannot move above root directory"),
                ("t.csv", _) => Some("not a directory"),
                _ => None,
            };
            let w = shown(&self.tabs[self.sel].0);
            return Some(match err {
                Some(e) => format!("!{e}"),
                None => format!("working dir: {w}").trim_end().to_string(),
            });
        }
        Some(match s {
            "open t.csv | fold 0 { + $row.a }" => if Self::has(&wd, "t.csv") { (1 + wd.len()).to_string() } else { "!-->".into() },
            "f" => self.f.map_or("!-->".into(), |f| f.to_string()),
            "g" => if self.loaded { "5".into() } else { "!-->".into() },
            "cd" => "!-->".into(),
            "def f () { \\ 1 }" => {
                self.f = Some(1);
                "()".into()
            }
            "def f () { \\ 2 }" => {
                self.f = Some(2);
                "()".into()
            }
            "def --load" => {
                self.loaded = true;
                "!parsed in 1 definitions".into()
            }
            "def h () { \\ 'x --load' }" => {
                self.h = true;
                "()".into()
            }
            "h" => if self.h { "x --load".into() } else { "!-->".into() },
            "def --clear" => {
                (self.loaded, self.f, self.h) = (false, None, false);
                "()".into()
            }
            "\\ 'x' | save new.txt" => "x".into(),
            "run b.ogma" => if Self::has(&wd, "b.ogma") { format!("?{}", if self.f.is_some() { "SUCCESS" } else { "ERROR" }) } else { "!No such".into() },
            _ => return None,
        })
    }
}
/// Steps in the shell against the steps in the model.
fn session(steps: &[&'static str]) {
    let mut room = Room { tabs: vec![(vec![], false)], ..Default::default() };
    let steps = steps.to_vec();
    shell(&["defs.ogma"], move || {
        wait(50);
        let mut waited = 0;
        for (i, s) in steps.iter().enumerate() {
            let told = format!("{:?}", &steps[..=i]);
            match *s {
                "<tab>" => {
                    press(KeyCode::Tab, NONE);
                    room.sel = (room.sel + 1) % room.tabs.len();
                }
                "<new>" => {
                    press(KeyCode::Char('t'), ALT);
                    room.tabs.push((vec![], false));
                    room.sel = room.tabs.len() - 1;
                }
                "<quit>" => {
                    if room.tabs.len() == 1 {
                        continue;
                    }
                    // (keep to two tabs: which one comes next is the shell's choice)
                    if room.tabs.len() > 2 {
                        continue;
                    }
                    press(KeyCode::Char('q'), ALT);
                    room.tabs.remove(room.sel);
                    room.sel = 0;
                }
                s => {
                    let n = screen().1.iter().filter(|o| o.starts_with(">> ")).count();
                    enter_line(s);
                    while screen().1.iter().filter(|o| o.starts_with(">> ")).count() == n {
                        wait(20);
                        waited += 1;
                        check!(waited < 200, "{told}: no answer: {:?}", screen());
                    }
                    let r = answer(s, 3000);
                    let Some((_, r)) = r else { mcrt::fail(format!("{told}: no answer: {:?}", screen())) };
                    let want = room.step(s).unwrap();
                    if let Some(w) = want.strip_prefix('!').or(want.strip_prefix('?')) {
                        check!(r.contains(w), "{told}: answered with {r:?}, expected {w:?}");
                    } else {
                        check!(r.trim() == want, "{told}: answered with {r:?}, expected {want:?}");
                    }
                    room.tabs[room.sel].1 = true;
                }
            }
            wait(30);
            // the prompt names the folder
            let (input, outs) = screen();
            let w = room.tabs[room.sel].0.join("/");
            check!(input.trim() == format!("{w}>") || w.is_empty() && (input.trim() == ".>" || input.trim() == ">"), "{told}: the prompt is {input:?} in {w:?}");
            check!(outs.iter().any(|o| !o.is_empty()) == room.tabs[room.sel].1, "{told}: this tab shows {outs:?}");
        }
    });
}
pub fn c55(cx: &mut Ctx) {
    let d = dir("c55");
    std::fs::create_dir(d.join("root")).unwrap();
    std::env::set_current_dir(d.join("root")).unwrap();
    std::fs::create_dir(d.join("root/sub")).unwrap();
    std::fs::write(d.join("root/t.csv"), "a\n1\n").unwrap();
    std::fs::write(d.join("root/sub/t.csv"), "a\n2\n").unwrap();
    std::fs::write(d.join("root/b.ogma"), "f\n").unwrap();
    std::fs::write(d.join("root/defs.ogma"), "def g () { \\ 5 }\n").unwrap();
    let (n, k) = cx.pick((12, 4), (9, 5));
    cx.explore(explore("sessions"), || session(&(0..k).map(|_| STEPS[choose(n, "step")]).collect::<Vec<_>>()));
    let k = cx.pick(3, 4);
    cx.explore(explore("sessions, other steps"), || session(&(0..k).map(|_| STEPS[choose(STEPS.len(), "step")]).collect::<Vec<_>>()));
    std::env::set_current_dir("/").ok();
    std::fs::remove_dir_all(&d).ok();
}
