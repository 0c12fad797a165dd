use crate::interface::events::{Event, Events};
use crossterm::event as xt;
use crossterm::event::{KeyCode, KeyModifiers};
use mcrt::driver::Ctx;
use mcrt::{check, Config};

/// What the terminal can report.
fn terminal(i: usize) -> (Option<xt::Event>, Option<Event>) {
    let key = |code, modifiers| {
        (Some(xt::Event::Key(xt::KeyEvent { code, modifiers })), Some(Event::Key { code, mods: modifiers }))
    };
    match i {
        0 => key(KeyCode::Char('a'), KeyModifiers::empty()),
        1 => key(KeyCode::Char('b'), KeyModifiers::empty()),
        2 => (Some(xt::Event::Resize(80, 25)), Some(Event::Resize)),
        3 => (
            Some(xt::Event::Mouse(xt::MouseEvent {
                kind: xt::MouseEventKind::Moved,
                column: 1,
                row: 2,
                modifiers: KeyModifiers::empty(),
            })),
            None,
        ),
        4 => (None, None), // a read error
        5 => key(KeyCode::Char('x'), KeyModifiers::CONTROL),
        6 => key(KeyCode::Enter, KeyModifiers::SHIFT | KeyModifiers::ALT),
        7 => key(KeyCode::Esc, KeyModifiers::empty()),
        8 => (Some(xt::Event::Resize(0, 0)), Some(Event::Resize)),
        _ => unreachable!(),
    }
}

fn script(len: usize, k: usize) -> Vec<usize> {
    (0..len).map(|i| mcrt::choose(k, &format!("terminal event {i}"))).collect()
}

fn expected(s: &[usize]) -> Vec<Event> {
    s.iter().filter_map(|&i| terminal(i).1).collect()
}

/// Every event sequence, every schedule, every way of polling.
pub fn delivery(cx: &mut Ctx) {
    // `polls[i]`: how many times the consumer polls before event i + 1 arrives
    for (len, k, bound) in [(1, 9, 3), (2, 9, cx.pick(3, 4)), (3, 9, cx.pick(2, 3)), (4, 5, cx.pick(1, 2))] {
        cx.explore(Config::new(format!("delivery-{len}-events")).bound(bound), || {
            let s = script(len, k);
            xt::mc_script(s.iter().map(|&i| terminal(i).0), false);
            let mut evs = Events::new().unwrap();
            let mut got = Vec::new();
            // a consumer which polls while events are arriving
            for _ in 0..3 {
                got.extend(evs.next());
            }
            let early = got.len();
            mcrt::quiesce();
            got.extend(evs.by_ref());
            mcrt::quiesce();
            got.extend(evs.by_ref());
            mcrt::outcome(format!("{early} early of {}", got.len()));
            let want = expected(&s);
            check!(got == want, "terminal events {s:?}: consumer got {got:?}, should be {want:?}");
        });
    }
    // events typed in bursts between polls, after everything before was consumed
    cx.explore(Config::new("delivery-bursts").bound(cx.pick(2, 3)), || {
        xt::mc_script([], false);
        let mut evs = Events::new().unwrap();
        let mut s = Vec::new();
        let mut got = Vec::new();
        for round in 0..3 {
            let n = mcrt::choose(3, "burst size");
            for j in 0..n {
                let e = [0, 4, 3, 5, 2][mcrt::choose(if round == 2 { 2 } else { 5 }, &format!("event {round}.{j}"))];
                s.push(e);
                xt::mc_push(terminal(e).0);
            }
            got.extend(evs.by_ref());
        }
        mcrt::quiesce();
        got.extend(evs.by_ref());
        let want = expected(&s);
        check!(got == want, "terminal events {s:?}: consumer got {got:?}, should be {want:?}");
    });
    // many events before the first poll: nothing is dropped
    cx.explore(Config::new("delivery-backlog").bound(0).steps(1_000_000), || {
        let n = [100usize, 1000, 3000, 20_000, 70_000][mcrt::choose(5, "backlog")];
        let s: Vec<usize> = (0..n).map(|i| [0, 1, 2, 5, 3, 7][i % 6]).collect();
        xt::mc_script(s.iter().map(|&i| terminal(i).0), false);
        let mut evs = Events::new().unwrap();
        mcrt::quiesce();
        let got: Vec<_> = evs.by_ref().collect();
        let want = expected(&s);
        check!(got == want, "{n} events queued, {} delivered (should be {})", got.len(), want.len());
    });
    // the terminal fails for a while, or reports only what is not wanted
    cx.explore(Config::new("delivery-after-trouble").delays().bound(cx.pick(0, 1)).steps(1_000_000), || {
        let n = [1usize, 2, 3, 4, 5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 1001, 5000][mcrt::choose(24, "times")];
        let what = mcrt::choose(3, "trouble");
        let one = |i: usize| terminal([4, 3, [4, 3][i % 2]][what]).0;
        let mut s = vec![terminal(0).0];
        s.extend((0..n).map(one));
        s.push(terminal(1).0);
        s.push(terminal(2).0);
        let want = [terminal(0).1, terminal(1).1, terminal(2).1];
        xt::mc_script(s, false);
        let mut evs = Events::new().unwrap();
        mcrt::quiesce();
        let got: Vec<_> = evs.by_ref().map(Some).collect();
        check!(got == want, "after {n} failures or other events the consumer got {got:?}, should be {want:?}");
    });
    // every key with every modifier, resizes to every size: one after another
    let mut keys = vec![
        KeyCode::Backspace, KeyCode::Enter, KeyCode::Left, KeyCode::Right, KeyCode::Up, KeyCode::Down, KeyCode::Home, KeyCode::End,
        KeyCode::PageUp, KeyCode::PageDown, KeyCode::Tab, KeyCode::BackTab, KeyCode::Delete, KeyCode::Insert, KeyCode::Null, KeyCode::Esc,
    ];
    keys.extend((0..=255).map(KeyCode::F));
    keys.extend((0..0x800u32).chain(0xffff - 0x800..=0x10800).chain([0x10ffff, 0x1f600, 0x200d]).filter_map(char::from_u32).map(KeyCode::Char));
    cx.explore(Config::new("delivery-every-key").bound(0).steps(1_000_000), || {
        let mods = KeyModifiers::from_bits_truncate(mcrt::choose(1 + KeyModifiers::all().bits() as usize, "modifiers") as u8);
        let ev = |&code: &KeyCode| Some(xt::Event::Key(xt::KeyEvent { code, modifiers: mods }));
        xt::mc_script(keys.iter().map(ev), false);
        let mut evs = Events::new().unwrap();
        mcrt::quiesce();
        let got: Vec<_> = evs.by_ref().collect();
        for (i, &code) in keys.iter().enumerate() {
            check!(got.get(i) == Some(&Event::Key { code, mods }), "key {code:?} with {mods:?} arrives as {:?}", got.get(i));
        }
        check!(got.len() == keys.len(), "{} keys, {} delivered", keys.len(), got.len());
    });
    cx.explore(Config::new("delivery-every-size").bound(0).steps(1_000_000), || {
        let n = [0u16, 1, 2, 79, 80, 81, 255, 256, 65535];
        let sizes: Vec<(u16, u16)> = n.iter().flat_map(|&a| n.iter().map(move |&b| (a, b))).collect();
        xt::mc_script(sizes.iter().map(|&(a, b)| Some(xt::Event::Resize(a, b))), false);
        let mut evs = Events::new().unwrap();
        mcrt::quiesce();
        let got: Vec<_> = evs.by_ref().collect();
        check!(got == vec![Event::Resize; sizes.len()], "{} resizes, {} delivered", sizes.len(), got.len());
    });
    cx.assume("the terminal is crossterm::event::read, scripted; crossbeam channels are the scheduler's model of them");
}

/// Polling never waits for the terminal.
pub fn nonblocking(cx: &mut Ctx) {
    idling(cx);
    for len in 0..=cx.pick(2, 3) {
        cx.explore(Config::new(format!("nonblocking-{len}-events")).bound(cx.pick(3, 4)), || {
            let s = script(len, 5);
            xt::mc_script(s.iter().map(|&i| terminal(i).0), false);
            let mut evs = Events::new().unwrap();
            // were `next` to wait for the terminal, this would be a deadlock once the script is over
            let mut n = 0;
            let t0 = mcrt::now();
            for _ in 0..len + 2 {
                n += evs.next().is_some() as usize;
            }
            check!(mcrt::now() == t0, "polling waits for a while");
            check!(n <= expected(&s).len(), "more events than the terminal reported");
            mcrt::quiesce();
            n += evs.by_ref().count();
            mcrt::outcome(format!("{n}"));
            check!(evs.next().is_none(), "an event out of nothing");
            check!(mcrt::now() == t0, "polling an idle terminal waits for a while");
            // still alive: what is typed later arrives
            xt::mc_push(terminal(5).0);
            mcrt::quiesce();
            check!(evs.next() == terminal(5).1, "an event typed after an idle time is lost");
            check!(evs.next().is_none(), "an event delivered twice");
        });
    }
}

/// However often an idle terminal is polled, what is typed then arrives.
fn idling(cx: &mut Ctx) {
    cx.explore(Config::new("nonblocking-idle").delays().bound(0).steps(1_000_000), || {
        let ns = [1usize, 2, 3, 10, 11, 64, 100, 101, 255, 256, 257, 1000, 1001, 4096, 65536, 70_000];
        let n = ns[mcrt::choose(ns.len(), "polls")];
        let first = mcrt::choose(2, "something before") == 1;
        xt::mc_script(first.then(|| terminal(0).0), false);
        let mut evs = Events::new().unwrap();
        mcrt::quiesce();
        if first {
            check!(evs.next() == terminal(0).1, "the first event is lost");
        }
        let t0 = mcrt::now();
        for i in 0..n {
            check!(evs.next().is_none(), "poll {i} gives an event out of nothing");
        }
        check!(mcrt::now() == t0, "polling an idle terminal waits for a while");
        xt::mc_push(terminal(5).0);
        xt::mc_push(terminal(1).0);
        mcrt::quiesce();
        let got = [evs.next(), evs.next(), evs.next()];
        check!(got == [terminal(5).1, terminal(1).1, None], "after {n} idle polls: {got:?}");
    });
}

/// Once the consumer is gone, the terminal is left alone (the one `read` under way aside).
pub fn shutdown(cx: &mut Ctx) {
    for len in 0..=2usize {
        cx.explore(Config::new(format!("shutdown-{len}-events")).bound(cx.pick(3, 4)), || {
            let s = script(len, 5);
            xt::mc_script(s.iter().map(|&i| terminal(i).0), false);
            let mut evs = Events::new().unwrap();
            let _ = evs.next();
            drop(evs);
            mcrt::quiesce();
            // The user types on: key presses for whoever reads the terminal now.
            for _ in 0..4 {
                xt::mc_push(terminal(0).0);
            }
            let before = xt::mc_reads();
            mcrt::quiesce();
            let eaten = xt::mc_reads() - before;
            mcrt::outcome(format!("{eaten} eaten"));
            check!(eaten <= 1, "the consumer is gone, but {eaten} further terminal events were swallowed");
            check!(mcrt::live_tasks().is_empty() || eaten == 0, "the reader thread outlives its consumer: {:?}", mcrt::live_tasks());
        });
    }
    // other events and errors before the keys: of keys and resizes one at most is consumed
    cx.explore(Config::new("shutdown-then-anything").bound(cx.pick(2, 3)), || {
        let s = script(mcrt::choose(2, "events before"), 5);
        xt::mc_script(s.iter().map(|&i| terminal(i).0), false);
        let mut evs = Events::new().unwrap();
        if mcrt::choose(2, "poll") == 1 {
            let _ = evs.next();
        }
        if mcrt::choose(2, "idle") == 1 {
            mcrt::quiesce();
        }
        drop(evs);
        mcrt::quiesce();
        let left = xt::mc_left();
        check!(left <= s.len(), "events out of nothing");
        let after = script(3, 5);
        for &i in &after {
            xt::mc_push(terminal(i).0);
        }
        for _ in 0..3 {
            xt::mc_push(terminal(0).0);
        }
        mcrt::quiesce();
        let rest: Vec<_> = xt::mc_rest();
        let wanted = |v: &[usize]| v.iter().filter(|&&i| terminal(i).1.is_some()).count();
        let kept = rest.iter().filter(|e| matches!(e, Some(xt::Event::Key(_)) | Some(xt::Event::Resize(..)))).count();
        // what was left unread before
        let gone = wanted(&s[s.len() - left..]) + wanted(&after) + 3 - kept;
        mcrt::outcome(format!("{gone} gone"));
        check!(gone <= 1, "the consumer is gone, but {gone} further key presses or resizes were swallowed ({after:?})");
        let l = mcrt::live_tasks();
        check!(l.is_empty(), "the reader thread outlives its consumer and a key press: {l:?}");
    });
}
