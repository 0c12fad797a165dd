use crate::interface::completions::{Completer, Completion, CompletionType, Completions};
use crate::interface::input::{InputBuffer, Mvmt};
use mcrt::driver::Ctx;
use mcrt::{check, Config};

type Calls = std::rc::Rc<std::cell::RefCell<Vec<(usize, String, usize, usize)>>>;

/// A completer which names itself, the request and the rank in every item.
struct Probe {
    id: usize,
    /// items for a request
    n: usize,
    /// panics on inputs containing this
    bomb: Option<char>,
    /// answers nothing for inputs containing this
    mute: Option<char>,
    calls: Calls,
}
// SAFETY: tasks of one execution share an OS thread
unsafe impl Send for Probe {}

impl Completer for Probe {
    fn complete(&self, input: &str, cursor_pos: usize, word_pos: usize) -> Vec<Completion> {
        self.calls.borrow_mut().push((self.id, input.to_string(), cursor_pos, word_pos));
        mcrt::point("completing");
        if self.bomb.map_or(false, |c| input.contains(c)) {
            panic!("completer {} fails on {input}", self.id);
        }
        if self.mute.map_or(false, |c| input.contains(c)) {
            return Vec::new();
        }
        (0..self.n).map(|i| Completion { value: item(self.id, input, i), ty: CompletionType::Literal }).collect()
    }
}

fn item(id: usize, input: &str, rank: usize) -> String {
    format!("{input}>{id}.{rank}")
}

fn probes(ns: &[usize]) -> (Vec<Box<dyn Completer>>, Calls) {
    let calls: Calls = Default::default();
    let v = ns
        .iter()
        .enumerate()
        .map(|(id, &n)| Box::new(Probe { id, n, bomb: None, mute: Some('~'), calls: calls.clone() }) as Box<dyn Completer>)
        .collect();
    (v, calls)
}

fn values(c: &Completions) -> Vec<String> {
    c.items().iter().map(|i| i.value.clone()).collect()
}

/// What is shown must be the answers to `input` (if something is awaited) and each completer's in one
/// piece and in order. Returns the completers which have answered.
fn shown_ok(c: &Completions, ns: &[usize], input: Option<&str>) -> Vec<usize> {
    let v = values(c);
    check!(c.has() == !v.is_empty(), "has() is {} with {} items", c.has(), v.len());
    let Some(input) = input else {
        check!(v.is_empty(), "completions {v:?} are shown although nothing is awaited");
        return vec![];
    };
    let mut seen = Vec::new();
    let mut rest = &v[..];
    while let Some(f) = rest.first() {
        let id = (0..ns.len()).find(|&id| *f == item(id, input, 0) && !seen.contains(&id));
        let Some(id) = id else {
            mcrt::fail(format!("completions {v:?} are shown for the input {input:?}"));
        };
        let n = ns[id].min(10);
        let want: Vec<String> = (0..n).map(|i| item(id, input, i)).collect();
        check!(rest.len() >= n && rest[..n] == want[..], "completions {v:?} are shown for {input:?}: completer {id} should contribute {want:?}");
        rest = &rest[n..];
        seen.push(id);
    }
    seen
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Type(char),
    Recv,
    Dismiss,
    Wait,
}

/// Run a little session; `awaited` is what the last request asked unless it was dismissed.
fn session(ns: &'static [usize], acts: &[Act], len: usize, finish: impl Fn(&mut Completions, Option<&str>)) {
    let (p, calls) = probes(ns);
    let mut c = Completions::new(p);
    let mut b = InputBuffer::new();
    let mut awaited: Option<String> = None;
    let mut log = String::new();
    let mut asked: Vec<String> = Vec::new();
    for i in 0..len {
        let a = acts[mcrt::choose(acts.len(), &format!("act {i}"))];
        mcrt::note(|| format!("{a:?}"));
        match a {
            Act::Type(ch) => {
                b.insert(ch);
                c.request(&b);
                check!(!c.has(), "items of an earlier request are still shown after a new one");
                check!(c.highlighted().is_none(), "a new request keeps a highlight");
                awaited = Some(b.buffer(..));
                asked.push(b.buffer(..));
            }
            Act::Recv => {
                let had = values(&c).len();
                let got = c.recv();
                let has = values(&c).len();
                check!(got || had == has, "recv() is false but there are {has} items after {had}");
                let s = shown_ok(&c, ns, awaited.as_deref());
                log.push_str(&format!("{s:?}"));
            }
            Act::Dismiss => {
                c.reset();
                check!(!c.has() && c.highlighted().is_none(), "reset() leaves items or a highlight");
                awaited = None;
            }
            Act::Wait => mcrt::quiesce(),
        }
    }
    finish(&mut c, awaited.as_deref());
    mcrt::outcome(log);
    // completers only ever see what was asked
    for (_, input, pos, word) in calls.borrow().iter() {
        check!(asked.contains(input), "a completer was asked about {input:?}, which was never typed");
        check!(*pos <= input.len() && word <= pos, "positions {word}, {pos} in {input:?}");
    }
}

const ACTS: &[Act] = &[Act::Type('a'), Act::Recv, Act::Dismiss, Act::Wait];

/// Nothing outdated is ever shown.
pub fn freshness(cx: &mut Ctx) {
    let fin = |ns: &'static [usize]| {
        move |c: &mut Completions, awaited: Option<&str>| {
            c.recv();
            shown_ok(c, ns, awaited);
            mcrt::quiesce();
            c.recv();
            shown_ok(c, ns, awaited);
        }
    };
    cx.explore(Config::new("freshness-1-completer").bound(cx.pick(3, 4)), || session(&[2], ACTS, 4, fin(&[2])));
    cx.explore(Config::new("freshness-2-completers").bound(cx.pick(2, 3)), || session(&[1, 2], ACTS, 4, fin(&[1, 2])));
    cx.explore(Config::new("freshness-long").bound(cx.pick(2, 3)), || session(&[1], ACTS, cx_len(), fin(&[1])));
    // two and three requests in a row, all schedules without a bound on preemptions
    cx.explore(Config::new("freshness-burst").bound(cx.pick(4, 6)), || {
        session(&[1], &[Act::Type('a')], 3, |c, awaited| {
            c.recv();
            shown_ok(c, &[1], awaited);
            c.recv();
            shown_ok(c, &[1], awaited);
            mcrt::quiesce();
            c.recv();
            shown_ok(c, &[1], awaited);
        })
    });
    very_late(cx);
    // the same input again (delete and retype): its own answers count, exactly once
    cx.explore(Config::new("freshness-same-input").bound(cx.pick(3, 4)), || {
        let (p, _) = probes(&[1, 1]);
        let mut c = Completions::new(p);
        let mut b = InputBuffer::new();
        for i in 0..3 {
            if i == 1 {
                b.backspace();
            } else {
                b.insert('k');
            }
            c.request(&b);
            if mcrt::choose(2, "recv between") == 1 {
                c.recv();
                shown_ok(&c, &[1, 1], Some(if i == 1 { "" } else { "k" }));
            }
        }
        mcrt::quiesce();
        c.recv();
        let s = shown_ok(&c, &[1, 1], Some("k"));
        mcrt::outcome(format!("{s:?}"));
    });
}

/// An answer to a request made `n` requests ago arrives late.
fn very_late(c: &mut Ctx) {
    let ns: &[usize] = &[1, 2, 255, 256, 257, 511, 512, 65535, 65536, 65537];
    c.explore(Config::new("freshness-very-late").bound(0).steps(10_000_000), || {
        let n = ns[mcrt::choose(ns.len(), "requests in between")];
        let dismiss = mcrt::choose(2, "dismiss instead of requesting") == 1;
        let gate = Gate(Default::default());
        let mut c = Completions::new(vec![Box::new(Gated(vec!["late".into()], gate.clone()))]);
        let mut b = InputBuffer::new();
        b.insert('a');
        c.request(&b);
        mcrt::quiesce();
        // the completer is busy with the first request; nothing which comes next is answered before
        for i in 0..n {
            if dismiss {
                c.reset();
            } else {
                c.request(&b);
                if i % 512 == 0 {
                    mcrt::quiesce();
                }
            }
        }
        gate.0.set(true);
        mcrt::block_until("the first answer", || gate.0.get());
        mcrt::quiesce();
        c.recv();
        let v = values(&c);
        if dismiss {
            check!(v.is_empty(), "{n} dismissals after the request its answer is shown: {v:?}");
        } else {
            check!(v.len() == 1, "{n} requests, answers shown: {v:?}");
        }
    });
}

fn cx_len() -> usize {
    5
}

/// The latest request is answered by every completer.
pub fn liveness(cx: &mut Ctx) {
    fn fin(ns: &'static [usize]) -> impl Fn(&mut Completions, Option<&str>) {
        move |c, awaited| {
            mcrt::quiesce();
            c.recv();
            let s = shown_ok(c, ns, awaited);
            if let Some(a) = awaited {
                let mute = a.contains('~');
                for id in 0..ns.len() {
                    check!(mute || ns[id] == 0 || s.contains(&id), "the request {a:?} is never answered by completer {id} (answered: {s:?})");
                }
            }
        }
    }
    const T: &[Act] = &[Act::Type('a'), Act::Recv, Act::Type('~'), Act::Wait];
    const A: &[Act] = &[Act::Type('a'), Act::Recv, Act::Dismiss];
    cx.explore(Config::new("liveness-1-completer").bound(cx.pick(3, 4)), || session(&[2], A, 4, fin(&[2])));
    cx.explore(Config::new("liveness-2-completers").bound(cx.pick(2, 3)), || session(&[1, 3], T, 4, fin(&[1, 3])));
    cx.explore(Config::new("liveness-3-completers").bound(1), || session(&[1, 0, 12], A, 3, fin(&[1, 0, 12])));
    cx.explore(Config::new("liveness-burst").bound(cx.pick(4, 6)), || session(&[1], &[Act::Type('a')], 3, fin(&[1])));
    cx.explore(Config::new("liveness-very-long-burst").bound(cx.pick(0, 1)), || {
        session(&[1, 1], &[Act::Type('a')], 600, fin(&[1, 1]))
    });
    hanging(cx, "liveness-hanging");
    // whatever is asked, after however many requests
    cx.explore(Config::new("liveness-any-text").delays().bound(0).steps(1_000_000), || {
        let n = [0usize, 1, 10, 40, 127, 128, 255, 256, 600][mcrt::choose(9, "requests before")];
        let long = "long ".repeat(2000);
        let texts = ["", " ", "a", ".", "a.", "get x", "é", "\n", "a\nb ", &long];
        let wait = mcrt::choose(2, "each answered") == 1;
        let (p, _) = probes(&[1, 1]);
        let mut c = Completions::new(p);
        let mut b = InputBuffer::new();
        for _ in 0..n {
            b.insert('q');
            c.request(&b);
            if wait {
                mcrt::quiesce();
            }
        }
        for _ in 0..2 {
            let t = texts[mcrt::choose(texts.len(), "text")];
            b.clear();
            b.insert_str(t);
            if mcrt::choose(2, "cursor at the start") == 1 {
                b.move_start();
            }
            c.request(&b);
            mcrt::quiesce();
            c.recv();
            let s = shown_ok(&c, &[1, 1], Some(t));
            check!(s.len() == 2, "after {n} requests the one for {:?} is answered by {s:?} only", t.chars().take(20).collect::<String>());
        }
    });
    // the user looks at each answer, goes back to an earlier text, types the same again
    cx.explore(Config::new("liveness-retype").bound(cx.pick(1, 2)), || {
        let (p, _) = probes(&[1, 1]);
        let mut c = Completions::new(p);
        let mut b = InputBuffer::new();
        for i in 0..4 {
            match mcrt::choose(3, &format!("edit {i}")) {
                0 => b.insert('k'),
                1 => b.backspace(),
                _ => b.move_left(Mvmt::Ch(1)),
            }
            c.request(&b);
            if mcrt::choose(2, "wait") == 1 || i == 3 {
                mcrt::quiesce();
                c.recv();
                let s = shown_ok(&c, &[1, 1], Some(&b.buffer(..)));
                check!(s.len() == 2, "request {i} for {:?} is answered by completers {s:?} only", b.buffer(..));
            }
        }
    });
    cx.explore(Config::new("liveness-long-burst").bound(cx.pick(2, 3)), || session(&[1, 1], &[Act::Type('a')], 8, fin(&[1, 1])));
}

/// At most ten items from each completer; one which panics or is silent does not harm the others.
pub fn isolation(cx: &mut Ctx) {
    contributions(cx);
    hanging(cx, "isolation-hanging");
    for n in [0usize, 1, 9, 10, 11, 25] {
        let ns: &'static [usize] = Box::leak(Box::new([n, 2, 13]));
        cx.explore(Config::new(format!("isolation-limit-{n}")).bound(1), || {
            session(ns, &[Act::Type('a'), Act::Recv], 3, |c, awaited| {
                mcrt::quiesce();
                c.recv();
                let s = shown_ok(c, ns, awaited);
                check!(awaited.is_none() || s.len() == 3 - (n == 0) as usize, "answers of {s:?} only");
                check!(c.items().len() <= 30, "{} items are shown", c.items().len());
            })
        });
    }
    for bad in 0..3usize {
        cx.explore(Config::new(format!("isolation-panic-of-{bad}")).bound(cx.pick(2, 3)).allow_task_panics(), || {
            let calls: Calls = Default::default();
            let p = (0..3)
                .map(|id| {
                    Box::new(Probe { id, n: 2, bomb: (id == bad).then_some('!'), mute: None, calls: calls.clone() }) as Box<dyn Completer>
                })
                .collect();
            let mut c = Completions::new(p);
            let mut b = InputBuffer::new();
            let bomb_first = mcrt::choose(2, "panic on the first request") == 1;
            for ch in if bomb_first { ['!', 'a'] } else { ['a', '!'] } {
                b.insert(ch);
                c.request(&b);
                if mcrt::choose(2, "wait") == 1 {
                    mcrt::quiesce();
                }
                c.recv();
            }
            mcrt::quiesce();
            c.recv();
            let v = values(&c);
            let input = b.buffer(..);
            for id in (0..3).filter(|&i| i != bad) {
                for i in 0..2 {
                    let n = v.iter().filter(|x| **x == item(id, &input, i)).count();
                    check!(n == 1, "completer {bad} failed: item {i} of completer {id} is shown {n} times in {v:?}");
                }
            }
        });
    }
}

/// Answers as given, whatever is asked.
struct Says(Vec<String>);
impl Completer for Says {
    fn complete(&self, _: &str, _: usize, _: usize) -> Vec<Completion> {
        mcrt::point("completing");
        self.0.iter().map(|v| Completion { value: v.clone(), ty: CompletionType::Path }).collect()
    }
}
/// Does not come back.
struct Hangs;
impl Completer for Hangs {
    fn complete(&self, _: &str, _: usize, _: usize) -> Vec<Completion> {
        mcrt::block_until("hanging", || false);
        Vec::new()
    }
}

/// What is contributed is shown as it is: empty, equal, odd values, by few and by many completers.
fn contributions(cx: &mut Ctx) {
    let odd = ["", "same", "same", " ", "SAME", "é", "a\nb", "same", "", "z"];
    cx.explore(Config::new("isolation-odd-values").bound(0), || {
        let n = 1 + mcrt::choose(3, "completers");
        let give: Vec<Vec<String>> = (0..n)
            .map(|i| {
                let (from, len) = (mcrt::choose(5, &format!("first of {i}")), mcrt::choose(4, &format!("items of {i}")));
                (0..len).map(|k| odd[(from * 2 + k) % odd.len()].to_string()).collect()
            })
            .collect();
        let mut c = Completions::new(give.iter().map(|g| Box::new(Says(g.clone())) as Box<dyn Completer>).collect());
        let mut b = InputBuffer::new();
        b.insert_str("sa");
        c.request(&b);
        mcrt::quiesce();
        c.recv();
        let v = values(&c);
        // the completers' contributions in some order, each in one piece
        fn fits(v: &[String], give: &[Vec<String>], used: &mut Vec<bool>) -> bool {
            if used.iter().all(|u| *u) {
                return v.is_empty();
            }
            (0..give.len()).any(|i| {
                if used[i] || !v.starts_with(&give[i]) {
                    return false;
                }
                used[i] = true;
                let r = fits(&v[give[i].len()..], give, used);
                used[i] = false;
                r
            })
        }
        check!(fits(&v, &give, &mut vec![false; n]), "the completers gave {give:?}, shown is {v:?}");
        check!(c.items().iter().all(|i| matches!(i.ty, CompletionType::Path)), "the kind of an item changed");
    });
    cx.explore(Config::new("isolation-many-completers").delays().bound(cx.pick(0, 1)).steps(1_000_000), || {
        let n = [4usize, 5, 8, 9, 16, 17, 33, 64, 65, 129, 257][mcrt::choose(11, "completers")];
        let ns: &'static [usize] = Box::leak((0..n).map(|i| [1, 2, 10, 11][i % 4]).collect::<Vec<_>>().into_boxed_slice());
        let (p, _) = probes(ns);
        let mut c = Completions::new(p);
        let mut b = InputBuffer::new();
        for ch in "ab".chars() {
            b.insert(ch);
            c.request(&b);
            mcrt::quiesce();
            c.recv();
            let s = shown_ok(&c, ns, Some(&b.buffer(..)));
            check!(s.len() == n, "{} of {n} completers are shown", s.len());
        }
    });
}
/// One completer is busy for ever.
fn hanging(cx: &mut Ctx, name: &str) {
    cx.explore(Config::new(name).delays().bound(cx.pick(0, 1)).steps(1_000_000), || {
        let at = mcrt::choose(3, "which one hangs");
        let n = [1usize, 2, 17, 65, 300, 1100][mcrt::choose(6, "requests")];
        let wait = mcrt::choose(2, "each forwarded") == 1;
        let mut p: Vec<Box<dyn Completer>> = probes(&[1, 2]).0;
        p.insert(at, Box::new(Hangs));
        let mut c = Completions::new(p);
        let mut b = InputBuffer::new();
        for i in 0..n {
            b.insert('a');
            c.request(&b);
            if wait {
                mcrt::quiesce();
                if i % 7 == 0 {
                    c.recv();
                }
            }
        }
        mcrt::quiesce();
        c.recv();
        let s = shown_ok(&c, &[1, 2], Some(&b.buffer(..)));
        check!(s.len() == 2, "completer {at} hangs: after {n} requests only {s:?} of the others answer");
    });
}

/// Dropping the completions ends every thread they started.
pub fn shutdown(cx: &mut Ctx) {
    for ns in [&[1usize][..], &[1, 2], &[]] {
        let ns: &'static [usize] = Box::leak(ns.to_vec().into_boxed_slice());
        cx.explore(Config::new(format!("shutdown-{}-completers", ns.len())).bound(cx.pick(3, 4)), || {
            let (p, _) = probes(ns);
            let mut c = Completions::new(p);
            let mut b = InputBuffer::new();
            for i in 0..2 {
                match mcrt::choose(3, &format!("act {i}")) {
                    0 => {
                        b.insert('a');
                        c.request(&b);
                    }
                    1 => {
                        c.recv();
                    }
                    _ => mcrt::quiesce(),
                }
            }
            drop(c);
            mcrt::quiesce();
            let l = mcrt::live_tasks();
            check!(l.is_empty(), "the completions are gone, but these threads still run: {l:?}");
        });
    }
    // busy, failing, many; after many requests
    cx.explore(Config::new("shutdown-busy").bound(cx.pick(1, 2)).allow_task_panics(), || {
        let gate = Gate(Default::default());
        let calls: Calls = Default::default();
        let mut p: Vec<Box<dyn Completer>> = vec![Box::new(Gated(vec!["late".into()], gate.clone()))];
        if mcrt::choose(2, "a failing one") == 1 {
            p.push(Box::new(Probe { id: 1, n: 1, bomb: Some('a'), mute: None, calls: calls.clone() }));
        }
        let mut c = Completions::new(p);
        let mut b = InputBuffer::new();
        for _ in 0..mcrt::choose(4, "requests") {
            b.insert('a');
            c.request(&b);
            if mcrt::choose(2, "wait") == 1 {
                mcrt::quiesce();
            }
        }
        if mcrt::choose(2, "dismiss") == 1 {
            c.reset();
        }
        drop(c);
        if mcrt::choose(2, "wait") == 1 {
            mcrt::quiesce();
        }
        gate.0.set(true);
        mcrt::quiesce();
        let l = mcrt::live_tasks();
        check!(l.is_empty(), "the completions are gone and nothing is busy, but these threads still run: {l:?}");
    });
    cx.explore(Config::new("shutdown-many").delays().bound(0).steps(1_000_000), || {
        let n = [3usize, 9, 33, 130][mcrt::choose(4, "completers")];
        let k = [0usize, 1, 70, 300, 1100][mcrt::choose(5, "requests")];
        let wait = mcrt::choose(2, "each answered") == 1;
        let ns: &'static [usize] = Box::leak((0..n).map(|i| i % 3).collect::<Vec<_>>().into_boxed_slice());
        let (p, _) = probes(ns);
        let mut c = Completions::new(p);
        let mut b = InputBuffer::new();
        for _ in 0..k {
            b.insert('a');
            c.request(&b);
            if wait {
                mcrt::quiesce();
            }
        }
        drop(c);
        mcrt::quiesce();
        let l = mcrt::live_tasks();
        check!(l.is_empty(), "the completions are gone, but {} threads still run", l.len());
    });
}

/// The reference for where the word being completed starts (in bytes).
fn word_start(s: &str, cursor: usize) -> usize {
    let sep = |c: char| " \t\r\n./\\".contains(c);
    if s[cursor..].chars().next().map_or(false, sep) {
        return cursor;
    }
    s[..cursor].char_indices().filter(|(_, c)| sep(*c)).last().map_or(0, |(i, c)| i + c.len_utf8())
}

/// The completers see the input, the cursor and the start of the word; `word_pos` is the same place.
pub fn context(cx: &mut Ctx) {
    fn one(text: &str, back: usize) {
        let (p, calls) = probes(&[1]);
        let mut c = Completions::new(p);
        let mut b = InputBuffer::new();
        b.insert_str(text);
        b.move_left(Mvmt::Ch(back));
        c.request(&b);
        mcrt::quiesce();
        let cursor = text.char_indices().rev().nth(back.wrapping_sub(1)).map_or(if back == 0 { text.len() } else { 0 }, |(i, _)| i);
        let w = word_start(text, cursor);
        let want = vec![(0usize, text.to_string(), cursor, w)];
        check!(*calls.borrow() == want, "completer called with {:?}, should be {want:?}", calls.borrow());
        let wc = text[..w].chars().count();
        check!(c.word_pos() == wc, "text {text:?}, cursor at byte {cursor}: the word starts at character {}, should be {wc}", c.word_pos());
        // replacing nothing by nothing: what is replaced first is the word left of the cursor
        let (len, with) = {
            let (l, w) = c.highlight_next();
            (l, w.to_string())
        };
        let word = &text[w..cursor];
        check!(len == word.chars().count() && with == word, "the word to replace is {len} characters, {with:?}; should be {word:?}");
    }
    let alpha: Vec<char> = "a .é/😀\\\t".chars().collect();
    for l in 0..=cx.pick(4, 6usize) {
        let alpha = &alpha;
        cx.explore(Config::new(format!("context-texts-of-{l}")).bound(0), move || {
            let t: String = (0..l).map(|i| alpha[mcrt::choose(alpha.len(), &format!("char {i}"))]).collect();
            let back = mcrt::choose(l + 1, "cursor from the end");
            one(&t, back);
        });
    }
    cx.explore(Config::new("context-real-lines").bound(0), || {
        let lines = ["ls foo/bar.csv | filter foo.bar eq 'x y'", "\\ dir/sub dir/é.ogma | len", "a\nb\r\nc d", "open  data.csv\t|  get --Str name", "{ \\foo bar }.baz"];
        let t = lines[mcrt::choose(lines.len(), "line")];
        one(t, mcrt::choose(t.chars().count() + 1, "cursor from the end"));
    });
    // long words on long lines
    cx.explore(Config::new("context-long-lines").delays().bound(0), || {
        let ns = [0usize, 1, 100, 127, 128, 255, 256, 257, 1023, 1024, 4096, 65535, 65536, 70_000];
        let pre = ["", " ", "x ", "é.", "open a/"][mcrt::choose(5, "before")];
        let ch = ["w", "é", "-", "|"][mcrt::choose(4, "word of")];
        let t = format!("{}{pre}{} tail", "ab ".repeat(ns[mcrt::choose(ns.len(), "length before")] / 3), ch.repeat(ns[mcrt::choose(ns.len(), "length of the word")]));
        one(&t, [0, 5, 6][mcrt::choose(3, "cursor from the end")].min(t.chars().count()));
    });
    // every Unicode character next to the cursor
    cx.cases(
        "context-every-char",
        0x11_0000 / 16,
        |i| format!("characters U+{:04X}..", i * 16),
        |blk| {
            let mut n = 0;
            for i in blk * 16..blk * 16 + 16 {
                let Some(ch) = char::from_u32(i as u32) else { continue };
                for text in [format!("x{ch}y"), format!("{ch}"), format!(". {ch}{ch}")] {
                    for back in 0..=text.chars().count() {
                        let mut b = InputBuffer::new();
                        b.insert_str(&text);
                        b.move_left(Mvmt::Ch(back));
                        IDLE.with(|c| {
                            let mut g = c.borrow_mut();
                            let c = g.get_or_insert_with(|| Completions::new(vec![]));
                            c.request(&b);
                            let cursor = b.buf_pos();
                            let w = word_start(&text, cursor);
                            let wc = text[..w].chars().count();
                            if c.word_pos() != wc {
                                return Err(format!("text {text:?}, cursor at byte {cursor}: the word starts at character {}, should be {wc}", c.word_pos()));
                            }
                            Ok(())
                        })?;
                        n += 1;
                    }
                }
            }
            Ok(n)
        },
    );
}

thread_local! {
    static IDLE: std::cell::RefCell<Option<Completions>> = const { std::cell::RefCell::new(None) };
}

/// A completer with fixed items.
struct Fixed(Vec<String>, &'static str);
impl Completer for Fixed {
    fn complete(&self, _: &str, _: usize, _: usize) -> Vec<Completion> {
        self.0.iter().map(|s| Completion { value: s.clone(), ty: CompletionType::Path }).collect()
    }
}

/// Stepping through the completions edits exactly the word, and comes back to what was typed.
pub fn selection(cx: &mut Ctx) {
    selection_many(cx);
    selection_long(cx);
    let words = ["", "x", "longer_word", "é字😀", "a b"];
    let steps = cx.pick(6, 7);
    for n in 0..=cx.pick(3usize, 4) {
        cx.explore(Config::new(format!("selection-{n}-items")).bound(0), move || {
            let texts = [("", 0), ("fo", 0), ("get fo", 0), ("é.fo |", 2), ("fo bar", 4), ("fo bar", 6), ("a/😀x", 0)];
            let (text, back) = texts[mcrt::choose(texts.len(), "text")];
            let first = mcrt::choose(words.len(), "first word");
            let items: Vec<String> = (0..n).map(|i| words[(first + i) % words.len()].to_string()).collect();
            // the last items come from a second completer, later: fewer or more than at first
            let late = if n > 1 { mcrt::choose(n, "items of a second completer") } else { 0 };
            let split = n - late;
            let gate = Gate(Default::default());
            let (a, z) = items.split_at(split);
            let mut comps: Vec<Box<dyn Completer>> = vec![Box::new(Fixed(a.to_vec(), ""))];
            if late > 0 {
                comps.push(Box::new(Gated(z.to_vec(), gate.clone())));
            }
            let mut c = Completions::new(comps);
            let mut b = InputBuffer::new();
            b.insert_str(text);
            b.move_left(Mvmt::Ch(back));
            let split_at = |b: &InputBuffer| {
                let (t, cursor) = (b.buffer(..), b.buf_pos());
                let w = word_start(&t, cursor);
                (t[..w].to_string(), t[w..cursor].to_string(), t[cursor..].to_string())
            };
            let (mut pre, mut word, mut post) = split_at(&b);
            c.request(&b);
            mcrt::quiesce();
            c.recv();
            // what is shown is every answer, each completer's in one piece
            let shown_of = |c: &Completions, open: bool| {
                let v = values(c);
                let (z, a) = (if open { z } else { &[] }, a);
                check!(v == [a, z].concat() || v == [z, a].concat(), "{v:?} is shown, should be {a:?} and {z:?}");
                v
            };
            let mut shown = shown_of(&c, false);
            let mut sel: Option<usize> = None;
            for step in 0..steps {
                let open = gate.0.get();
                let have = shown.len();
                let act = mcrt::choose(if late > 0 && !open { 4 } else { 3 }, &format!("step {step}"));
                if act == 2 {
                    // typing on (which asks again) after whatever is selected now
                    b.insert(['z', ' '][step % 2]);
                    (pre, word, post) = split_at(&b);
                    c.request(&b);
                    check!(!c.has() && c.highlighted().is_none(), "typing leaves completions or a highlight");
                    mcrt::quiesce();
                    c.recv();
                    sel = None;
                    shown = shown_of(&c, open);
                    continue;
                }
                if act == 3 {
                    gate.0.set(true);
                    mcrt::quiesce();
                    check!(c.recv(), "the late completer's answer is not received");
                    check!(c.highlighted() == sel, "the highlight moved when items arrived");
                    let now = shown_of(&c, true);
                    check!(now.starts_with(&shown), "{now:?} is shown after {shown:?}: what was there moved");
                    shown = now;
                    continue;
                }
                let next = act == 0;
                sel = match (sel, next) {
                    _ if have == 0 => None,
                    (None, true) => Some(0),
                    (Some(i), true) => (i + 1 < have).then_some(i + 1),
                    (None, false) => Some(have - 1),
                    (Some(i), false) => i.checked_sub(1),
                };
                let start = c.word_pos();
                let (len, with) = {
                    let (l, w) = if next { c.highlight_next() } else { c.highlight_prev() };
                    (l, w.to_string())
                };
                if have > 0 {
                    check!(c.highlighted() == sel, "highlighted {:?}, should be {sel:?} of {have}", c.highlighted());
                }
                // as the shell does it
                b.move_start();
                b.move_right(Mvmt::Ch(start));
                for _ in 0..len {
                    b.delete();
                }
                b.insert_str(&with);
                let mid = sel.map_or(word.as_str(), |i| shown[i].as_str());
                let want = format!("{pre}{mid}{post}");
                check!(
                    b.buffer(..) == want && b.buf_pos() == pre.len() + mid.len(),
                    "text {:?} (cursor {}), should be {want:?} (cursor {})",
                    b.buffer(..),
                    b.buf_pos(),
                    pre.len() + mid.len()
                );
            }
        });
    }
}

/// All the way through many items, in both directions.
fn selection_many(cx: &mut Ctx) {
    cx.explore(Config::new("selection-many-items").bound(0), || {
        let comps = 1 + mcrt::choose(4, "completers");
        let dir = mcrt::choose(2, "direction") == 0;
        let all: Vec<String> = (0..comps * 10).map(|i| format!("item{}", "é".repeat(i))).collect();
        let mut c = Completions::new(
            all.chunks(10).map(|x| Box::new(Fixed(x.to_vec(), "")) as Box<dyn Completer>).collect(),
        );
        let mut b = InputBuffer::new();
        b.insert_str("get it");
        c.request(&b);
        mcrt::quiesce();
        c.recv();
        let shown = values(&c);
        check!(shown.len() == all.len(), "{} of {} items are shown", shown.len(), all.len());
        for k in 0..(2 * all.len() + 5) {
            let start = c.word_pos();
            let (len, with) = if dir { c.highlight_next() } else { c.highlight_prev() };
            let (len, with) = (len, with.to_string());
            b.move_start();
            b.move_right(Mvmt::Ch(start));
            for _ in 0..len {
                b.delete();
            }
            b.insert_str(&with);
            let n = all.len();
            let at = if dir { k % (n + 1) } else { n - 1 + (n + 1) - k % (n + 1) } % (n + 1);
            let want = format!("get {}", if at == n { "it" } else { &shown[at] });
            check!(b.buffer(..) == want, "step {k}: text {:?}, should be {want:?}", b.buffer(..));
        }
    });
}

/// Long words, long items, in either order.
fn selection_long(cx: &mut Ctx) {
    cx.explore(Config::new("selection-long").delays().bound(0), || {
        let ns = [0usize, 1, 127, 128, 255, 256, 257, 1024, 4097, 65535, 65536, 65537];
        let ch = ["w", "é", "😀"][mcrt::choose(3, "character")];
        let typed = ns[mcrt::choose(ns.len() - if ch == "w" { 0 } else { 3 }, "typed")];
        let item = ns[mcrt::choose(ns.len() - if ch == "w" && typed == 0 { 0 } else { 3 }, "first item")];
        let word = ch.repeat(typed);
        let items = [ch.repeat(item), "b c\n".to_string()];
        let (pre, post) = [("", ""), ("get ", " | z")][mcrt::choose(2, "around")];
        let mut c = Completions::new(vec![Box::new(Fixed(items.to_vec(), ""))]);
        let mut b = InputBuffer::new();
        b.insert_str(pre);
        b.insert_str(&word);
        b.insert_str(post);
        b.move_left(Mvmt::Ch(post.chars().count()));
        // (with nothing typed the cursor may stand on a separator: the word is empty all the same)
        c.request(&b);
        mcrt::quiesce();
        c.recv();
        check!(values(&c).len() == 2, "{} items of 2", values(&c).len());
        let sep = post.starts_with(' ');
        let (pre, word) = if sep { (format!("{pre}{word}"), String::new()) } else { (pre.to_string(), word) };
        let next = mcrt::choose(2, "direction") == 0;
        for k in 0..4usize {
            let start = c.word_pos();
            let (len, with) = if next { c.highlight_next() } else { c.highlight_prev() };
            let (len, with) = (len, with.to_string());
            b.move_start();
            b.move_right(Mvmt::Ch(start));
            for _ in 0..len {
                b.delete();
            }
            b.insert_str(&with);
            let at = if next { k % 3 } else { [1, 0, 2, 1][k] };
            let mid = if at == 2 { &word } else { &items[at] };
            check!(b.buffer(..) == format!("{pre}{mid}{post}"), "step {k}: the line is not what is selected (typed {}, item {} bytes long)", word.len(), items[0].len());
        }
    });
}

/// Answers once the gate is open.
struct Gated(Vec<String>, Gate);
#[derive(Clone)]
struct Gate(std::rc::Rc<std::cell::Cell<bool>>);
// SAFETY: tasks of one execution share an OS thread
unsafe impl Send for Gate {}
impl Completer for Gated {
    fn complete(&self, _: &str, _: usize, _: usize) -> Vec<Completion> {
        mcrt::block_until("late completer", || self.1 .0.get());
        self.0.iter().map(|s| Completion { value: s.clone(), ty: CompletionType::Path }).collect()
    }
}
