//! Typing at the shell: what is shown, what is evaluated, in which tab.
use crate::term::*;
use mcrt::driver::Ctx;
use mcrt::{check, choose, Config as Explore};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    C(char),
    Shifted(char),
    Ctrl(char),
    Alt(char),
    AltNewline,
    ShiftBack,
    Newline,
    Enter,
    Back,
    Del,
    Left,
    Right,
    WordLeft,
    WordRight,
    Up,
    Down,
    Esc,
    Tab,
    NewTab,
    Quit,
    Help,
    Theme,
    PageUp,
    Other,
}
impl K {
    pub fn event(self) -> Event {
        use K::*;
        use KeyCode as Kc;
        match self {
            C(c) => ch(c),
            Shifted(c) => key(Kc::Char(c), SHIFT),
            Ctrl(c) => key(Kc::Char(c), CTRL),
            Alt(c) => key(Kc::Char(c), ALT),
            AltNewline => key(Kc::Enter, ALT),
            ShiftBack => key(Kc::Backspace, SHIFT),
            Newline => key(Kc::Enter, SHIFT),
            Enter => enter(),
            Back => key(Kc::Backspace, NONE),
            Del => key(Kc::Delete, NONE),
            Left => key(Kc::Left, NONE),
            Right => key(Kc::Right, NONE),
            WordLeft => key(Kc::Left, CTRL),
            WordRight => key(Kc::Right, CTRL),
            Up => key(Kc::Up, NONE),
            Down => key(Kc::Down, NONE),
            Esc => key(Kc::Esc, NONE),
            Tab => key(Kc::Tab, NONE),
            NewTab => key(Kc::Char('t'), ALT),
            Quit => quit(),
            Help => key(Kc::Char('h'), ALT),
            Theme => key(Kc::Char('m'), ALT),
            PageUp => key(Kc::PageUp, NONE),
            Other => key(Kc::Char('z'), CTRL),
        }
    }
}
const WORDS: [&str; 3] = ["aab", "abc", "bb"];
/// Where the word before the cursor starts.
fn word(t: &[char], cur: usize) -> usize {
    // (on a separator there is no word)
    let mut p = 0;
    for (i, c) in t.iter().enumerate().take(cur + 1) {
        if " \t\r\n./\\".contains(*c) {
            p = i + 1;
        }
    }
    p.min(cur)
}
fn offers(t: &[char], cur: usize) -> Vec<String> {
    let w: String = t[word(t, cur)..cur].iter().collect();
    WORDS.iter().filter(|x| x.starts_with(&w)).map(|x| x.to_string()).collect()
}
struct Offer;
impl Completer for Offer {
    fn complete(&self, input: &str, cur: usize, word: usize) -> Vec<Completion> {
        let w = &input[word..cur];
        WORDS.iter().filter(|x| x.starts_with(w)).map(|x| Completion { value: x.to_string(), ty: CompletionType::Literal }).collect()
    }
}
#[derive(Clone, Default, Debug)]
struct Tab {
    name: usize,
    text: Vec<char>,
    cur: usize,
    hist: Vec<String>,
    at: usize,
    outputs: Vec<String>,
    /// what is offered: the word's start, what was typed, the items, which is chosen
    offer: Option<(usize, String, Vec<String>, Option<usize>)>,
}
impl Tab {
    fn set(&mut self, s: &str) {
        self.text = s.chars().collect();
        self.cur = self.text.len();
    }
    fn walk(&mut self, right: bool) {
        let w = |c: char| c.is_alphanumeric() || c == '-' || c == '_';
        let mut seen = false;
        loop {
            let c = if right { self.text.get(self.cur) } else { self.cur.checked_sub(1).map(|i| &self.text[i]) };
            match c {
                Some(c) if w(*c) || !seen => seen |= w(*c),
                _ => break,
            }
            if right {
                self.cur += 1
            } else {
                self.cur -= 1
            }
        }
    }
    fn choose(&mut self, next: bool) {
        let (at, typed, items, chosen) = self.offer.as_mut().unwrap();
        let old = chosen.map_or(typed.as_str(), |i| &items[i]).chars().count();
        let n = items.len();
        *chosen = match (*chosen, next) {
            (None, true) => Some(0),
            (Some(i), true) if i + 1 < n => Some(i + 1),
            (None, false) => Some(n - 1),
            (Some(i), false) if i > 0 => Some(i - 1),
            _ => None,
        };
        let new: Vec<char> = chosen.map_or(typed.as_str(), |i| &items[i]).chars().collect();
        self.text.splice(*at..*at + old, new.iter().copied());
        self.cur = *at + new.len();
    }
}
#[derive(Clone, Default, Debug)]
struct Model {
    tabs: Vec<Tab>,
    sel: usize,
    made: usize,
    evals: Vec<(usize, String)>,
    completing: bool,
}
impl Model {
    fn new(completing: bool) -> Self {
        let mut m = Model { completing, ..Default::default() };
        m.tab();
        m
    }
    fn tab(&mut self) {
        self.tabs.push(Tab { name: self.made, ..Default::default() });
        self.made += 1;
        self.sel = self.tabs.len() - 1;
    }
    /// One key, dealt with before the next one comes.
    fn press(&mut self, k: K) {
        let completing = self.completing;
        let n = self.tabs.len();
        if n == 0 {
            return;
        }
        let sel = self.sel;
        let t = &mut self.tabs[sel];
        let mut changed = false;
        match k {
            K::C(c) | K::Shifted(c) => {
                t.text.insert(t.cur, c);
                t.cur += 1;
                changed = true;
            }
            K::Newline | K::AltNewline => {
                t.text.insert(t.cur, '\n');
                t.cur += 1;
                changed = true;
            }
            K::Back | K::ShiftBack => {
                if t.cur > 0 {
                    t.cur -= 1;
                    t.text.remove(t.cur);
                }
                changed = true;
            }
            K::Del => {
                if t.cur < t.text.len() {
                    t.text.remove(t.cur);
                }
                changed = true;
            }
            K::Left => (t.cur, t.offer) = (t.cur.saturating_sub(1), None),
            K::Right => (t.cur, t.offer) = ((t.cur + 1).min(t.text.len()), None),
            K::WordLeft => {
                t.walk(false);
                t.offer = None
            }
            K::WordRight => {
                t.walk(true);
                t.offer = None
            }
            K::Up if t.offer.is_some() => t.choose(false),
            K::Down if t.offer.is_some() => t.choose(true),
            K::Esc => t.offer = None,
            // (0: the newest line's position is the number of lines, the neutral one)
            K::Up | K::Down => {
                let l = t.hist.len();
                if l > 0 {
                    t.at = match k {
                        K::Up => (t.at + l) % (l + 1),
                        _ => (t.at + 1) % (l + 1),
                    };
                }
                let s = t.hist.get(t.at).cloned().unwrap_or_default();
                t.set(&s);
            }
            K::Enter => {
                let s: String = t.text.iter().collect();
                self.evals.push((t.name, s.clone()));
                t.outputs.push(format!("out {} {}", self.evals.len(), s.replace('\n', "|")));
                t.hist.push(s);
                if t.hist.len() > 100 {
                    t.hist.remove(0);
                }
                t.at = t.hist.len();
                t.set("");
                t.offer = None;
            }
            K::Tab => self.sel = (sel + 1) % n,
            K::NewTab => self.tab(),
            K::Quit => {
                self.tabs.remove(sel);
                self.sel = usize::MAX; // any of those left
            }
            // (the last 100 lines are kept)
            K::Help | K::Theme | K::PageUp | K::Other | K::Ctrl(_) | K::Alt(_) => (),
        }
        if changed {
            let t = &mut self.tabs[sel];
            t.offer = None;
            if completing {
                let items = offers(&t.text, t.cur);
                if !items.is_empty() {
                    let at = word(&t.text, t.cur);
                    t.offer = Some((at, t.text[at..t.cur].iter().collect(), items, None));
                }
            }
        }
    }
}
// (wide and tall enough for the box with help to cover nothing of interest)
const W: u16 = 80;
const H: u16 = 24;
/// How far the offers on the screen are determined.
#[derive(Clone, Copy, PartialEq)]
enum Offers {
    Settled,
    /// They may still be on their way.
    Late,
    Any,
}
/// The screen shows what the model says.
fn look(m: &mut Model, offers: Offers) {
    let l = lines();
    let n = m.tabs.len();
    check!(n > 0, "the shell goes on without any tab");
    let inner = |i: usize| -> String { l[i].chars().skip(1).take(W as usize - 2).collect() };
    let tabs = inner(0);
    for i in 1..=n + 1 {
        let w = format!("Tab {i}");
        check!(tabs.split('│').any(|t| t.trim() == w) == (i <= n), "{n} tabs, and the first line is {tabs:?}");
    }
    // the title names the tab
    let title = inner(1);
    let name: usize = title.trim_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(usize::MAX);
    if m.sel == usize::MAX {
        m.sel = m.tabs.iter().position(|t| t.name == name).unwrap_or_else(|| mcrt::fail(format!("a tab was closed, and now {title:?} is shown")));
    }
    let t = &m.tabs[m.sel];
    check!(name == t.name, "the tab shown is {title:?}, expected {}", t.name);
    // input, wrapped
    let width = W as usize - 2 - 2;
    let s: String = t.text.iter().collect();
    let mut rows: Vec<String> = Vec::new();
    for line in s.split('\n') {
        let cs: Vec<char> = line.chars().collect();
        rows.push(String::new());
        for (i, c) in cs.iter().enumerate() {
            if i > 0 && i % width == 0 {
                rows.push(String::new());
            }
            rows.last_mut().unwrap().push(*c);
        }
    }
    for (i, r) in rows.iter().enumerate() {
        let shown = inner(2 + i);
        let want = format!("{}{r}", if i == 0 { "> " } else { "  " });
        check!(shown.trim_end() == want.trim_end(), "the input is {s:?}, line {i} of it is shown as {shown:?}");
    }
    if rows.len() == 1 {
        check!(cursor() == (3 + t.cur as u16, 2), "the cursor is at {:?}, expected character {} of {s:?}", cursor(), t.cur);
    }
    let at = 2 + rows.len();
    // (completions lie over what follows)
    let shown = l.iter().filter(|l| l.contains("[L]")).count();
    let offer = match offers {
        Offers::Settled => t.offer.as_ref(),
        Offers::Late if shown == 0 => None,
        Offers::Late => match &t.offer {
            None => mcrt::fail(format!("nothing is to be completed in {s:?} now, but this is shown: {l:?}")),
            x => x.as_ref(),
        },
        Offers::Any => None,
    };
    let k = if offers == Offers::Any { shown } else { offer.map_or(0, |o| o.2.len()) };
    if let Some((_, _, items, chosen)) = offer {
        for (i, x) in items.iter().enumerate() {
            check!(inner(at + i).contains(&format!("{x} ")), "item {x:?} of {items:?} is not shown: {:?}", inner(at + i));
        }
        let cells = cells();
        for i in 0..items.len() {
            let lit = cells[at + i].iter().any(|c| c.bg == tui::style::Color::Cyan);
            check!(lit == (*chosen == Some(i)), "item {i} of {items:?} is highlighted: {lit}, chosen: {chosen:?}");
        }
    } else if shown == 0 || offers == Offers::Settled {
        check!(inner(at).trim_start().starts_with("Outputs"), "below the input is {:?}", inner(at));
        check!(!l.iter().any(|l| l.contains("[L]")), "completions are shown: {l:?}");
    }
    // outputs, the newest first
    for (i, o) in t.outputs.iter().rev().enumerate() {
        let y = at + 1 + i;
        if i + 1 >= k && y + 1 < H as usize {
            let shown: String = inner(y).chars().take(40).collect();
            check!(shown.trim_end() == o.trim_end(), "output {o:?} is shown as {shown:?}");
        }
    }
}
fn config(completing: bool, evals: Shared<Vec<(usize, String)>>) -> impl FnMut() -> Config {
    let tabs = Shared::new(0usize);
    let ids: Shared<Vec<(u64, usize)>> = Shared::new(Vec::new());
    move || {
        let name = tabs.get(|t| {
            *t += 1;
            *t - 1
        });
        let (evals, ids) = (evals.clone(), ids.clone());
        Config {
            title: format!(" <{name}> "),
            completers: if completing { vec![Box::new(Offer)] } else { vec![] },
            on_enter_press: Box::new(move |s, id, _| {
                mcrt::point("evaluating");
                // (one function serves all tabs)
                let tab = ids.get(|v| v.iter().find(|x| x.0 == id).map(|x| x.1)).unwrap_or(usize::MAX);
                let n = evals.get(|e| {
                    e.push((id as usize, s.clone()));
                    e.len()
                });
                let _ = tab;
                ConfigUpdate { add_output: Some(format!("out {n} {}", s.replace('\n', "|"))), ..Default::default() }
            }),
            ..Default::default()
        }
    }
}
/// `cut`: after which keys the shell gets to work.
fn session(keys: &[K], cut: impl Fn(usize) -> bool, completing: bool, offers: Offers, idle: usize) {
    let mut script: Vec<Vec<Event>> = vec![vec![]];
    let mut states = Vec::new();
    let mut m = Model::new(completing);
    states.push(m.clone());
    let mut group = vec![vec![]];
    for (i, k) in keys.iter().enumerate() {
        script.last_mut().unwrap().push(k.event());
        group.last_mut().unwrap().push(*k);
        if cut(i) {
            script.push(vec![]);
            group.push(vec![]);
        }
    }
    let evals = Shared::new(Vec::new());
    let model = Shared::new(m);
    let m2 = model.clone();
    let (done, g2) = (Shared::new(0usize), group.clone());
    let d2 = done.clone();
    let seen = move |i: usize| {
        d2.get(|d| *d = i + 1);
        m2.get(|m| {
            for k in &group[i] {
                m.press(*k);
            }
            if m.tabs.is_empty() {
                return;
            }
            look(m, offers);
        })
    };
    let r = go(W, H, batches(script, idle, seen), config(completing, evals.clone()));
    check!(r.is_ok(), "the shell gave up: {r:?}");
    // (the last tab was closed)
    for k in g2[done.get(|d| *d)..].iter().flatten() {
        model.get(|m| m.press(*k));
    }
    // what was evaluated, where, in order; tabs by identity
    let got = evals.get(|e| e.clone());
    let exp = model.get(|m| m.evals.clone());
    let texts = |v: &[(usize, String)]| v.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
    check!(texts(&got) == texts(&exp), "evaluated: {:?}, entered: {:?}", texts(&got), texts(&exp));
    for i in 0..got.len() {
        for j in 0..i {
            check!((got[i].0 == got[j].0) == (exp[i].0 == exp[j].0), "lines {j} and {i} were entered in tabs {} and {}, evaluated for {} and {}", exp[j].0, exp[i].0, got[j].0, got[i].0);
        }
    }
}
pub fn c50(cx: &mut Ctx) {
    use K::*;
    // one key at a time
    let plain = [C('a'), Enter, Left, Up, C(' '), Back, Down, WordLeft, Newline, Del, Tab, NewTab, Quit, Right, WordRight, Help, Esc, Other, C('é'), Theme];
    let (n, d) = cx.pick((13, 4), (15, 5));
    cx.explore(Explore::new("keys one by one").delays().bound(0), || {
        let keys: Vec<K> = (0..d).map(|_| plain[choose(n, "key")]).collect();
        session(&keys, |_| true, false, Offers::Settled, 2);
    });
    cx.explore(Explore::new("other keys").delays().bound(0), || {
        let text = ["ab é", "x-y_1,  é.b\"c", " \n\na \n"][choose(3, "text")];
        let mut keys: Vec<K> = text.chars().map(|c| if c == '\n' { Newline } else { C(c) }).collect();
        keys.extend((0..d - 2).map(|_| plain[choose(plain.len(), "key")]));
        keys.push(Enter);
        session(&keys, |_| true, false, Offers::Settled, 2);
    });
    // movements and removals in a line of words
    let moves = [WordLeft, Left, Del, WordRight, Back, Right, C('.'), C('x'), ShiftBack];
    let (n, k) = cx.pick((9, 3), (9, 4));
    cx.explore(Explore::new("words").delays().bound(0), || {
        let text = ["ab  cd-e", "é.b/'ß'_0 ", "\n(a) b\n", "--x {y}"][choose(4, "text")];
        let mut keys: Vec<K> = text.chars().map(|c| if c == '\n' { AltNewline } else { C(c) }).collect();
        let at = choose(3, "at");
        keys.extend((0..at).map(|_| [WordLeft, Left][at % 2]));
        keys.extend((0..k).map(|_| moves[choose(n, "key")]));
        keys.push(Enter);
        session(&keys, |_| true, false, Offers::Settled, 2);
    });
    // every character, with the modifiers
    cx.explore(Explore::new("characters").delays().bound(0), || {
        let i = choose(95 + 12, "character");
        let c = if i < 95 { (b' ' + i as u8) as char } else { "éßÿΩж£¬±ñ×→≤".chars().nth(i - 95).unwrap() };
        let k = match choose(4, "modifier") {
            0 => C(c),
            1 => Shifted(c),
            // (these have meanings)
            2 if "x".contains(c) => C(c),
            2 => Ctrl(c),
            _ if "hqtm".contains(c) => C(c),
            _ => Alt(c),
        };
        let keys = [C('a'), k, C('b'), Left, Left, k, Enter, Up, k, Enter];
        session(&keys, |_| true, false, Offers::Settled, 2);
    });
    // many lines
    cx.explore(Explore::new("many lines").delays().bound(0), || {
        let n = [0, 1, 2, 3, 9, 98, 99, 100, 101, 102, 150, 201, 300][choose(13, "lines")];
        let ups = [0, 1, 2, 97, 98, 99, 100, 101, 102, 103][choose(10, "back")];
        let mut keys: Vec<K> = Vec::new();
        for i in 0..n {
            keys.extend(format!("{i}").chars().map(C));
            keys.push(Enter);
        }
        let key = [Up, Down][choose(2, "direction")];
        keys.extend((0..ups).map(|_| key));
        keys.extend([C('z'), Enter, Up, Up, Enter]);
        let busy = keys.len().saturating_sub(8);
        session(&keys, |i| i >= busy || keys[i] == Enter, false, Offers::Settled, 2);
    });
    // several keys at once
    let fast = [C('a'), Enter, C('b'), Left, Up, Back, NewTab, Tab, Quit, Newline, Down, Help];
    let (n, d) = cx.pick((10, 4), (9, 5));
    cx.explore(Explore::new("keys in batches").delays().bound(0), || {
        let keys: Vec<K> = (0..d).map(|_| fast[choose(n, "key")]).collect();
        let cuts: Vec<bool> = (0..d).map(|i| i + 1 < d && (keys[i] == Quit || choose(2, "pause") == 1)).collect();
        session(&keys, |i| cuts[i], false, Offers::Settled, 6);
    });
    // with completions
    let with = [C('a'), Down, Up, C('b'), Enter, Left, C(' '), Back, Esc, NewTab, Tab];
    let (n, d) = cx.pick((9, 4), (11, 5));
    cx.explore(Explore::new("completing").delays().bound(0), || {
        let keys: Vec<K> = (0..d).map(|_| with[choose(n, "key")]).collect();
        session(&keys, |_| true, true, Offers::Settled, 6);
    });
    let cram = [C('a'), C('b'), Enter, C(' '), Back, NewTab, Tab, Quit, Left, Newline, Del, Right];
    let (n, d) = cx.pick((8, 4), (7, 5));
    cx.explore(Explore::new("completing, keys in batches").delays().bound(0), || {
        let keys: Vec<K> = (0..d).map(|_| cram[choose(n, "key")]).collect();
        let cuts: Vec<bool> = (0..d).map(|i| i + 1 < d && (keys[i] == Quit || choose(2, "pause") == 1)).collect();
        session(&keys, |i| cuts[i], true, Offers::Any, 6);
    });
    // completions which come late, or never in time
    let late = [C('a'), C('b'), C(' '), Back, Left, Enter, Del];
    let (b, n, d) = cx.pick((1, 5, 3), (2, 7, 3));
    cx.explore(Explore::new("completing, quick keys").delays().bound(b), || {
        let keys: Vec<K> = (0..d).map(|_| late[choose(n, "key")]).collect();
        session(&keys, |_| true, true, Offers::Late, 1);
    });
}
