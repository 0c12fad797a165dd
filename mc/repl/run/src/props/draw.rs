//! Drawing, whatever there is to be drawn and however small the terminal.
use crate::term::*;
use mcrt::driver::Ctx;
use mcrt::{choose, Config as Explore};

struct Offer(usize);
impl Completer for Offer {
    fn complete(&self, _: &str, _: usize, _: usize) -> Vec<Completion> {
        (0..self.0).map(|i| Completion { value: "item ".repeat(1 + i * 4), ty: CompletionType::Path }).collect()
    }
}
pub fn c51(cx: &mut Ctx) {
    let dims: &[u16] = cx.pick(&[0, 1, 2, 3, 4, 5, 8, 12, 20, 33, 80], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 20, 24, 26, 30, 33, 36, 50, 80, 300]);
    let texts = ["", "a", "abcdefghijklmnopqrstuvwxyz", "字字字字字字", "a\nb\n", "\n\n\n\n\n\n", "\ta\t", "é e\u{301} \u{200b}", "\u{1b}[31mx"];
    cx.explore(Explore::new("still").delays().bound(0), || {
        let (w, h) = (dims[choose(dims.len(), "width")], dims[choose(dims.len(), "height")]);
        let prompt = ["> ", "", "a/long/path/to/some/directory> ", "字> "][choose(4, "prompt")];
        let title = ["", " Title ", "two\nlines"][choose(3, "title")];
        let text = texts[choose(texts.len(), "text")];
        let offers = [0, 1, 12][choose(3, "completions")];
        let help = choose(2, "help");
        let mut script = vec![typed(text)];
        if help == 1 {
            script.push(vec![key(KeyCode::Char('h'), ALT)]);
        }
        script.push(vec![key(KeyCode::Down, NONE)]);
        script.push(vec![key(KeyCode::Left, NONE)]);
        script.push(vec![key(KeyCode::Char('t'), ALT)]);
        script.push(vec![Event::Resize]);
        let r = go(w, h, batches(script, 3, |_| ()), move || Config {
            title: title.into(),
            prompt: prompt.into(),
            completers: vec![Box::new(Offer(offers))],
            ..Default::default()
        });
        mcrt::check!(r.is_ok(), "the shell gave up: {r:?}");
    });
    // the window changes while the shell is used
    let sizes = [(0u16, 0u16), (7, 3), (13, 6), (60, 2), (2, 60), (1, 1), (40, 12)];
    let (m, ns, d) = cx.pick((6, 7, 3), (6, 5, 4));
    cx.explore(Explore::new("resizing").delays().bound(0), || {
        let keys = [enter(), ch('a'), key(KeyCode::PageDown, NONE), key(KeyCode::Enter, ALT), key(KeyCode::Char('t'), ALT), key(KeyCode::Down, NONE), key(KeyCode::PageUp, NONE), key(KeyCode::Up, SHIFT), key(KeyCode::Left, NONE)];
        let steps: Vec<(usize, usize)> = (0..d).map(|_| (choose(m, "key"), choose(ns, "size"))).collect();
        let told = choose(2, "told") == 1;
        let mut script = vec![vec![ch('x')], vec![enter()]];
        script.extend(steps.iter().map(|s| if told { vec![keys[s.0], Event::Resize] } else { vec![keys[s.0]] }));
        let seen = move |i: usize| {
            if let Some(s) = i.checked_sub(1).and_then(|i| steps.get(i)) {
                resize(sizes[s.1].0, sizes[s.1].1);
            }
        };
        let r = go(40, 12, batches(script, 3, seen), move || Config {
            completers: vec![Box::new(Offer(3))],
            on_enter_press: Box::new(|s, _, _| ConfigUpdate { add_output: Some(format!("{s}\nmore than will fit 字字字字字字字字字字字\n").repeat(9)), ..Default::default() }),
            ..Default::default()
        });
        mcrt::check!(r.is_ok(), "the shell gave up: {r:?}");
    });
}
