//! What the shell shows: the input and the cursor in it, the outputs and all of them.
use crate::term::*;
use mcrt::driver::Ctx;
use mcrt::{check, choose, Config as Explore};
use tui::style::Color;
use unicode_width::UnicodeWidthChar;

/// A row of the screen: what is in each column (nothing: the right half of a wide character).
type Row = Vec<(String, Color)>;

/// The lines of `s` (with SGR sequences), broken after `width` columns.
fn wrap(s: &str, width: usize) -> Vec<Row> {
    let mut rows: Vec<Row> = vec![vec![]];
    let mut fg = Color::Reset;
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '\x1b' => {
                let code: String = cs.by_ref().take_while(|c| *c != 'm').collect();
                fg = match &*code {
                    "[31" => Color::Red,
                    "[32" => Color::Green,
                    _ => Color::Reset,
                };
            }
            '\r' => (),
            '\n' => rows.push(vec![]),
            '\t' => put(&mut rows, width, 4, |row| (0..4).for_each(|_| row.push((" ".into(), fg)))),
            c => {
                let k = c.width().unwrap_or(0);
                put(&mut rows, width, k, |row| {
                    row.push((c.to_string(), fg));
                    if k == 2 {
                        row.push((String::new(), fg));
                    }
                })
            }
        }
    }
    rows
}
/// (nothing at all takes no line)
fn block(s: &str, width: usize) -> Vec<Row> {
    if s.is_empty() {
        vec![]
    } else {
        wrap(s, width)
    }
}
fn put(rows: &mut Vec<Row>, width: usize, k: usize, f: impl FnOnce(&mut Row)) {
    if rows.last().unwrap().len() + k > width {
        rows.push(vec![]);
    }
    f(rows.last_mut().unwrap())
}
/// Row `y` of the screen, from column `x` on, is this (and then empty for `width` columns in all).
fn row_is(y: usize, x: usize, width: usize, row: &[(String, Color)], what: &str) {
    let cells = cells();
    let cs = &cells[y][x..x + width];
    let text = |cs: &[tui::buffer::Cell]| cs.iter().map(|c| c.symbol.clone()).collect::<String>();
    for i in 0..width {
        let (s, fg) = row.get(i).map_or((" ", None), |x| (&*x.0, Some(x.1)));
        if s.is_empty() {
            continue;
        }
        check!(cs[i].symbol == s, "{what}: row {y} is shown as {:?}, expected {:?}", text(cs), row.iter().map(|x| &*x.0).collect::<String>());
        check!(s == " " || fg.map_or(true, |f| f == cs[i].fg), "{what}: {s:?} in row {y} is shown in {:?}, expected {:?}", cs[i].fg, fg);
    }
}
fn off() -> Vec<Event> {
    vec![key(KeyCode::Char('h'), ALT)]
}
fn input(w: u16, h: u16, text: &str, cursor_at: usize) {
    let width = w as usize - 4;
    let chars: Vec<char> = text.chars().collect();
    let all = wrap(text, width);
    for (y, row) in all.iter().enumerate() {
        if 2 + y >= h as usize - 1 {
            return;
        }
        row_is(2 + y, 3, width, row, &format!("input {text:?}"));
    }
    let left = wrap(&chars[..cursor_at].iter().collect::<String>(), width);
    let (x, y) = (left.last().unwrap().len(), left.len() - 1);
    let got = cursor();
    let at = |x: usize, y: usize| got == (3 + x as u16, 2 + y as u16);
    // (at the end of a full row: there, or at the start of the next)
    let wide_next = chars.get(cursor_at).is_some_and(|c| *c != '\n' && x + c.width().unwrap_or(0) > width);
    check!(
        at(x, y) || (x == width || wide_next) && at(0, y + 1),
        "the cursor is before character {cursor_at} of {text:?} and shown at {got:?}, expected {:?}",
        (3 + x, 2 + y)
    );
}
fn outputs(w: u16, h: u16, rows_above: usize, outs: &[String], scroll: usize) {
    let width = w as usize - 3; // (and a column for the scroll bar)
    let told: String = outs.iter().map(|o| format!("{:.80?}…", o.chars().take(80).collect::<String>())).collect();
    let told = format!("outputs (oldest first) {told} from line {scroll} on");
    let rows: Vec<Row> = outs.iter().rev().flat_map(|o| block(o, width)).collect();
    for y in 3 + rows_above..h as usize - 1 {
        let row = rows.get(scroll + y - 3 - rows_above).map_or(&[][..], |r| r);
        row_is(y, 1, width, row, &told);
    }
    bar(1 + width, 3 + rows_above, h as usize - 1, rows.len(), scroll, &told);
}
/// The bar beside the outputs is as long and where the lines shown are among all.
fn bar(x: usize, from: usize, to: usize, lines: usize, scroll: usize, what: &str) {
    let cells = cells();
    let lit: Vec<usize> = (from..to).filter(|y| cells[*y][x].bg == Color::Gray).collect();
    let dark = (from..to).filter(|y| cells[*y][x].bg == Color::DarkGray).count();
    let h = to - from;
    check!(lit.len() + dark == h, "{what}: beside row(s) {from} to {to} is no scroll bar");
    check!(!lit.is_empty() && lit[lit.len() - 1] - lit[0] == lit.len() - 1, "{what}: the scroll bar is at rows {lit:?}");
    if lines <= h {
        check!(lit.len() == h, "{what}: all {lines} lines are shown and the scroll bar is at rows {lit:?} of {h}");
        return;
    }
    let len = (h * h / lines).max(1);
    check!(lit.len() == len, "{what}: {h} of {lines} lines are shown and the scroll bar is at rows {lit:?} of {h}");
    let top = scroll * (h - lit.len()) / (lines - 1);
    let exact = scroll == 0 || scroll == lines - 1;
    check!((lit[0] - from).abs_diff(top) <= (!exact) as usize, "{what} (of {lines}): the scroll bar is at rows {lit:?} of {h}");
}
fn config(mut outs: Vec<String>) -> impl FnMut() -> Config {
    outs.reverse();
    let outs = Shared::new(outs);
    move || {
        let outs = outs.clone();
        Config { on_enter_press: Box::new(move |_, _, _| ConfigUpdate { add_output: outs.get(|o| o.pop()), ..Default::default() }), ..Default::default() }
    }
}
pub fn c52(cx: &mut Ctx) {
    // the input, the cursor anywhere in it
    let (n, d) = cx.pick((4, 6), (5, 7));
    let sizes = [9u16, 10, 30];
    cx.explore(Explore::new("input").delays().bound(0), || {
        let w = sizes[choose(3, "width")];
        let mut text = String::new();
        for _ in 0..d {
            match choose(n + 1, "character") {
                0 => break,
                k => text.push(['a', '字', '\n', ' ', 'é'][k - 1]),
            }
        }
        let len = text.chars().count();
        let (t, at) = (text.clone(), choose(len + 1, "steps left"));
        let mut script = vec![off(), typed(&text)];
        script.extend((0..at).map(|_| vec![key(KeyCode::Left, NONE)]));
        let seen = move |i: usize| {
            if i >= 1 {
                input(w, 16, &t, len - (i - 1));
            }
        };
        let r = go(w, 16, batches(script, 2, seen), Config::default);
        check!(r.is_ok(), "the shell gave up: {r:?}");
    });
    // the input after the window has changed
    cx.explore(Explore::new("input, another width").delays().bound(0), || {
        let text = ["abcdefghijkl", "a字字字字b", "abc\ndefghijk"][choose(3, "text")];
        let (w1, w2) = (sizes[choose(3, "width")], sizes[choose(3, "width then")]);
        let script = vec![off(), typed(text), vec![Event::Resize]];
        let seen = move |i: usize| match i {
            1 => {
                input(w1, 16, text, text.chars().count());
                resize(w2, 16);
            }
            2 => input(w2, 16, text, text.chars().count()),
            _ => (),
        };
        let r = go(w1, 16, batches(script, 2, seen), Config::default);
        check!(r.is_ok(), "the shell gave up: {r:?}");
    });
    // outputs
    let pool = ["", "a", "abcdefghijklmn", "1\n2\n3", "字字字字字字字", "a\tb\tc", "\x1b[31mred\x1b[0m plain \x1b[32mgreen and\nmore\x1b[0m", "x\n", "a\r\nb"];
    let (n, d, k) = cx.pick((9, 2, 2), (9, 2, 3));
    let turn = [(KeyCode::Down, SHIFT, 5i64), (KeyCode::PageDown, NONE, 25), (KeyCode::Up, SHIFT, -5), (KeyCode::PageUp, NONE, -25)];
    cx.explore(Explore::new("outputs").delays().bound(0), || {
        let w = sizes[choose(3, "width")];
        let outs: Vec<String> = (0..d).map(|_| pool[choose(n, "output")].to_string()).collect();
        let turns: Vec<usize> = (0..k).map(|_| choose(4, "scroll")).collect();
        let mut script = vec![off()];
        script.extend((0..d).map(|_| vec![enter()]));
        script.extend(turns.iter().map(|t| vec![key(turn[*t].0, turn[*t].1)]));
        let o = outs.clone();
        let mut at = 0i64;
        let seen = move |i: usize| {
            if i > d {
                let lines: usize = o.iter().map(|o| block(o, w as usize - 3).len()).sum();
                at = (at + turn[turns[i - 1 - d]].2).clamp(0, (lines as i64 - 1).max(0));
            }
            outputs(w, 10, 1, &o[..i.min(d)], at as usize);
        };
        let r = go(w, 10, batches(script, 2, seen), config(outs));
        check!(r.is_ok(), "the shell gave up: {r:?}");
    });
    // the window changes
    cx.explore(Explore::new("outputs, another width").delays().bound(0), || {
        let (w1, w2) = (sizes[choose(3, "width")], sizes[choose(3, "width then")]);
        let outs: Vec<String> = (0..2).map(|_| pool[choose(pool.len(), "output")].to_string()).collect();
        let script = vec![off(), vec![enter()], vec![enter()], vec![Event::Resize]];
        let o = outs.clone();
        let seen = move |i: usize| match i {
            2 => {
                outputs(w1, 12, 1, &o, 0);
                resize(w2, 12);
            }
            3 => outputs(w2, 12, 1, &o, 0),
            _ => (),
        };
        let r = go(w1, 12, batches(script, 2, seen), config(outs));
        check!(r.is_ok(), "the shell gave up: {r:?}");
    });
    // very many
    cx.explore(Explore::new("many outputs").delays().bound(0), || {
        let n = [99usize, 100, 101, 150][choose(4, "outputs")];
        let lines = choose(2, "lines") + 1;
        let outs: Vec<String> = (0..n).map(|i| if lines == 1 { format!("o{i}") } else { format!("o{i}\np{i}") }).collect();
        let mut script = vec![off(), (0..n).map(|_| enter()).collect()];
        script.extend((0..15).map(|_| vec![key(KeyCode::PageDown, NONE)]));
        let o = outs.clone();
        let mut at = 0;
        let seen = move |i: usize| {
            let kept = &o[n.saturating_sub(100)..];
            if i > 1 {
                at = (at + 25).min(kept.len() * lines - 1);
            }
            if i > 0 {
                outputs(30, 16, 1, kept, at);
            }
        };
        let r = go(30, 16, batches(script, 2 * n, seen), config(outs));
        check!(r.is_ok(), "the shell gave up: {r:?}");
    });
    // and very long
    cx.explore(Explore::new("long outputs").delays().bound(0), || {
        let long = [65_530usize, 65_535, 65_536, 65_537, 70_000, 131_080][choose(6, "lines")];
        let (down, up) = ([1usize, 2621, 2622, 5300][choose(4, "down")], [0usize, 1, 2620][choose(3, "up")]);
        let line = |i: usize| format!("l{i}");
        let outs: Vec<String> = vec!["first".into(), (0..long).map(line).collect::<Vec<_>>().join("\n"), "last".into()];
        let o = outs.clone();
        let page = |k| key(k, NONE);
        let mut script = vec![off(), vec![enter()], vec![enter()], vec![enter()]];
        script.push((0..down).map(|_| page(KeyCode::PageDown)).collect());
        script.push((0..up).map(|_| page(KeyCode::PageUp)).collect());
        let at = (25 * down).min(long + 1);
        let seen = move |i: usize| match i {
            4 => outputs(30, 16, 1, &o, at),
            5 => outputs(30, 16, 1, &o, at.saturating_sub(25 * up)),
            _ => (),
        };
        let r = go(30, 16, batches(script, 4, seen), config(outs));
        check!(r.is_ok(), "the shell gave up: {r:?}");
    });
}
