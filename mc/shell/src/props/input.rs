use crate::interface::input::{InputBuffer, Mvmt};
use mcrt::driver::Ctx;

/// The reference: the text left and right of the cursor.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub l: Vec<char>,
    pub r: Vec<char>,
    /// text as of the last `reset_buf_changed`
    pub base: Vec<char>,
    /// an editing operation changed the text since then
    pub edited: bool,
    /// ... or a `clear` (which may be a no-op) was called
    pub cleared: bool,
}

pub fn word_char(c: char) -> bool {
    c.is_alphanumeric() || c == '-' || c == '_'
}

impl Model {
    pub fn text(&self) -> Vec<char> {
        let mut t = self.l.clone();
        t.extend(&self.r);
        t
    }
    pub fn string(&self) -> String {
        self.text().iter().collect()
    }
    fn insert(&mut self, c: char) {
        self.l.push(c);
        self.edited = true;
    }
    fn left(&mut self) -> bool {
        match self.l.pop() {
            Some(c) => {
                self.r.insert(0, c);
                true
            }
            None => false,
        }
    }
    fn right(&mut self) -> bool {
        if self.r.is_empty() {
            return false;
        }
        self.l.push(self.r.remove(0));
        true
    }
    fn word_left(&mut self) {
        while self.l.last().map_or(false, |c| !word_char(*c)) {
            self.left();
        }
        while self.l.last().map_or(false, |c| word_char(*c)) {
            self.left();
        }
    }
    fn word_right(&mut self) {
        while self.r.first().map_or(false, |c| !word_char(*c)) {
            self.right();
        }
        while self.r.first().map_or(false, |c| word_char(*c)) {
            self.right();
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Ins(char),
    Str(&'static str),
    /// inserted as a text of its own
    Paste(char),
    Backspace,
    Delete,
    Start,
    Left(usize),
    Right(usize),
    WordLeft,
    WordRight,
    Clear,
    Reset,
}
use Op::*;

pub fn apply(op: Op, b: &mut InputBuffer, m: &mut Model) {
    match op {
        Ins(c) => {
            b.insert(c);
            m.insert(c);
        }
        Str(s) => {
            b.insert_str(s);
            s.chars().for_each(|c| m.insert(c));
        }
        Paste(c) => {
            let s: String = ['p', c, c].iter().collect();
            b.insert_str(&s);
            s.chars().for_each(|c| m.insert(c));
        }
        Backspace => {
            b.backspace();
            if m.l.pop().is_some() {
                m.edited = true;
            }
        }
        Delete => {
            b.delete();
            if !m.r.is_empty() {
                m.r.remove(0);
                m.edited = true;
            }
        }
        Start => {
            b.move_start();
            while m.left() {}
        }
        Left(n) => {
            b.move_left(Mvmt::Ch(n));
            for _ in 0..n.min(1000) {
                m.left();
            }
        }
        Right(n) => {
            b.move_right(Mvmt::Ch(n));
            for _ in 0..n.min(1000) {
                m.right();
            }
        }
        WordLeft => {
            b.move_left(Mvmt::Word);
            m.word_left();
        }
        WordRight => {
            b.move_right(Mvmt::Word);
            m.word_right();
        }
        Clear => {
            b.clear();
            if !m.l.is_empty() || !m.r.is_empty() {
                m.edited = true;
            }
            m.cleared = true;
            m.l.clear();
            m.r.clear();
        }
        Reset => {
            b.reset_buf_changed();
            m.base = m.text();
            m.edited = false;
            m.cleared = false;
        }
    }
}

/// Text and cursor agree.
fn same(b: &InputBuffer, m: &Model) -> Result<(), String> {
    let t = m.text();
    if b.chars(..) != &t[..] || b.ch_pos() != m.l.len() {
        return Err(format!(
            "editor shows {:?} with the cursor at {}, should be {:?} with the cursor at {}",
            b.buffer(..),
            b.ch_pos(),
            m.string(),
            m.l.len()
        ));
    }
    Ok(())
}

/// Text, cursor, byte offset and ranges agree.
fn same_positions(b: &InputBuffer, m: &Model) -> Result<(), String> {
    let s = b.buffer(..);
    if s != m.string() {
        return Err(format!("buffer(..) is {s:?}, the text is {:?}", m.string()));
    }
    let left: String = m.l.iter().collect();
    if b.buf_pos() != left.len() {
        return Err(format!("byte position {} in {s:?}, should be {}", b.buf_pos(), left.len()));
    }
    if !s.is_char_boundary(b.buf_pos()) || s[..b.buf_pos()].chars().count() != b.ch_pos() {
        return Err(format!("byte position {} and character position {} disagree in {s:?}", b.buf_pos(), b.ch_pos()));
    }
    if b.buffer(..b.ch_pos()) != left {
        return Err(format!("text before the cursor is {:?}, should be {left:?}", b.buffer(..b.ch_pos())));
    }
    if b.chars(b.ch_pos()..) != &m.r[..] {
        return Err(format!("text after the cursor is {:?}, should be {:?}", b.chars(b.ch_pos()..), m.r));
    }
    let n = m.l.len() + m.r.len();
    let t = m.text();
    for i in 0..=n.min(6) {
        for j in i..=n.min(6) {
            if b.chars(i..j) != &t[i..j] {
                return Err(format!("chars({i}..{j}) of {s:?} is {:?}", b.chars(i..j)));
            }
            if b.buffer(i..j) != t[i..j].iter().collect::<String>() {
                return Err(format!("buffer({i}..{j}) of {s:?} is {:?}", b.buffer(i..j)));
            }
        }
    }
    Ok(())
}

/// `buffer_changed` is up after a change of the text, and only then (`clear` counts as a change).
fn same_flag(b: &InputBuffer, m: &Model) -> Result<(), String> {
    let f = b.buffer_changed();
    if (m.edited || m.text() != m.base) && !f {
        return Err(format!(
            "the text changed (from {:?} to {:?}) but buffer_changed() is false",
            m.base.iter().collect::<String>(),
            m.string()
        ));
    }
    if f && !m.edited && !m.cleared {
        return Err(format!("nothing was edited but buffer_changed() is true (text {:?})", m.string()));
    }
    Ok(())
}

fn run(start: &str, at: usize, ops: impl Iterator<Item = Op>, chk: fn(&InputBuffer, &Model) -> Result<(), String>) -> Result<u64, String> {
    let mut b = InputBuffer::new();
    let mut m = Model::default();
    chk(&b, &m)?;
    b.insert_str(start);
    m.l = start.chars().collect();
    m.edited = !start.is_empty();
    b.move_left(Mvmt::Ch(at));
    for _ in 0..at {
        m.left();
    }
    chk(&b, &m)?;
    let mut n = 0;
    for op in ops {
        apply(op, &mut b, &mut m);
        n += 1;
        chk(&b, &m).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    Ok(n)
}

const STARTS: &[&str] = &[
    "",
    "a",
    " ",
    "foo bar",
    "ls | filter 'a b' {get x}",
    "a-b_c.d/e\\f",
    "  -- __ ",
    "é字😀x\u{301}z",
    "tab\tnl\ncr\r\n",
    "αβγ δεζ",
    "٣٤ ²½ Ⅷ",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa bb",
];

fn from_starts(cx: &mut Ctx, name: &str, ops: &[Op], depth: usize, chk: fn(&InputBuffer, &Model) -> Result<(), String>) {
    // every start text, every cursor position in it (at most 24), every sequence
    let mut starts: Vec<(&str, usize)> = Vec::new();
    for s in STARTS {
        let n = s.chars().count();
        for at in 0..=n {
            if n <= 24 || at % 9 == 0 || at == n || at == 3 {
                starts.push((s, at));
            }
        }
    }
    let k = ops.len() as u64;
    let per = k.pow(depth as u32);
    let dec = |i: u64| {
        let (s, at) = starts[(i / per) as usize];
        (s, at, mcrt::seq::digits(i % per, ops.len(), depth))
    };
    cx.cases(
        name,
        per * starts.len() as u64,
        |i| {
            let (s, at, d) = dec(i);
            format!("text {s:?}, cursor {at} from the end, then {:?}", d.iter().map(|&o| ops[o as usize]).collect::<Vec<_>>())
        },
        |i| {
            let (s, at, d) = dec(i);
            run(s, at, d.iter().map(|&o| ops[o as usize]), chk)
        },
    );
}

fn from_empty(cx: &mut Ctx, name: &str, ops: &[Op], depth: usize, chk: fn(&InputBuffer, &Model) -> Result<(), String>) {
    cx.sequences(
        name,
        ops.len(),
        depth,
        |s| format!("{:?}", s.iter().map(|&o| ops[o as usize]).collect::<Vec<_>>()),
        |s| run("", 0, s.iter().map(|&o| ops[o as usize]), chk).map(|_| ()),
    );
}

fn chars_upto() -> u64 {
    0x11_0000
}

fn every_char(cx: &mut Ctx, name: &str, chk: fn(&InputBuffer, &Model) -> Result<(), String>) {
    // every Unicode scalar value as an inserted character, in the middle of a line
    cx.cases(
        name,
        chars_upto(),
        |i| format!("character U+{i:04X}"),
        |i| {
            let Some(c) = char::from_u32(i as u32) else { return Ok(0) };
            run(
                "a b",
                1,
                [
                    Ins(c), Left(1), WordRight, WordLeft, WordLeft, WordRight, Ins(c), Ins(c), Left(2), Delete, WordRight, WordLeft,
                    Right(1), Backspace, Start, Right(2), Ins(c), Reset, Right(1), WordLeft, WordRight, Backspace,
                    Left(1), Paste(c), Delete, Backspace, Backspace,
                ]
                .into_iter(),
                chk,
            )
        },
    );
}

const ALL: &[Op] = &[
    Ins('a'), Ins(' '), Ins('é'), Str("b_😀"), Backspace, Delete, Start, Left(1), Right(1), WordLeft, WordRight, Clear,
    Left(3), Right(9), Ins('\n'), Str(""),
];

pub fn edit(cx: &mut Ctx) {
    from_empty(cx, "edit-from-empty", ALL, cx.pick(6, 7), same);
    from_starts(cx, "edit-from-texts", ALL, cx.pick(3, 4), same);
    every_char(cx, "edit-every-char", same);
    // a long line, edited at every position of it
    cx.cases(
        "edit-long-line",
        1500,
        |i| format!("a line of {i} characters"),
        |i| {
            let mut b = InputBuffer::new();
            let mut m = Model::default();
            for k in 0..i {
                apply(Ins(['x', 'é', ' ', '😀', '-'][(k % 5) as usize]), &mut b, &mut m);
            }
            same(&b, &m)?;
            for op in [Left(700), Ins('q'), Backspace, Delete, WordLeft, Str("zz"), WordRight, Right(900), Backspace, Left(901), Delete, Start, Delete, Ins('w')] {
                apply(op, &mut b, &mut m);
                same(&b, &m).map_err(|e| format!("after {op:?}: {e}"))?;
            }
            Ok(i + 14)
        },
    );
    far(cx, "edit-very-long-line");
    cx.assume("characters and strings outside of the alphabet behave like those in it (every Unicode scalar value is tried in one context)");
}

/// Movements over very long distances: by characters, and over long words and separators.
fn far(cx: &mut Ctx, name: &str) {
    let ns: Vec<usize> = [127usize, 255, 511, 1023, 4095, 8191, 32767, 65535, 100_000].iter().flat_map(|&n| [n, n + 1, n + 2]).collect();
    let k = ns.len() as u64;
    cx.cases(
        name,
        k * k,
        |i| format!("{} word characters and {} separators", ns[(i / k) as usize], ns[(i % k) as usize]),
        |i| {
            let (w, s) = (ns[(i / k) as usize], ns[(i % k) as usize]);
            let mut t = String::from("ab ");
            t.extend((0..w).map(|j| ['x', 'é', '-'][j % 3]));
            t.extend((0..s).map(|j| [' ', '.', '|'][j % 3]));
            t.push_str("yz");
            let n = 3 + w + s + 2;
            let mut b = InputBuffer::new();
            b.insert_str(&t);
            let text: Vec<char> = t.chars().collect();
            let mut steps = 0;
            let mut at = |what: &str, b: &InputBuffer, pos: usize| {
                steps += 1;
                if b.ch_pos() != pos {
                    return Err(format!("{what}: the cursor is at {}, should be at {pos}", b.ch_pos()));
                }
                Ok(())
            };
            at("inserting", &b, n)?;
            for p in [n - 2, 3, 0, 0] {
                b.move_left(Mvmt::Word);
                at("a word to the left", &b, p)?;
            }
            for p in [2, 3 + w, n, n] {
                b.move_right(Mvmt::Word);
                at("a word to the right", &b, p)?;
            }
            for d in [w, s, w + s, n - 1] {
                b.move_left(Mvmt::Ch(d));
                at("to the left", &b, n - d)?;
                b.move_left(Mvmt::Ch(n));
                at("to the left, too far", &b, 0)?;
                b.move_right(Mvmt::Ch(d));
                at("to the right", &b, d)?;
                b.move_right(Mvmt::Ch(n));
                at("to the right, too far", &b, n)?;
            }
            b.move_left(Mvmt::Ch(s + 2));
            let left: usize = text[..3 + w].iter().map(|c| c.len_utf8()).sum();
            if b.buf_pos() != left {
                return Err(format!("byte position {}, should be {left}", b.buf_pos()));
            }
            if b.chars(..) != &text[..] || b.buffer(..) != t {
                return Err("moving changed the text".into());
            }
            b.insert('!');
            b.backspace();
            b.delete();
            at("editing", &b, 3 + w)?;
            let mut t2 = text.clone();
            t2.remove(3 + w);
            if b.chars(..) != &t2[..] {
                return Err("editing in the middle gave another text".into());
            }
            Ok(steps)
        },
    );
}

pub fn words(cx: &mut Ctx) {
    const W: &[Op] = &[
        Ins('a'), Ins('-'), Ins(' '), Ins('é'), Ins('.'), Ins('_'), WordLeft, WordRight, Left(1), Right(1), Backspace, Ins('7'), Ins('\u{301}'), Ins('😀'),
    ];
    from_empty(cx, "word-from-empty", W, cx.pick(6, 7), same);
    from_starts(cx, "word-from-texts", &[WordLeft, WordRight, Left(1), Right(1), Ins('x'), Ins(','), Delete], cx.pick(4, 6), same);
    every_char(cx, "word-every-char", same);
    far(cx, "word-very-long");
    // all texts over a small alphabet, all cursor positions: one and two jumps each way
    let al: Vec<char> = "a- é.".chars().collect();
    let len = cx.pick(7usize, 8);
    let k = al.len() as u64;
    let n: u64 = (0..=len).map(|l| k.pow(l as u32)).sum();
    let dec = |mut i: u64| {
        let mut l = 0;
        while i >= k.pow(l as u32) {
            i -= k.pow(l as u32);
            l += 1;
        }
        mcrt::seq::digits(i, al.len(), l).iter().map(|&d| al[d as usize]).collect::<String>()
    };
    cx.cases(
        "word-all-texts",
        n,
        |i| format!("text {:?}", dec(i)),
        |i| {
            let t = dec(i);
            let n = t.chars().count();
            let mut ops = 0;
            for at in 0..=n {
                for s in [[WordLeft, WordLeft, WordRight], [WordRight, WordRight, WordLeft], [WordLeft, WordRight, WordLeft], [WordRight, WordLeft, WordRight]] {
                    ops += run(&t, at, s.into_iter(), same).map_err(|e| format!("cursor {at} from the end of {t:?}: {e}"))?;
                }
            }
            Ok(ops)
        },
    );
}

pub fn positions(cx: &mut Ctx) {
    const P: &[Op] = &[
        Ins('a'), Ins('é'), Ins('字'), Str("😀 x"), Backspace, Delete, Start, Left(1), Right(1), WordLeft, WordRight, Clear, Left(2), Right(7),
    ];
    from_empty(cx, "positions-from-empty", P, cx.pick(5, 6), same_positions);
    from_starts(cx, "positions-from-texts", P, cx.pick(2, 3), same_positions);
    every_char(cx, "positions-every-char", same_positions);
    far(cx, "positions-very-long-line");
}

pub fn flag(cx: &mut Ctx) {
    const F: &[Op] = &[
        Ins('a'), Ins(' '), Str("bé"), Str(""), Backspace, Delete, Start, Left(1), Right(1), WordLeft, WordRight, Clear, Reset, Left(9), Right(9),
    ];
    from_empty(cx, "flag-from-empty", F, cx.pick(6, 7), same_flag);
    from_starts(cx, "flag-from-texts", F, cx.pick(3, 4), same_flag);
    every_char(cx, "flag-every-char", same_flag);
}
