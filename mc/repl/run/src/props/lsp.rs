//! The language server, asked by an editor.
use lsp_server::{mc_client, Message, Notification, Request, RequestId, Response};
use mcrt::driver::Ctx;
use mcrt::{check, choose, Config as Explore};
use serde_json::{json, Value};

// ---------------------------------------------------------------- the editor
/// A text as an editor holds it: lines of UTF-16 units.
fn lines(t: &str) -> Vec<&str> {
    t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect()
}
/// Byte of the position in the text.
fn at(t: &str, line: usize, col: usize) -> usize {
    let ls: Vec<&str> = t.split_inclusive('\n').collect();
    let start: usize = ls.iter().take(line).map(|l| l.len()).sum();
    let l = lines(t)[line];
    let mut u = 0;
    for (i, c) in l.char_indices() {
        if u >= col {
            return start + i;
        }
        u += c.len_utf16();
    }
    start + l.len()
}
fn units(l: &str) -> usize {
    l.chars().map(char::len_utf16).sum()
}
/// All places between characters: (line, column, byte).
fn places(t: &str) -> Vec<(usize, usize, usize)> {
    let mut v = Vec::new();
    let mut start = 0;
    for (n, raw) in t.split_inclusive('\n').chain((t.is_empty() || t.ends_with('\n')).then_some("")).enumerate() {
        let l = raw.trim_end_matches('\n');
        let l = l.strip_suffix('\r').unwrap_or(l);
        let mut col = 0;
        for (i, c) in l.char_indices() {
            v.push((n, col, start + i));
            col += c.len_utf16();
        }
        v.push((n, col, start + l.len()));
        start += raw.len();
    }
    v
}

struct Editor {
    con: lsp_server::Connection,
    server: Option<mc_std::thread::JoinHandle<()>>,
    next: std::cell::Cell<i32>,
}
impl Editor {
    fn new() -> Self {
        let con = mc_client();
        let server = Some(mc_std::thread::spawn(|| ogma_ls::server::run(Vec::new())));
        Editor { con, server, next: 1.into() }
    }
    fn notify(&self, method: &str, params: Value) {
        self.con.sender.send(Message::Notification(Notification { method: method.into(), params })).ok();
    }
    fn ask(&self, method: &str, params: Value) -> i32 {
        let id = self.next.get();
        self.next.set(id + 1);
        self.con.sender.send(Message::Request(Request { id: RequestId::from(id), method: method.into(), params })).ok();
        id
    }
    /// The answers to so many requests, in the order of the requests.
    fn answers(&self, n: usize) -> Vec<Response> {
        let mut v: Vec<Response> = Vec::new();
        while v.len() < n {
            match self.con.receiver.recv() {
                Ok(Message::Response(r)) => {
                    check!(v.iter().all(|x| x.id != r.id), "answered twice: {r:?}");
                    v.push(r)
                }
                Ok(m) => mcrt::fail(format!("not an answer: {m:?}")),
                Err(_) => mcrt::fail(format!("the server ended with {} of {n} requests answered", v.len())),
            }
        }
        v.sort_by_key(|r| r.id.clone());
        v
    }
    fn open(&self, url: &str, text: &str, version: i32) {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": url, "languageId": "ogma", "version": version, "text": text}}));
    }
    fn save(&self, url: &str) {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": url}}));
    }
    fn call(&self, method: &str, url: &str, line: usize, col: usize) -> Value {
        self.ask(method, json!({"textDocument": {"uri": url}, "position": {"line": line, "character": col}}));
        let r = self.answers(1).pop().unwrap();
        check!(r.error.is_none(), "{method} at {line}:{col}: {:?}", r.error);
        r.result.unwrap_or(Value::Null)
    }
    fn hover(&self, url: &str, line: usize, col: usize) -> Option<String> {
        let v = self.call("textDocument/hover", url, line, col);
        v.pointer("/contents").map(|c| c.as_str().map_or(c.to_string(), String::from))
    }
    fn complete(&self, url: &str, line: usize, col: usize) -> Option<Vec<String>> {
        let v = self.call("textDocument/completion", url, line, col);
        v.as_array().map(|a| a.iter().map(|x| x["label"].as_str().unwrap_or("?").to_string()).collect())
    }
    /// No more requests: the server ends by itself.
    fn end(mut self) {
        drop(self.con);
        if let Some(s) = self.server.take() {
            check!(s.join().is_ok(), "the server panicked")
        }
    }
}

// ---------------------------------------------------------------- C57
type Tok = (&'static str, Option<&'static str>);
const C: Option<&str> = Some("command");
const T: Option<&str> = Some("type");
const I: Option<&str> = Some("ident");
/// Items with what each of their words is; a word of no kind has nothing to show.
const ITEMS: [&[Tok]; 9] = [
    &[("ls", C)],
    &[("ls", C), ("|", None), ("foo", C), ("é𝄞", I), ("3", Some("number"))],
    &[("\\", C), ("'字 z'", I), ("|", None), ("len", C)],
    &[("let", C), ("{", None), ("\\", C), ("#t", Some("spec-literal")), ("}", None), ("$x", Some("variable"))],
    &[("def", C), ("foo", C), ("Num", T), ("(", None), ("a", Some("parameter")), ("b", Some("parameter")), (")", None), ("{", None), ("+", C), ("$a", Some("variable")), ("|", None), ("len", C), ("}", None)],
    &[("def-ty", C), ("Zo", T), ("{", None), ("x:", Some("field")), ("Num", T), ("y:", Some("field")), ("Str", T), ("}", None)],
    &[("sort", C), ("--ab", Some("flag")), ("{", None), ("get", C), ("é", I), ("|", None), ("ls", C), ("}", None), ("--c", Some("flag"))],
    &[("def-ty", C), ("Tu", T), ("::", None), ("Aa", Some("variant")), ("{", None), ("x:", Some("field")), ("Num", T), ("}", None), ("|", None), ("Bb", Some("variant"))],
    &[("nosuch", C), ("é", I)],
];
const KNOWN: [&str; 9] = ["ls", "\\", "len", "let", "+", "sort", "get", "Num", "Str"];
/// Separators of the words of an item.
const SEPS: [&str; 5] = [" ", "  ", "\n  ", "\r\n\t", " \n"];
/// A document out of items: its text, and of each word its place and kind.
fn document(items: &[usize], sep: &dyn Fn(usize) -> usize, lead: usize) -> (String, Vec<(std::ops::Range<usize>, Tok)>) {
    let mut t = String::new();
    let mut w = Vec::new();
    for (n, i) in items.iter().enumerate() {
        if n > 0 {
            t.push_str(["\n\n", "\r\n \r\n", "\n\n\n"][lead % 3]);
        }
        t.push_str(["", "# é 𝄞\n", "#\n# ls | len\n"][(lead / 3 + n) % 3]);
        for (k, tok) in ITEMS[*i].iter().enumerate() {
            // (a field is written to its type)
            if k > 0 && (t.ends_with("::") || !t.ends_with(':')) {
                // (and exactly one space is after 'def')
                t.push_str(if t.ends_with("def") || t.ends_with("def-ty") { " " } else { SEPS[sep(n * 16 + k)] });
            }
            w.push((t.len()..t.len() + tok.0.len(), *tok));
            t.push_str(tok.0);
        }
    }
    (t, w)
}
/// The word without its signs.
fn core(w: &str) -> &str {
    let x = w.trim_start_matches("--").trim_start_matches('$').trim_matches('\'').trim_end_matches(':');
    if x.is_empty() { w } else { x }
}
fn shown(tok: &Tok) -> Option<(String, bool)> {
    let (w, k) = *tok;
    // (a string is without its quotes, a field without its colon, a variable without its sign)
    let name = core(w);
    k.map(|k| (format!("`{name}` [_{k}_]"), KNOWN.contains(&w)))
}
const URL: &str = "file:///tmp/nosuch/a.ogma";
/// The text of the item around the place, up to the place.
fn item_up_to(t: &str, line: usize, byte: usize) -> String {
    let ls = lines(t);
    let mut from = line;
    while from > 0 && !ls[from - 1].trim().is_empty() {
        from -= 1;
    }
    while from < line && ls[from].starts_with('#') {
        from += 1;
    }
    let start = at(t, from, 0);
    t[start..byte].replace("\r\n", "\n")
}
fn reads(t: &str, words: &[(std::ops::Range<usize>, Tok)], every: usize) {
    let ed = Editor::new();
    ed.open(URL, t, 1);
    let wsp = ogma_ls::Workspace::init();
    wsp.defs.write().add_from_str(t, std::path::Path::new("/tmp/nosuch/a.ogma")).ok();
    for (n, (line, col, byte)) in places(t).into_iter().enumerate() {
        let word = words.iter().find(|w| w.0.contains(&byte));
        let want = word.and_then(|w| shown(&w.1));
        // (the signs may belong to the word or not)
        let sign = word.is_some_and(|w| {
            let c = core(w.1 .0);
            let from = w.0.start + w.1 .0.find(c).unwrap();
            !(from..from + c.len()).contains(&byte)
        });
        let got = ed.hover(URL, line, col);
        let ok = match (&got, &want) {
            (None, None) => true,
            (None, _) if sign => true,
            // (between 'def' and the name)
            (Some(g), None) => words.iter().any(|w| w.1 .0.starts_with("def") && t[w.0.start..byte].trim_end() == w.1 .0 && g.starts_with(&shown(&w.1).unwrap().0)),
            (Some(g), Some((h, doc))) => g.starts_with(h.as_str()) && (*doc == g.contains("```") || !*doc),
            _ => false,
        };
        check!(ok, "{t:?}: at {line}:{col} (byte {byte}) the server shows {got:?} and there is {want:?}");
        if n % every == 0 {
            completed(&ed, &wsp, t, line, col, byte);
        }
    }
    ed.end();
}
fn completed(ed: &Editor, wsp: &ogma_ls::Workspace, t: &str, line: usize, col: usize, byte: usize) {
    let got = ed.complete(URL, line, col);
    let before = item_up_to(t, line, byte);
    let want = ogma_ls::completion::get(wsp, &before, Some(std::path::Path::new("/tmp/nosuch")));
    let want: Option<Vec<String>> = want.map(|v| v.into_iter().map(|d| d.name).collect());
    check!(got == want, "{t:?}: at {line}:{col} the server completes {before:?} with {} and the shell with {}", brief(&got), brief(&want));
}
fn completes(t: &str, every: usize) {
    let ed = Editor::new();
    ed.open(URL, t, 1);
    let wsp = ogma_ls::Workspace::init();
    wsp.defs.write().add_from_str(t, std::path::Path::new("/tmp/nosuch/a.ogma")).ok();
    for (line, col, byte) in places(t).into_iter().step_by(every) {
        ed.hover(URL, line, col);
        completed(&ed, &wsp, t, line, col, byte);
    }
    ed.end();
}
fn brief(v: &Option<Vec<String>>) -> String {
    v.as_ref().map_or("nothing".into(), |v| format!("{} items {:?}…", v.len(), v.iter().take(3).collect::<Vec<_>>()))
}
fn explore(name: &str) -> Explore {
    Explore::new(name).delays().bound(0).steps(3_000_000).stack(4 << 20)
}
pub fn c57(cx: &mut Ctx) {
    // one item, all separations of its words
    let d = cx.pick(4, 6);
    cx.explore(explore("one item"), || {
        let i = choose(ITEMS.len(), "item");
        let d = (ITEMS[i].len() - 1).min(d);
        let seps: Vec<usize> = (0..d).map(|_| choose(SEPS.len(), "separator")).collect();
        let (t, w) = document(&[i], &|k| seps[k % d.max(1)], 0);
        reads(&t, &w, 3);
    });
    // several items, comments, blank lines, ends of the file
    let n = cx.pick(2, 3);
    cx.explore(explore("documents"), || {
        let items: Vec<usize> = (0..n).map(|_| choose(ITEMS.len(), "item")).collect();
        let (lead, sep, tail) = (choose(9, "lead"), choose(2, "separator"), choose(4, "tail"));
        let (mut t, w) = document(&items, &|k| if sep == 0 { 0 } else { k % 5 }, lead);
        t.push_str(["", "\n", "\n  ", "\r\n\n"][tail]);
        reads(&t, &w, 4);
    });
    // unfinished items, before and behind others
    cx.explore(explore("unfinished"), || {
        let (t, _) = document(&[choose(ITEMS.len(), "item")], &|k| k % 5, 0);
        let ps = places(&t);
        let cut = ps[choose(ps.len(), "cut")].2;
        let t = match choose(3, "where") {
            0 => t[..cut].to_string(),
            1 => format!("# é\n{}\n\nls | len\n", &t[..cut]),
            _ => format!("ls 𝄞\n\n{}", &t[cut..]),
        };
        completes(&t, 1);
    });
}

// ---------------------------------------------------------------- C56
#[derive(Clone, Debug)]
struct Change {
    range: Option<((usize, usize), (usize, usize))>,
    text: String,
}
impl Change {
    fn json(&self) -> Value {
        match self.range {
            None => json!({"text": self.text}),
            Some((a, b)) => json!({"text": self.text, "range": {"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}}}),
        }
    }
    fn apply(&self, t: &mut String) {
        match self.range {
            None => *t = self.text.clone(),
            Some((a, b)) => {
                let r = at(t, a.0, a.1)..at(t, b.0, b.1);
                t.replace_range(r, &self.text)
            }
        }
    }
}
impl Editor {
    fn change(&self, url: &str, version: i32, changes: &[Change]) {
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": url, "version": version}, "contentChanges": changes.iter().map(Change::json).collect::<Vec<_>>()}));
    }
}
const PIECES: [&str; 6] = ["", "é ", "\n", "𝄞x", "\r\n", "ab cd"];
/// Some change of the text.
fn some_change(t: &str, pieces: usize, longest: usize) -> Change {
    let ps = places(t);
    let a = choose(ps.len() + 1, "from");
    let text = PIECES[choose(pieces, "piece")].to_string();
    if a == ps.len() {
        return Change { range: None, text: format!("ls {text}") };
    }
    let b = a + choose((longest + 1).min(ps.len() - a), "length");
    // (a place beyond the end of the line is its end)
    let (mut p, q) = ((ps[a].0, ps[a].1), (ps[b].0, ps[b].1));
    if a == b && text.is_empty() {
        p = (0, 0)
    }
    Change { range: Some((p, q)), text }
}
/// Both documents are the same to who asks.
fn same(ed: &Editor, t: &str, how: &dyn std::fmt::Debug) {
    const OTHER: &str = "file:///tmp/nosuch/b.ogma";
    ed.open(OTHER, t, 1);
    for (n, (line, col, _)) in places(t).into_iter().enumerate() {
        let (a, b) = (ed.hover(URL, line, col), ed.hover(OTHER, line, col));
        check!(a == b, "{how:?}: at {line}:{col} of {t:?} the server shows {a:?}, and {b:?} if it is opened anew");
        if n % 8 == 0 {
            let (a, b) = (ed.complete(URL, line, col), ed.complete(OTHER, line, col));
            check!(a == b, "{how:?}: at {line}:{col} of {t:?} the server completes with {}, and with {} if it is opened anew", brief(&a), brief(&b));
        }
    }
}
const STARTS: [&str; 4] = ["ls a 𝄞 b", "ls é\nx\n", "ls\r\n  𝄞 c\r\n\r\nlen d", ""];
fn edits(starts: usize, steps: usize, pieces: usize, longest: usize) {
    let mut t = STARTS[choose(starts, "text")].to_string();
    let ed = Editor::new();
    let mut v = choose(2, "version") as i32;
    ed.open(URL, &t, v);
    let mut how = vec![];
    // (each step by itself, or the first two as one)
    let joined = steps > 1 && choose(2, "joined") == 1;
    for _ in 0..steps {
        let c = some_change(&t, pieces, longest);
        c.apply(&mut t);
        how.push(c);
    }
    let mut rest = &how[..];
    while !rest.is_empty() {
        let k = if joined { 2.min(rest.len()) } else { 1 };
        v += [1, 3][choose(2, "step of the version")];
        ed.change(URL, v, &rest[..k]);
        rest = &rest[k..];
    }
    same(&ed, &t, &how);
    ed.end();
}
/// What may happen, in any order.
const EVENTS: [&str; 9] = ["edit", "hover", "replace", "save", "unknown", "complete", "reopen", "elsewhere", "broken"];
fn events(n: usize, k: usize) {
    let ed = Editor::new();
    // the text is a word after 'ls' and is followed in every event
    let word = |n: usize| format!("w{n}");
    let mut texts = vec![format!("def f () {{ ls {} }}", word(0))];
    let mut v = 1;
    ed.open(URL, &texts[0], v);
    let mut asked: Vec<(i32, &str, usize)> = vec![];
    let mut did = vec![];
    for i in 1..=k {
        let e = EVENTS[choose(n, "event")];
        did.push(e);
        let at = json!({"textDocument": {"uri": URL}, "position": {"line": 0, "character": 15}});
        let now = texts.len() - 1;
        match e {
            "edit" => {
                v += [1, 2][i % 2];
                texts.push(format!("def f () {{ ls {} }}", word(i)));
                ed.change(URL, v, &[Change { range: Some(((0, 14), (0, 16))), text: word(i) }]);
            }
            "replace" => {
                v += 1;
                texts.push(format!("def f () {{ ls {} }}", word(i)));
                ed.change(URL, v, &[Change { range: None, text: texts.last().unwrap().clone() }]);
            }
            "reopen" => {
                ed.notify("textDocument/didClose", json!({"textDocument": {"uri": URL}}));
                v = 1;
                texts.push(format!("def f () {{ ls {} }}", word(i)));
                ed.open(URL, texts.last().unwrap(), v);
            }
            "save" => ed.save(URL),
            "hover" => asked.push((ed.ask("textDocument/hover", at), e, now)),
            "complete" => asked.push((ed.ask("textDocument/completion", at), e, now)),
            "unknown" => asked.push((ed.ask("textDocument/foldingRange", json!({"textDocument": {"uri": URL}})), e, now)),
            "elsewhere" => asked.push((ed.ask("textDocument/hover", json!({"textDocument": {"uri": "file:///tmp/nosuch/none.ogma"}, "position": {"line": 3, "character": 15}})), e, now)),
            _ => asked.push((ed.ask("textDocument/hover", json!({"position": 3})), e, now)),
        }
    }
    for (r, (id, e, from)) in ed.answers(asked.len()).into_iter().zip(&asked) {
        check!(r.id == RequestId::from(*id), "{did:?}: request {id} has no answer: {r:?}");
        match *e {
            "hover" => {
                let s = r.result.as_ref().and_then(|v| v.pointer("/contents")).and_then(|v| v.as_str()).unwrap_or("").to_string();
                let ok = texts[*from..].iter().any(|t| s.starts_with(&format!("`{}`", &t[14..16])));
                check!(ok, "{did:?}: the server shows {r:?} when the text was, or became, {:?}", &texts[*from..]);
            }
            "complete" => check!(r.error.is_none() && r.result.is_some(), "{did:?}: {r:?}"),
            "elsewhere" => check!(r.error.is_none() && r.result.as_ref().is_none_or(|v| v.is_null()), "{did:?}: {r:?}"),
            _ => check!(r.error.is_some(), "{did:?}: {e} is answered with {r:?}"),
        }
    }
    let s = ed.hover(URL, 0, 15);
    let last = texts.last().unwrap();
    check!(s.as_ref().is_some_and(|s| s.starts_with(&format!("`{}`", &last[14..16]))), "{did:?}: the server shows {s:?} for {last:?}");
    // what is saved is defined
    ed.save(URL);
    let s = ed.complete(URL, 0, 11);
    check!(s.as_ref().is_some_and(|s| s.iter().any(|x| x == "f")), "{did:?}: the saved definition is not offered, but {}", brief(&s));
    ed.end();
}
pub fn c56(cx: &mut Ctx) {
    let (p, l) = cx.pick((3, 1), (6, 2));
    cx.explore(explore("one edit"), || edits(4, 1, 6, 99));
    cx.explore(explore("edits"), || edits(2, 2, p, l));
    if cx.pick(false, true) {
        cx.explore(explore("three edits"), || edits(1, 3, 2, 1));
    }
    let (n, k) = cx.pick((9, 4), (9, 5));
    cx.explore(explore("events"), || events(n, k));
    let (n, k, b) = cx.pick((6, 2, 2), (6, 3, 2));
    cx.explore(Explore::new("events, other schedules").delays().bound(b).steps(3_000_000), || events(n, k));
}
