//! A user at a terminal.
pub use ogma_shell::mc_access::interface::*;
pub use tui::backend::{mc_cells as cells, mc_cursor as cursor, mc_draws as draws, mc_lines as lines, mc_resize as resize};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

pub const NONE: KeyModifiers = KeyModifiers::empty();
pub const SHIFT: KeyModifiers = KeyModifiers::SHIFT;
pub const ALT: KeyModifiers = KeyModifiers::ALT;
pub const CTRL: KeyModifiers = KeyModifiers::CONTROL;

pub fn key(code: KeyCode, mods: KeyModifiers) -> Event {
    Event::Key { code, mods }
}
pub fn ch(c: char) -> Event {
    key(KeyCode::Char(c), if c.is_uppercase() { SHIFT } else { NONE })
}
pub fn enter() -> Event {
    key(KeyCode::Enter, NONE)
}
pub fn quit() -> Event {
    key(KeyCode::Char('q'), ALT)
}
pub fn typed(s: &str) -> Vec<Event> {
    s.chars().map(|c| if c == '\n' { key(KeyCode::Enter, ALT) } else { ch(c) }).collect()
}
pub fn spell(e: &Event) -> String {
    match e {
        Event::Resize => "resize".into(),
        Event::Key { code, mods } => {
            let m: String = [(CTRL, "ctrl+"), (ALT, "alt+"), (SHIFT, "shift+")].iter().filter(|(k, _)| mods.contains(*k)).map(|x| x.1).collect();
            format!("{m}{code:?}")
        }
    }
}

/// What the terminal reports: asked again and again, `f` gives an event, or nothing for now.
pub struct Feed<F>(pub F);
impl<F: FnMut() -> Option<Event>> Iterator for Feed<F> {
    type Item = Event;
    fn next(&mut self) -> Option<Event> {
        (self.0)()
    }
}
/// Batches of events: a batch is there at once, the next one when the last has been shown (`idle` times
/// nothing in between). `seen(k)` is called after batch `k` has been dealt with. All tabs are closed at
/// the end.
pub fn batches(script: Vec<Vec<Event>>, idle: usize, mut seen: impl FnMut(usize)) -> impl Iterator<Item = Event> {
    let mut at = (0usize, 0usize);
    let mut wait = 0usize;
    let mut quits = 0;
    Feed(move || {
        if wait > 0 {
            wait -= 1;
            if wait > 0 {
                return None;
            }
            seen(at.0);
            at = (at.0 + 1, 0);
        }
        let Some(b) = script.get(at.0) else {
            quits += 1;
            if quits > 2000 {
                mcrt::fail("the shell does not end");
            }
            // (one at a time)
            return if quits % 2 == 1 { Some(quit()) } else { None };
        };
        let e = b.get(at.1).copied();
        at.1 += 1;
        if e.is_none() {
            wait = 1 + idle;
        }
        e
    })
}
pub fn go(w: u16, h: u16, events: impl Iterator<Item = Event>, config: impl FnMut() -> Config + 'static) -> io::Result<()> {
    tui::backend::mc_screen(w, h);
    run(events, tui::backend::CrosstermBackend::new(io::sink()), config).map(|_| ())
}
/// Shared by what the shell calls and the harness.
pub struct Shared<T>(Rc<RefCell<T>>);
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
// SAFETY: tasks of one execution share an OS thread
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Shared(Rc::new(RefCell::new(t)))
    }
    pub fn get<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(&mut self.0.borrow_mut())
    }
}
