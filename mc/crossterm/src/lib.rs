//! `crossterm` whose terminal input is a script the harness writes.
pub use crossterm_real::*;

pub mod event {
    pub use crossterm_real::event::*;
    use crossterm_real::Result;
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::io::{Error, ErrorKind};
    use std::time::Duration;

    #[derive(Default)]
    struct Script {
        todo: VecDeque<Option<Event>>,
        /// `read`s which returned something
        reads: usize,
        /// what to return when the script is over: block, or fail for ever
        eof: bool,
    }

    thread_local! {
        static SCRIPT: RefCell<Script> = RefCell::default();
    }

    /// Start a new script (`None` is a read error). All tasks of an execution share it.
    pub fn mc_script(s: impl IntoIterator<Item = Option<Event>>, eof: bool) {
        SCRIPT.with(|x| *x.borrow_mut() = Script { todo: s.into_iter().collect(), reads: 0, eof });
    }
    /// The user does one more thing.
    pub fn mc_push(e: Option<Event>) {
        SCRIPT.with(|x| x.borrow_mut().todo.push_back(e));
    }
    pub fn mc_reads() -> usize {
        SCRIPT.with(|x| x.borrow().reads)
    }
    /// What has not been read.
    pub fn mc_rest() -> Vec<Option<Event>> {
        SCRIPT.with(|x| x.borrow().todo.iter().cloned().collect())
    }
    pub fn mc_left() -> usize {
        SCRIPT.with(|x| x.borrow().todo.len())
    }

    fn avail() -> bool {
        SCRIPT.with(|x| {
            let x = x.borrow();
            !x.todo.is_empty() || x.eof
        })
    }

    pub fn read() -> Result<Event> {
        if !mcrt::active() {
            return crossterm_real::event::read();
        }
        mcrt::block_until("terminal read", avail);
        let r = SCRIPT.with(|x| {
            let mut x = x.borrow_mut();
            x.reads += 1;
            x.todo.pop_front().unwrap_or(None)
        });
        r.ok_or_else(|| Error::new(ErrorKind::Other, "scripted read error").into())
    }

    pub fn poll(timeout: Duration) -> Result<bool> {
        if !mcrt::active() {
            return crossterm_real::event::poll(timeout);
        }
        let dl = mcrt::now().unwrap().saturating_add((timeout.as_nanos() as u64).max(1));
        Ok(mcrt::block_until_deadline("terminal poll", Some(dl), avail))
    }
}
