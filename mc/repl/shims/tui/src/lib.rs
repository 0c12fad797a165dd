//! `tui` whose terminal is a buffer the harness looks at.
pub use tui_real::*;

pub mod backend {
    pub use tui_real::backend::*;
    use std::cell::RefCell;
    use std::io;
    use tui_real::{buffer::Cell, layout::Rect};

    pub struct Screen {
        back: TestBackend,
        /// what has been drawn, that is: how often
        pub draws: u64,
    }
    thread_local!(static SCREEN: RefCell<Option<Screen>> = const { RefCell::new(None) });
    /// A terminal of this size; all tasks of an execution share it.
    pub fn mc_screen(w: u16, h: u16) {
        SCREEN.with(|s| *s.borrow_mut() = Some(Screen { back: TestBackend::new(w, h), draws: 0 }));
    }
    pub fn mc_resize(w: u16, h: u16) {
        with(|s| s.back.resize(w, h));
    }
    fn with<R>(f: impl FnOnce(&mut Screen) -> R) -> R {
        SCREEN.with(|s| f(s.borrow_mut().as_mut().expect("a screen")))
    }
    pub fn mc_draws() -> u64 {
        with(|s| s.draws)
    }
    /// The characters of each line.
    pub fn mc_lines() -> Vec<String> {
        with(|s| {
            let b = s.back.buffer();
            let w = b.area.width.max(1) as usize;
            b.content.chunks(w).map(|l| l.iter().map(|c| c.symbol.as_str()).collect()).collect()
        })
    }
    pub fn mc_cells() -> Vec<Vec<Cell>> {
        with(|s| {
            let b = s.back.buffer();
            let w = b.area.width.max(1) as usize;
            b.content.chunks(w).map(|l| l.to_vec()).collect()
        })
    }
    pub fn mc_cursor() -> (u16, u16) {
        with(|s| s.back.get_cursor().unwrap())
    }

    /// The real one writes to the terminal.
    pub struct CrosstermBackend<W>(#[allow(dead_code)] W);
    impl<W: io::Write> CrosstermBackend<W> {
        pub fn new(w: W) -> Self {
            CrosstermBackend(w)
        }
    }
    impl<W> Backend for CrosstermBackend<W> {
        fn draw<'a, I: Iterator<Item = (u16, u16, &'a Cell)>>(&mut self, content: I) -> io::Result<()> {
            with(|s| s.back.draw(content))
        }
        fn hide_cursor(&mut self) -> io::Result<()> {
            with(|s| s.back.hide_cursor())
        }
        fn show_cursor(&mut self) -> io::Result<()> {
            with(|s| s.back.show_cursor())
        }
        fn get_cursor(&mut self) -> io::Result<(u16, u16)> {
            with(|s| s.back.get_cursor())
        }
        fn set_cursor(&mut self, x: u16, y: u16) -> io::Result<()> {
            with(|s| s.back.set_cursor(x, y))
        }
        fn clear(&mut self) -> io::Result<()> {
            with(|s| s.back.clear())
        }
        fn size(&self) -> io::Result<Rect> {
            with(|s| s.back.size())
        }
        fn flush(&mut self) -> io::Result<()> {
            with(|s| {
                s.draws += 1;
                s.back.flush()
            })
        }
    }
}
