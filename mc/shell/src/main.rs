//! Model checks of the components of the shell (`/repo/ogma-shell/interface/*`) and of the command
//! line (`/repo/bin/app.rs`): the real source files, unmodified, with `std`, `crossbeam` and
//! `crossterm` resolved to facades which hand every visible operation to the scheduler.
#![allow(dead_code, unused_imports)]
extern crate mc_std as std;

extern crate self as libs;
pub use crossbeam;

mod interface {
    #[path = "/repo/ogma-shell/interface/completions.rs"]
    pub mod completions;
    #[path = "/repo/ogma-shell/interface/events.rs"]
    pub mod events;
    #[path = "/repo/ogma-shell/interface/history.rs"]
    pub mod history;
    #[path = "/repo/ogma-shell/interface/input.rs"]
    pub mod input;
    #[path = "/repo/ogma-shell/interface/theme.rs"]
    pub mod theme;

    pub use input::InputBuffer;
}

#[path = "/repo/bin/app.rs"]
mod app;

mod props {
    pub mod cli;
    pub mod completions;
    pub mod events;
    pub mod history;
    pub mod input;
    pub mod theme;
}

fn main() {
    mcrt::driver::main(&[
        ("C01", props::input::edit), // input-edit
        ("C02", props::input::words), // input-word-motion
        ("C03", props::input::positions), // input-positions
        ("C04", props::input::flag), // input-change-flag
        ("C05", props::history::navigation), // history-navigation
        ("C06", props::history::retention), // history-retention
        ("C07", props::completions::freshness), // completion-freshness
        ("C08", props::completions::liveness), // completion-liveness
        ("C09", props::completions::isolation), // completion-isolation
        ("C10", props::completions::shutdown), // completion-shutdown
        ("C11", props::completions::context), // completion-context
        ("C12", props::completions::selection), // completion-selection
        ("C13", props::events::delivery), // events-delivery
        ("C14", props::events::nonblocking), // events-nonblocking
        ("C15", props::events::shutdown), // events-shutdown
        ("C16", props::theme::mapping), // theme-mapping
        ("C17", props::cli::parse), // cli-parse
    ])
}
