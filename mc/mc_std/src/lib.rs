//! A facade of `std`: everything is re-exported, and what is a visible operation for the scheduler
//! (threads, locks, atomics, `mpsc`, sleeping) goes through `mcrt`. A crate root which says
//! `extern crate mc_std as std;` makes every `std::` path of its modules resolve here.
pub use ::std::*;

pub mod sync;
pub mod thread;
