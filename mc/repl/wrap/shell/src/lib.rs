//! `/repo/ogma-shell`, see build.rs.
#![allow(clippy::all, missing_docs)]
include!(concat!(env!("OUT_DIR"), "/shell.rs"));
