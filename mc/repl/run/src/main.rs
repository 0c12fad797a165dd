//! Model checks of the shell (`/repo/ogma-shell`) and the language server (`/repo/ogma-ls`): the real
//! crates, built against stand-ins for what is not available offline, with their threads, locks,
//! channels and clocks handed to the scheduler; the terminal and the editor are the harness.
#![allow(dead_code)]
mod props;
mod term;

fn main() {
    libs::colored::control::set_override(true);
    use props::*;
    mcrt::driver::main(&[("C50", typing::c50), ("C51", draw::c51), ("C52", show::c52), ("C53", line::c53), ("C54", whole::c54), ("C55", whole::c55), ("C56", lsp::c56), ("C57", lsp::c57), ("C58", prog::c58)])
}
