//! What the harness uses of the shell.
use super::*;
pub use super::interface::mc_access as interface;

pub fn highlight(line: &str, wsp: &Workspace) -> String {
    syntax_highlight(line, wsp)
}
pub fn complete(wsp: Workspace, wd: PathBuf, input: &str, cursor: usize, word: usize) -> Vec<String> {
    Completer::init(wsp, wd).iter().flat_map(|c| c.complete(input, cursor, word)).map(|c| c.value).collect()
}
