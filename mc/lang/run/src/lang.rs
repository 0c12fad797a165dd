//! Running expressions through the real crate.
pub use kserd::Number;
pub use libs::divvy::Str;
pub use ogma::lang::{ast::Location, Definitions, Table, Value};
pub use table::Entry;
use std::path::Path;

pub type R = Result<Value, ogma::Error>;

pub fn eval(src: &str, defs: &Definitions) -> R {
    ogma::rt::process_expression((), src, Location::Shell, defs, Path::new("."), Path::new("."))
}
pub fn eval_tab(input: &Table, src: &str, defs: &Definitions) -> R {
    ogma::rt::process_expression(input.clone(), src, Location::Shell, defs, Path::new("."), Path::new("."))
}
pub fn define(defs: &mut Definitions, src: &str) -> Result<(), String> {
    ogma::lang::process_definition(src, Location::Shell, None, defs).map(|_| ()).map_err(|e| e.to_string())
}
pub fn show(r: &R) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("ERR {}", e),
    }
}

/// The table is handed over: nobody else holds it.
pub fn eval_owned(input: Table, src: &str, defs: &Definitions) -> R {
    ogma::rt::process_expression(input, src, Location::Shell, defs, Path::new("."), Path::new("."))
}
pub fn eval_num(input: f64, src: &str, defs: &Definitions) -> R {
    ogma::rt::process_expression(Number::from(input), src, Location::Shell, defs, Path::new("."), Path::new("."))
}
pub fn eval_str(input: &str, src: &str, defs: &Definitions) -> R {
    ogma::rt::process_expression(Str::new(input), src, Location::Shell, defs, Path::new("."), Path::new("."))
}
