//! Stand-in for `backtrace`: no stack is captured (ogma captures one for each of the internal errors
//! which its type inference provokes and drops again, which would be most of the run time).
use std::fmt;
#[derive(Clone, Default)]
pub struct Backtrace;
impl Backtrace {
    pub fn new() -> Self {
        Backtrace
    }
    pub fn new_unresolved() -> Self {
        Backtrace
    }
    pub fn resolve(&mut self) {}
}
impl fmt::Debug for Backtrace {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("<backtrace>")
    }
}
