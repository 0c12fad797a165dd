//! Stand-in for `fastrand` 1: a fixed sequence.
use std::cell::{Cell, RefCell};
pub struct Rng(Cell<u64>);
thread_local!(
    /// What is drawn, in turn, and whom to tell of each draw.
    static SCRIPT: RefCell<(Vec<f64>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static TOLD: Cell<Option<fn()>> = const { Cell::new(None) };
);
/// From here on these numbers are drawn, over and over; with none, it is the fixed sequence again.
pub fn script(draws: Vec<f64>, told: Option<fn()>) {
    TOLD.with(|t| t.set(told));
    SCRIPT.with(|s| *s.borrow_mut() = (draws, 0));
}
fn next(s: &Cell<u64>) -> f64 {
    if let Some(f) = TOLD.with(|t| t.get()) {
        f()
    }
    let scripted = SCRIPT.with(|s| {
        let (v, i) = &mut *s.borrow_mut();
        let x = v.get(*i % v.len().max(1)).copied();
        *i += 1;
        x
    });
    if let Some(x) = scripted {
        return x;
    }
    let mut x = s.get();
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    s.set(x);
    (x >> 11) as f64 / (1u64 << 53) as f64
}
impl Rng {
    pub fn new() -> Self {
        Rng(Cell::new(0x9e37_79b9_7f4a_7c15))
    }
    pub fn f64(&self) -> f64 {
        next(&self.0)
    }
}
thread_local!(static G: Cell<u64> = const { Cell::new(0x9e37_79b9_7f4a_7c15) });
pub fn f64() -> f64 {
    G.with(next)
}
fn within(lo: std::ops::Bound<&u64>, hi: std::ops::Bound<&u64>, r: u64) -> u64 {
    use std::ops::Bound::*;
    let lo = match lo {
        Included(x) => *x,
        Excluded(x) => *x + 1,
        Unbounded => 0,
    };
    let hi = match hi {
        Included(x) => *x,
        Excluded(x) => *x - 1,
        Unbounded => u64::MAX,
    };
    match (hi - lo).checked_add(1) {
        Some(n) => lo + r % n,
        None => r,
    }
}
fn bits() -> u64 {
    G.with(|g| {
        next(g);
        g.get().wrapping_mul(0x2545_f491_4f6c_dd1d)
    })
}
pub fn u64(r: impl std::ops::RangeBounds<u64>) -> u64 {
    within(r.start_bound(), r.end_bound(), bits())
}
pub fn bool() -> bool {
    bits() & 1 == 1
}
