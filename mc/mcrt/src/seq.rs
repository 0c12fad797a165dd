//! Exhaustive enumeration for sequential code: all sequences, all products.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Debug, Clone)]
pub struct SeqReport {
    pub name: String,
    /// Operation sequences (or cases) run to completion.
    pub cases: u64,
    /// Operations executed (each one followed by a comparison with the model).
    pub transitions: u64,
    pub capped: bool,
    pub failure: Option<(Vec<u32>, String)>,
    pub wall: Duration,
}

/// Run `f(i)` for each `i` in `0..n`, in parallel. `f` returns the number of operations it ran. The
/// smallest failing case is reported.
pub fn cases(name: &str, n: u64, cap: Duration, f: impl Fn(u64) -> Result<u64, String> + Sync) -> SeqReport {
    crate::install_hook();
    crate::beat::harness(name);
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let done = AtomicU64::new(0);
    let trans = AtomicU64::new(0);
    let chunk = (n / (crate::workers() as u64 * 64)).clamp(1, 4096);
    std::thread::scope(|s| {
        for _ in 0..crate::workers() {
            s.spawn(|| {
                crate::QUIET.with(|q| q.set(true));
                loop {
                    let a = next.fetch_add(chunk, Ordering::Relaxed);
                    if a >= n || a > best.load(Ordering::Relaxed) || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if start.elapsed() > cap {
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    let mut t = 0;
                    let mut d = 0;
                    for i in a..(a + chunk).min(n) {
                        let _beat = crate::beat::begin(&[i as u32, (i >> 32) as u32]);
                        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i))) {
                            Ok(r) => r,
                            Err(p) => Err(format!("panic: {}", crate::panic_message(&*p))),
                        };
                        d += 1;
                        match r {
                            Ok(x) => t += x,
                            Err(m) => {
                                let mut g = fail.lock().unwrap();
                                if g.as_ref().map_or(true, |(j, _)| i < *j) {
                                    *g = Some((i, m));
                                    best.store(i, Ordering::Relaxed);
                                }
                                break;
                            }
                        }
                    }
                    done.fetch_add(d, Ordering::Relaxed);
                    trans.fetch_add(t, Ordering::Relaxed);
                }
            });
        }
    });
    SeqReport {
        name: name.into(),
        cases: done.into_inner(),
        transitions: trans.into_inner(),
        capped: stop.into_inner(),
        failure: fail.into_inner().unwrap().map(|(i, m)| (vec![i as u32, (i >> 32) as u32], m)),
        wall: start.elapsed(),
    }
}

/// The digits of `i` in base `k`, most significant first, `depth` of them.
pub fn digits(mut i: u64, k: usize, depth: usize) -> Vec<u32> {
    let mut v = vec![0; depth];
    for d in v.iter_mut().rev() {
        *d = (i % k as u64) as u32;
        i /= k as u64;
    }
    v
}

/// All sequences of exactly `depth` operations out of `k` (each of their prefixes is checked on the
/// way: `f` compares with the model after every operation). The reported failure is the shortest
/// prefix which fails, of the smallest failing sequence.
pub fn sequences(
    name: &str,
    k: usize,
    depth: usize,
    cap: Duration,
    f: impl Fn(&[u32]) -> Result<(), String> + Sync,
) -> SeqReport {
    let n = (k as u64).pow(depth as u32);
    let mut r = cases(name, n, cap, |i| {
        let s = digits(i, k, depth);
        f(&s).map(|_| depth as u64)
    });
    if let Some((i, m)) = r.failure.take() {
        let i = i[0] as u64 | (i[1] as u64) << 32;
        let s = digits(i, k, depth);
        // shortest failing prefix
        let run = |s: &[u32]| match crate::catch(|| f(s)) {
            Ok(r) => r.err(),
            Err(p) => Some(format!("panic: {p}")),
        };
        let mut out = (s.clone(), m);
        for l in 0..=s.len() {
            if let Some(m) = run(&s[..l]) {
                out = (s[..l].to_vec(), m);
                break;
            }
        }
        if run(&out.0).is_none() {
            crate::engine_error(&format!("{name}: failure does not replay: {out:?}"));
        }
        r.failure = Some(out);
    }
    r
}
