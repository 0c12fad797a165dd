//! What every worker is doing right now, for the one who watches whether it ever ends.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub struct Slot {
    since: AtomicU64,
    what: Mutex<Vec<u32>>,
}
static ALL: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
static HARNESS: Mutex<String> = Mutex::new(String::new());
static ON: AtomicBool = AtomicBool::new(false);
fn now() -> u64 {
    static START: OnceLock<Instant> = OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
thread_local!(static MINE: Arc<Slot> = {
    let s = Arc::new(Slot { since: AtomicU64::new(0), what: Mutex::new(Vec::new()) });
    ALL.lock().unwrap().push(s.clone());
    s
});
pub fn harness(name: &str) {
    *HARNESS.lock().unwrap() = name.into();
    if let Some(f) = std::env::var_os("MC_STATE") {
        let _ = std::fs::write(f, name);
    }
}
/// One case or execution.
pub struct Beat(Option<Arc<Slot>>);
pub fn begin(what: &[u32]) -> Beat {
    if !ON.load(Ordering::Relaxed) {
        return Beat(None);
    }
    let s = MINE.with(|s| s.clone());
    {
        let mut w = s.what.lock().unwrap();
        w.clear();
        w.extend_from_slice(what);
    }
    s.since.store(now(), Ordering::Relaxed);
    Beat(Some(s))
}
impl Drop for Beat {
    fn drop(&mut self) {
        if let Some(s) = &self.0 {
            s.since.store(0, Ordering::Relaxed);
        }
    }
}
/// Call `f(harness, choices)` once something goes on for more than `secs`.
pub fn watch(secs: u64, f: impl Fn(String, Vec<u32>) + Send + 'static) {
    ON.store(true, Ordering::Relaxed);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let t = now();
        let hit = ALL.lock().unwrap().iter().find_map(|s| {
            let a = s.since.load(Ordering::Relaxed);
            (a != 0 && t > a + secs * 1000).then(|| s.what.lock().unwrap().clone())
        });
        if let Some(w) = hit {
            f(HARNESS.lock().unwrap().clone(), w);
        }
    });
}
