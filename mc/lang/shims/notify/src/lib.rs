//! Stand-in for `notify` 4: the watcher reports what the harness injects.
use std::path::{Path, PathBuf};
use std::cell::RefCell;
use mc_std::sync::mpsc::Sender;
use std::time::Duration;

#[derive(Debug, Clone)]
pub enum DebouncedEvent {
    NoticeWrite(PathBuf),
    NoticeRemove(PathBuf),
    Create(PathBuf),
    Write(PathBuf),
    Chmod(PathBuf),
    Remove(PathBuf),
    Rename(PathBuf, PathBuf),
    Rescan,
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("notify error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
pub struct RecommendedWatcher;
pub trait Watcher {
    fn watch<P: AsRef<Path>>(&mut self, p: P, m: RecursiveMode) -> Result<()>;
}
impl Watcher for RecommendedWatcher {
    fn watch<P: AsRef<Path>>(&mut self, _: P, _: RecursiveMode) -> Result<()> {
        Ok(())
    }
}
thread_local!(static TX: RefCell<(u64, Vec<Sender<DebouncedEvent>>)> = const { RefCell::new((0, Vec::new())) });
/// The watchers of this execution (all of its tasks run on one OS thread).
fn watchers(add: Option<Sender<DebouncedEvent>>) -> Vec<Sender<DebouncedEvent>> {
    let id = mcrt::execution();
    let (r, old) = TX.with(|t| {
        let mut t = t.borrow_mut();
        let old = if t.0 != id { std::mem::take(&mut t.1) } else { Vec::new() };
        t.0 = id;
        t.1.extend(add);
        (t.1.clone(), old)
    });
    std::mem::forget(old); // (to drop it would be visible to the scheduler)
    r
}
pub fn watcher(tx: Sender<DebouncedEvent>, _: Duration) -> Result<RecommendedWatcher> {
    watchers(Some(tx));
    Ok(RecommendedWatcher)
}
/// (of the stand-in) the file system reports `ev` to every watcher.
pub fn inject(ev: DebouncedEvent) {
    for t in watchers(None) {
        let _ = t.send(ev.clone());
    }
}
