pub use ::std::sync::*;

use ::std::ops::{Deref, DerefMut};
use ::std::time::Duration;

pub mod atomic;
pub mod mpsc;

#[derive(Default)]
pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    g: Option<::std::sync::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(::std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.0.fmt(f)
    }
}

impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, r: LockResult<::std::sync::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard { m: self, g: Some(e.into_inner()) })),
        }
    }
    fn free(&self) -> bool {
        !matches!(self.0.try_lock(), Err(TryLockError::WouldBlock))
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if mcrt::active() && !mcrt::tearing_down() {
            mcrt::block_until("lock", || self.free());
        }
        self.wrap(self.0.lock())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        mcrt::point("try_lock");
        match self.0.try_lock() {
            Ok(g) => Ok(MutexGuard { m: self, g: Some(g) }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(p)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { m: self, g: Some(p.into_inner()) })))
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.0.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + ::std::fmt::Display> ::std::fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(::std::sync::RwLock<T>);
pub use ::std::sync::{RwLockReadGuard, RwLockWriteGuard};

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(::std::sync::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if mcrt::active() && !mcrt::tearing_down() {
            mcrt::block_until("read lock", || !matches!(self.0.try_read(), Err(TryLockError::WouldBlock)));
        }
        self.0.read()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if mcrt::active() && !mcrt::tearing_down() {
            mcrt::block_until("write lock", || !matches!(self.0.try_write(), Err(TryLockError::WouldBlock)));
        }
        self.0.write()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        mcrt::point("try_read");
        self.0.try_read()
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        mcrt::point("try_write");
        self.0.try_write()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
}
impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        self.0.fmt(f)
    }
}

/// Under the scheduler: a generation counter and the number of permits of `notify_one`.
#[derive(Default)]
pub struct Condvar {
    real: ::std::sync::Condvar,
    st: ::std::sync::Mutex<CvSt>,
}
#[derive(Default)]
struct CvSt {
    waiting: Vec<u64>,
    woken: Vec<u64>,
    next: u64,
}

impl ::std::fmt::Debug for Condvar {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Condvar")
    }
}

pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            real: ::std::sync::Condvar::new(),
            st: ::std::sync::Mutex::new(CvSt { waiting: Vec::new(), woken: Vec::new(), next: 0 }),
        }
    }
    fn wait_mc<'a, T>(&self, mut g: MutexGuard<'a, T>, d: Option<Duration>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let m = g.m;
        let me = {
            let mut s = self.st.lock().unwrap();
            s.next += 1;
            let me = s.next;
            s.waiting.push(me);
            me
        };
        g.g = None;
        drop(g);
        let dl = d.map(|d| mcrt::now().unwrap().saturating_add((d.as_nanos() as u64).max(1)));
        let woken = mcrt::block_until_deadline("condvar wait", dl, || self.st.lock().unwrap().woken.contains(&me));
        let mut s = self.st.lock().unwrap();
        s.waiting.retain(|x| *x != me);
        s.woken.retain(|x| *x != me);
        drop(s);
        (m.lock(), !woken)
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        if mcrt::active() {
            return self.wait_mc(g, None).0;
        }
        let m = g.m;
        m.wrap(self.real.wait(g.g.take().unwrap()))
    }
    pub fn wait_while<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: impl FnMut(&mut T) -> bool,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if mcrt::active() {
            let (r, t) = self.wait_mc(g, Some(d));
            return match r {
                Ok(g) => Ok((g, WaitTimeoutResult(t))),
                Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
            };
        }
        let m = g.m;
        match self.real.wait_timeout(g.g.take().unwrap(), d) {
            Ok((g, t)) => Ok((MutexGuard { m, g: Some(g) }, WaitTimeoutResult(t.timed_out()))),
            Err(e) => {
                let (g, t) = e.into_inner();
                Err(PoisonError::new((MutexGuard { m, g: Some(g) }, WaitTimeoutResult(t.timed_out()))))
            }
        }
    }
    pub fn notify_one(&self) {
        mcrt::point("notify_one");
        if mcrt::active() {
            let mut s = self.st.lock().unwrap();
            if !s.waiting.is_empty() {
                let w = s.waiting.remove(0);
                s.woken.push(w);
            }
        }
        self.real.notify_one()
    }
    pub fn notify_all(&self) {
        mcrt::point("notify_all");
        if mcrt::active() {
            let mut s = self.st.lock().unwrap();
            let w = ::std::mem::take(&mut s.waiting);
            s.woken.extend(w);
        }
        self.real.notify_all()
    }
}
