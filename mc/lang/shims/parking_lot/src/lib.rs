//! `parking_lot` over the locks of the facade: no poisoning, and every lock operation is visible to
//! the scheduler.
use mc_std::sync as s;
pub use mc_std::sync::MutexGuard;
use std::fmt;

#[derive(Default)]
pub struct Mutex<T: ?Sized>(s::Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(s::Mutex::new(t))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
/// A lock of the facade, or, when made by [`const_rwlock`], a process-wide one: such a static is shared
/// by executions which are explored side by side, so it stays an ordinary lock (it guards data which is
/// initialised once, and no scheduling point lies within its critical sections).
pub struct RwLock<T: ?Sized> {
    global: bool,
    real: std::sync::RwLock<()>,
    model: s::RwLock<()>,
    data: std::cell::UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
enum Held<A, B> {
    Real(#[allow(dead_code)] A),
    Model(#[allow(dead_code)] B),
}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a T, #[allow(dead_code)] Held<std::sync::RwLockReadGuard<'a, ()>, s::RwLockReadGuard<'a, ()>>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a mut T, #[allow(dead_code)] Held<std::sync::RwLockWriteGuard<'a, ()>, s::RwLockWriteGuard<'a, ()>>);
impl<T: ?Sized> std::ops::Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<T: ?Sized> std::ops::Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<T: ?Sized> std::ops::DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
pub const fn const_rwlock<T>(t: T) -> RwLock<T> {
    RwLock { global: true, real: std::sync::RwLock::new(()), model: s::RwLock::new(()), data: std::cell::UnsafeCell::new(t) }
}
pub const fn const_mutex<T>(t: T) -> Mutex<T> {
    Mutex::new(t)
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { global: false, real: std::sync::RwLock::new(()), model: s::RwLock::new(()), data: std::cell::UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        let h = if self.global {
            Held::Real(self.real.read().unwrap_or_else(|e| e.into_inner()))
        } else {
            Held::Model(self.model.read().unwrap_or_else(|e| e.into_inner()))
        };
        // SAFETY: guarded by the lock which has just been taken
        RwLockReadGuard(unsafe { &*self.data.get() }, h)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        let h = if self.global {
            Held::Real(self.real.write().unwrap_or_else(|e| e.into_inner()))
        } else {
            Held::Model(self.model.write().unwrap_or_else(|e| e.into_inner()))
        };
        // SAFETY: guarded by the lock which has just been taken
        RwLockWriteGuard(unsafe { &mut *self.data.get() }, h)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("RwLock").field(&&*self.read()).finish()
    }
}
/// One initialisation per execution of the model (outside the scheduler: per process).
pub struct Once(std::sync::Once, std::sync::Mutex<std::collections::BTreeSet<u64>>);
impl Once {
    pub const fn new() -> Self {
        Once(std::sync::Once::new(), std::sync::Mutex::new(std::collections::BTreeSet::new()))
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        match mcrt::execution() {
            0 => self.0.call_once(f),
            id => {
                mcrt::point("once");
                let first = {
                    let mut g = self.1.lock().unwrap();
                    while g.len() > 4096 {
                        g.pop_first();
                    }
                    g.insert(id)
                };
                if first {
                    f()
                }
            }
        }
    }
}
