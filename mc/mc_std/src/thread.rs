pub use ::std::thread::*;

use ::std::cell::UnsafeCell;
use ::std::io;
use ::std::marker::PhantomData;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::Arc;
use ::std::time::Duration;

pub struct Packet<T>(UnsafeCell<Option<::std::thread::Result<T>>>);
// SAFETY: tasks of one execution never run at the same time.
unsafe impl<T> Sync for Packet<T> {}
unsafe impl<T> Send for Packet<T> {}

pub struct JoinHandle<T>(Inner<T>);

enum Inner<T> {
    Real(::std::thread::JoinHandle<T>),
    Task(usize, Arc<Packet<T>>, ::std::thread::Thread),
    Ready(T, ::std::thread::Thread),
    Never(::std::thread::Thread),
}

/// A handle of a thread which has already run.
#[doc(hidden)]
pub fn never<T>() -> JoinHandle<T> {
    JoinHandle(Inner::Never(::std::thread::current()))
}
#[doc(hidden)]
pub fn ready<T>(t: T) -> JoinHandle<T> {
    JoinHandle(Inner::Ready(t, ::std::thread::current()))
}

impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle")
    }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        match self.0 {
            Inner::Real(h) => h.join(),
            Inner::Ready(t, _) => Ok(t),
            Inner::Never(_) => Err(Box::new("never ran")),
            Inner::Task(id, p, _) => {
                mcrt::block_until("join", || mcrt::task_done(id));
                // SAFETY: the task has ended
                unsafe { (*p.0.get()).take() }.unwrap_or_else(|| Err(Box::new("task was torn down")))
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Inner::Real(h) => h.is_finished(),
            Inner::Ready(..) => true,
            Inner::Never(_) => false,
            Inner::Task(id, ..) => {
                mcrt::point("is_finished");
                mcrt::task_done(*id)
            }
        }
    }
    pub fn thread(&self) -> &::std::thread::Thread {
        match &self.0 {
            Inner::Real(h) => h.thread(),
            Inner::Task(_, _, t) | Inner::Ready(_, t) | Inner::Never(t) => t,
        }
    }
}

/// Run `f` as a task, its result (or panic) kept in the packet. The scheduler keeps the book of
/// panicked tasks.
unsafe fn spawn_packet<'a, T: 'a>(name: Option<String>, f: impl FnOnce() -> T + 'a) -> (usize, Arc<Packet<T>>) {
    let p = Arc::new(Packet(UnsafeCell::new(None)));
    let q = p.clone();
    let id = mcrt::spawn_unchecked(
        name,
        Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => *q.0.get() = Some(Ok(v)),
                Err(e) => {
                    if mcrt::record_panic(&*e) {
                        *q.0.get() = Some(Err(e));
                    } else {
                        resume_unwind(e);
                    }
                }
            }
        }),
    );
    (id, p)
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}

impl Builder {
    pub fn new() -> Self {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if mcrt::active() {
            // SAFETY: 'static
            let (id, p) = unsafe { spawn_packet(self.name, f) };
            Ok(JoinHandle(Inner::Task(id, p, ::std::thread::current())))
        } else {
            let mut b = ::std::thread::Builder::new();
            if let Some(n) = self.name {
                b = b.name(n);
            }
            if let Some(n) = self.stack {
                b = b.stack_size(n);
            }
            Ok(JoinHandle(Inner::Real(b.spawn(f)?)))
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub fn sleep(d: Duration) {
    if !mcrt::sleep(d) {
        ::std::thread::sleep(d)
    }
}

pub fn yield_now() {
    if mcrt::active() {
        mcrt::yield_now("yield_now")
    } else {
        ::std::thread::yield_now()
    }
}

// ---- scoped threads

pub struct Scope<'scope, 'env: 'scope> {
    ids: ::std::sync::Mutex<Vec<usize>>,
    panicked: Arc<::std::sync::atomic::AtomicBool>,
    real: ::std::sync::Mutex<Vec<::std::thread::JoinHandle<()>>>,
    _m: PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>,
}

pub struct ScopedJoinHandle<'scope, T> {
    id: Option<usize>,
    p: Arc<Packet<T>>,
    done: Arc<(::std::sync::Mutex<bool>, ::std::sync::Condvar)>,
    _m: PhantomData<&'scope ()>,
}

unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
unsafe impl<T> Sync for ScopedJoinHandle<'_, T> {}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        match self.id {
            Some(id) => mcrt::block_until("join", || mcrt::task_done(id)),
            None => {
                let mut g = self.done.0.lock().unwrap();
                while !*g {
                    g = self.done.1.wait(g).unwrap();
                }
            }
        }
        // SAFETY: the thread has ended
        unsafe { (*self.p.0.get()).take() }.unwrap_or_else(|| Err(Box::new("gone")))
    }
    pub fn is_finished(&self) -> bool {
        match self.id {
            Some(id) => {
                mcrt::point("is_finished");
                mcrt::task_done(id)
            }
            None => *self.done.0.lock().unwrap(),
        }
    }
}

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.spawn_named(None, f)
    }
    #[doc(hidden)]
    pub fn spawn_named<F, T>(&'scope self, name: Option<String>, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let done = Arc::new((::std::sync::Mutex::new(false), ::std::sync::Condvar::new()));
        if mcrt::active() {
            let flag = self.panicked.clone();
            // SAFETY: `scope` joins the task before it returns
            let (id, p) = unsafe {
                spawn_packet(
                    name,
                    move || match catch_unwind(AssertUnwindSafe(f)) {
                        Ok(v) => v,
                        Err(e) => {
                            flag.store(true, ::std::sync::atomic::Ordering::Relaxed);
                            resume_unwind(e)
                        }
                    },
                )
            };
            self.ids.lock().unwrap().push(id);
            ScopedJoinHandle { id: Some(id), p, done, _m: PhantomData }
        } else {
            let p = Arc::new(Packet(UnsafeCell::new(None)));
            let q = p.clone();
            let d = done.clone();
            let flag = self.panicked.clone();
            let g: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
                let q = q;
                let r = catch_unwind(AssertUnwindSafe(f));
                if r.is_err() {
                    flag.store(true, ::std::sync::atomic::Ordering::Relaxed);
                }
                // SAFETY: read only after `done`
                unsafe { *q.0.get() = Some(r) };
                *d.0.lock().unwrap() = true;
                d.1.notify_all();
            });
            // SAFETY: `scope` joins the thread before it returns
            let g: Box<dyn FnOnce() + Send + 'static> = unsafe { ::std::mem::transmute(g) };
            let h = ::std::thread::spawn(g);
            self.real.lock().unwrap().push(h);
            ScopedJoinHandle { id: None, p, done, _m: PhantomData }
        }
    }
}

/// Returns the result and whether a thread of the scope panicked.
#[doc(hidden)]
pub fn scope_raw<'env, F, T>(f: F) -> (::std::thread::Result<T>, bool)
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope {
        ids: Default::default(),
        panicked: Default::default(),
        real: Default::default(),
        _m: PhantomData,
    };
    // SAFETY: as std's: the scope outlives its threads
    let sr: &Scope<'_, 'env> = unsafe { &*(&s as *const Scope<'_, 'env>) };
    let r = catch_unwind(AssertUnwindSafe(|| f(sr)));
    if mcrt::active() && !mcrt::tearing_down() {
        mcrt::block_until("scope end", || {
            s.ids.lock().unwrap().iter().all(|&i| mcrt::task_done(i))
        });
    }
    loop {
        let hs = ::std::mem::take(&mut *s.real.lock().unwrap());
        if hs.is_empty() {
            break;
        }
        for h in hs {
            let _ = h.join();
        }
    }
    let p = s.panicked.load(::std::sync::atomic::Ordering::Relaxed);
    (r, p)
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    match scope_raw(f) {
        (Err(e), _) => resume_unwind(e),
        (Ok(_), true) => panic!("a scoped thread panicked"),
        (Ok(v), false) => v,
    }
}
