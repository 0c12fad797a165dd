//! `crossbeam::thread::scope` over the scoped threads of the facade.
use mc_std::thread as th;
use std::io;
use std::marker::PhantomData;

pub struct Scope<'env> {
    inner: *const (),
    _m: PhantomData<&'env mut &'env ()>,
}
unsafe impl Sync for Scope<'_> {}
unsafe impl Send for Scope<'_> {}

pub type ScopedJoinHandle<'scope, T> = th::ScopedJoinHandle<'scope, T>;

impl<'env> Scope<'env> {
    fn get(&self) -> &'env th::Scope<'env, 'env> {
        // SAFETY: lives until `scope` returns
        unsafe { &*(self.inner as *const th::Scope<'env, 'env>) }
    }
    pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce(&Scope<'env>) -> T + Send + 'env,
        T: Send + 'env,
    {
        self.builder().spawn(f).unwrap()
    }
    pub fn builder<'scope>(&'scope self) -> ScopedThreadBuilder<'scope, 'env> {
        ScopedThreadBuilder { scope: self, name: None }
    }
}
pub struct ScopedThreadBuilder<'scope, 'env> {
    scope: &'scope Scope<'env>,
    name: Option<String>,
}
impl<'scope, 'env> ScopedThreadBuilder<'scope, 'env> {
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce(&Scope<'env>) -> T + Send + 'env,
        T: Send + 'env,
    {
        let s = Scope { inner: self.scope.inner, _m: PhantomData };
        Ok(self.scope.get().spawn_named(self.name, move || f(&s)))
    }
}

pub fn scope<'env, F, R>(f: F) -> std::thread::Result<R>
where
    F: FnOnce(&Scope<'env>) -> R,
{
    let (r, panicked) = th::scope_raw(|s| {
        let s = Scope { inner: s as *const _ as *const (), _m: PhantomData };
        f(&s)
    });
    match (r, panicked) {
        (Err(e), _) => Err(e),
        (Ok(_), true) => Err(Box::new("a scoped thread panicked")),
        (Ok(v), false) => Ok(v),
    }
}
