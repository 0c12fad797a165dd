//! Lazily initialised statics: one value per process, but under the scheduler one value per
//! execution, so that no execution sees what another one left behind.
use std::any::Any;
use std::cell::RefCell;
#[doc(hidden)]
pub use std::sync::OnceLock;

thread_local!(static PER: RefCell<(u64, Vec<(usize, Box<dyn Any>)>)> = const { RefCell::new((0, Vec::new())) });

#[doc(hidden)]
pub fn get<T: Any>(once: &'static OnceLock<T>, key: usize, init: fn() -> T) -> &'static T {
    let id = mcrt::execution();
    if id == 0 {
        return once.get_or_init(init);
    }
    let find = || {
        PER.with(|p| {
            let mut p = p.borrow_mut();
            let old = if p.0 != id {
                p.0 = id;
                std::mem::take(&mut p.1)
            } else {
                Vec::new()
            };
            let r = p.1.iter().find(|x| x.0 == key).map(|x| {
                let r: &T = x.1.downcast_ref::<T>().unwrap();
                // SAFETY: dropped only once another execution runs on this OS thread; all tasks of
                // an execution run on one.
                unsafe { &*(r as *const T) }
            });
            drop(p);
            (r, old)
        })
    };
    if let (Some(r), _) = find() {
        return r;
    }
    let v: Box<dyn Any> = Box::new(init());
    PER.with(|p| p.borrow_mut().1.push((key, v)));
    find().0.unwrap()
}

#[macro_export]
macro_rules! lazy_static {
    ($($(#[$m:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr;)*) => { $(
        #[allow(non_camel_case_types)]
        $(#[$m])*
        $v struct $n { _p: () }
        $(#[$m])*
        $v static $n: $n = $n { _p: () };
        impl ::core::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                static ONCE: $crate::OnceLock<$t> = $crate::OnceLock::new();
                fn init() -> $t {
                    $e
                }
                $crate::get(&ONCE, &ONCE as *const _ as usize, init)
            }
        }
    )* };
}
