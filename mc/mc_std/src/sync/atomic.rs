pub use ::std::sync::atomic::*;
use ::std::sync::atomic as real;

macro_rules! base {
    ($t:ident, $v:ty) => {
        #[repr(transparent)]
        pub struct $t(real::$t);
        impl Default for $t {
            fn default() -> Self {
                Self::new(Default::default())
            }
        }
        impl ::std::fmt::Debug for $t {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl From<$v> for $t {
            fn from(v: $v) -> Self {
                Self::new(v)
            }
        }
        impl $t {
            pub const fn new(v: $v) -> Self {
                $t(real::$t::new(v))
            }
            pub fn load(&self, o: Ordering) -> $v {
                mcrt::point("load");
                self.0.load(o)
            }
            pub fn store(&self, v: $v, o: Ordering) {
                mcrt::point("store");
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $v, o: Ordering) -> $v {
                mcrt::point("swap");
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $v, b: $v, o: Ordering, p: Ordering) -> Result<$v, $v> {
                mcrt::point("compare_exchange");
                self.0.compare_exchange(a, b, o, p)
            }
            pub fn compare_exchange_weak(&self, a: $v, b: $v, o: Ordering, p: Ordering) -> Result<$v, $v> {
                mcrt::point("compare_exchange");
                self.0.compare_exchange(a, b, o, p)
            }
            pub fn fetch_update<F: FnMut($v) -> Option<$v>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$v, $v> {
                mcrt::point("fetch_update");
                self.0.fetch_update(o, p, f)
            }
            pub fn into_inner(self) -> $v {
                self.0.into_inner()
            }
            pub fn get_mut(&mut self) -> &mut $v {
                self.0.get_mut()
            }
        }
    };
}
macro_rules! ops {
    ($t:ident, $v:ty, $($m:ident)*) => {
        impl $t {
            $(pub fn $m(&self, v: $v, o: Ordering) -> $v {
                mcrt::point(stringify!($m));
                self.0.$m(v, o)
            })*
        }
    };
}
macro_rules! int {
    ($($t:ident $v:ty;)*) => { $(
        base!($t, $v);
        ops!($t, $v, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
    )* };
}
int! {
    AtomicUsize usize; AtomicIsize isize; AtomicU64 u64; AtomicI64 i64; AtomicU32 u32; AtomicI32 i32;
    AtomicU16 u16; AtomicI16 i16; AtomicU8 u8; AtomicI8 i8;
}
base!(AtomicBool, bool);
ops!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
