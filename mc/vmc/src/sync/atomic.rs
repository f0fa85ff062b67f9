pub use std::sync::atomic::*;

use crate::rt::point;
use std::fmt;
use std::sync::atomic as real;

macro_rules! common {
    ($name:ident, $t:ty) => {
        #[derive(Default)]
        #[repr(transparent)]
        pub struct $name(real::$name);
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name(real::$name::new(v))
            }
            pub fn load(&self, _: Ordering) -> $t {
                point("read an atomic");
                self.0.load(Ordering::SeqCst)
            }
            pub fn store(&self, v: $t, _: Ordering) {
                point("write an atomic");
                self.0.store(v, Ordering::SeqCst)
            }
            pub fn swap(&self, v: $t, _: Ordering) -> $t {
                point("exchange an atomic");
                self.0.swap(v, Ordering::SeqCst)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                point("compare and exchange an atomic");
                self.0.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(c, n, s, f)
            }
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                match self.compare_exchange(c, n, o, Ordering::SeqCst) {
                    Ok(x) | Err(x) => x,
                }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
                point("update an atomic");
                self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| f(x))
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
    };
}
macro_rules! fetch {
    ($name:ident, $t:ty, $($f:ident),*) => {
        impl $name { $(
            pub fn $f(&self, v: $t, _: Ordering) -> $t {
                point("update an atomic");
                self.0.$f(v, Ordering::SeqCst)
            }
        )* }
    };
}
common!(AtomicBool, bool);
fetch!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
impl AtomicBool {
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}
macro_rules! ints {
    ($($name:ident $t:ty),*) => { $(
        common!($name, $t);
        fetch!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);
    )* };
}
ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

pub fn fence(_: Ordering) {
    point("a fence");
}
