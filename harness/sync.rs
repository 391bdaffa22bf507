//! Takes the place of `std::sync` in the mirrored sources: the same things, but locks and atomics
//! tell the harness' scheduler where a thread may be preempted, where it blocks and when it lets
//! others go on.  (mirror.py writes `crate::verif_sync::` for `std::sync::`.)
pub use std::sync::*;
use std::fmt;
use std::ops::{Deref, DerefMut};

extern "C" {
    /// The current thread may be preempted here.
    fn vx_yield();
    /// The current thread cannot go on before somebody calls vx_wake.
    fn vx_block();
    /// Blocked threads may try again.
    fn vx_wake();
}

pub mod atomic {
    pub use std::sync::atomic::*;
    use std::ops::Deref;
    macro_rules! shim {
        ($($n:ident $t:ty { $($f:ident)* })*) => { $(
            #[derive(Default, Debug)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(x: $t) -> Self { $n(std::sync::atomic::$n::new(x)) }
                pub fn load(&self, o: Ordering) -> $t { unsafe { super::vx_yield() }; self.0.load(o) }
                pub fn store(&self, x: $t, o: Ordering) { unsafe { super::vx_yield() }; self.0.store(x, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { unsafe { super::vx_yield() }; self.0.compare_exchange(a, b, s, f) }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                $( pub fn $f(&self, x: $t, o: Ordering) -> $t { unsafe { super::vx_yield() }; self.0.$f(x, o) } )*
            }
            impl Deref for $n { type Target = std::sync::atomic::$n; fn deref(&self) -> &Self::Target { &self.0 } }
            impl From<$t> for $n { fn from(x: $t) -> Self { Self::new(x) } }
        )* }
    }
    shim! {
        AtomicU64 u64 { swap fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor }
        AtomicI64 i64 { swap fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor }
        AtomicU32 u32 { swap fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor }
        AtomicUsize usize { swap fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor }
        AtomicBool bool { swap fetch_and fetch_or fetch_xor }
    }
}

macro_rules! guard {
    ($n:ident) => {
        pub struct $n<'a, T: ?Sized>(Option<std::sync::$n<'a, T>>);
        impl<'a, T: ?Sized> Deref for $n<'a, T> { type Target = T; fn deref(&self) -> &T { self.0.as_ref().unwrap() } }
        impl<'a, T: ?Sized> Drop for $n<'a, T> { fn drop(&mut self) { self.0.take(); unsafe { vx_wake() } } }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $n<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
    };
}
macro_rules! acquire {
    ($f:ident $t:ident $g:ident) => {
        pub fn $f(&self) -> LockResult<$g<'_, T>> {
            loop {
                unsafe { vx_yield() };
                match self.0.$t() {
                    Ok(g) => return Ok($g(Some(g))),
                    Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new($g(Some(e.into_inner())))),
                    Err(TryLockError::WouldBlock) => unsafe { vx_block() },
                }
            }
        }
        pub fn $t(&self) -> TryLockResult<$g<'_, T>> {
            unsafe { vx_yield() };
            match self.0.$t() {
                Ok(g) => Ok($g(Some(g))),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new($g(Some(e.into_inner()))))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
macro_rules! cell {
    ($n:ident) => {
        #[derive(Default)]
        pub struct $n<T: ?Sized>(std::sync::$n<T>);
        impl<T> $n<T> {
            pub const fn new(t: T) -> Self { $n(std::sync::$n::new(t)) }
            pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
        }
        impl<T> From<T> for $n<T> { fn from(t: T) -> Self { Self::new(t) } }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for $n<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
    };
}
guard!(RwLockReadGuard);
guard!(RwLockWriteGuard);
guard!(MutexGuard);
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() } }
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() } }
cell!(RwLock);
cell!(Mutex);
impl<T: ?Sized> RwLock<T> {
    acquire!(read try_read RwLockReadGuard);
    acquire!(write try_write RwLockWriteGuard);
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
    pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
}
impl<T: ?Sized> Mutex<T> {
    acquire!(lock try_lock MutexGuard);
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
    pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
}
