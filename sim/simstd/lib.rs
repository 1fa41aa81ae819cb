//! std with synchronisation that tells the simulator: a task can be preempted
//! before and after every lock, unlock and atomic operation of the code under
//! test, as if its worker thread were descheduled there.  Built by build.sh and
//! passed to rustc as `std` for pica's own crates only.
#![allow(unused_imports)]
pub use ::std::*;

extern "C" {
    fn sim_preempt();
    fn sim_block(addr: usize) -> bool;
    fn sim_unblock(addr: usize);
}

fn preempt() {
    if !::std::thread::panicking() {
        unsafe { sim_preempt() }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as real;
    use ::std::time::Duration;

    fn addr<T: ?Sized>(x: &T) -> usize {
        x as *const T as *const u8 as usize
    }

    /// Announces a release once the guard itself is gone.
    struct Release(usize);
    impl Drop for Release {
        fn drop(&mut self) {
            unsafe { super::sim_unblock(self.0) };
            super::preempt();
        }
    }

    pub struct Mutex<T: ?Sized>(real::Mutex<T>);
    pub struct MutexGuard<'a, T: ?Sized + 'a> {
        inner: real::MutexGuard<'a, T>,
        release: Release,
    }

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(real::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            super::preempt();
            loop {
                match self.try_now() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => {
                        if !unsafe { super::sim_block(addr(self)) } {
                            let a = addr(self);
                            return match self.0.lock() {
                                Ok(inner) => Ok(MutexGuard { inner, release: Release(a) }),
                                Err(e) => Err(PoisonError::new(MutexGuard { inner: e.into_inner(), release: Release(a) })),
                            };
                        }
                    }
                }
            }
        }
        fn try_now(&self) -> TryLockResult<MutexGuard<'_, T>> {
            let a = addr(self);
            match self.0.try_lock() {
                Ok(inner) => Ok(MutexGuard { inner, release: Release(a) }),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => {
                    Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { inner: e.into_inner(), release: Release(a) })))
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            super::preempt();
            self.try_now()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.inner
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.inner
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    pub struct RwLock<T: ?Sized>(real::RwLock<T>);
    macro_rules! rw_guard {
        ($name:ident) => {
            pub struct $name<'a, T: ?Sized + 'a> {
                inner: real::$name<'a, T>,
                release: Release,
            }
            impl<T: ?Sized> Deref for $name<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.inner
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    rw_guard!(RwLockReadGuard);
    rw_guard!(RwLockWriteGuard);
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.inner
        }
    }
    macro_rules! rw_lock {
        ($lock:ident, $try:ident, $guard:ident) => {
            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
                super::preempt();
                let a = addr(self);
                loop {
                    match self.0.$try() {
                        Ok(inner) => return Ok($guard { inner, release: Release(a) }),
                        Err(TryLockError::Poisoned(e)) => {
                            return Err(PoisonError::new($guard { inner: e.into_inner(), release: Release(a) }))
                        }
                        Err(TryLockError::WouldBlock) => {
                            if !unsafe { super::sim_block(a) } {
                                return match self.0.$lock() {
                                    Ok(inner) => Ok($guard { inner, release: Release(a) }),
                                    Err(e) => Err(PoisonError::new($guard { inner: e.into_inner(), release: Release(a) })),
                                };
                            }
                        }
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                super::preempt();
                let a = addr(self);
                match self.0.$try() {
                    Ok(inner) => Ok($guard { inner, release: Release(a) }),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                    Err(TryLockError::Poisoned(e)) => {
                        Err(TryLockError::Poisoned(PoisonError::new($guard { inner: e.into_inner(), release: Release(a) })))
                    }
                }
            }
        };
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock(real::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        rw_lock!(read, try_read, RwLockReadGuard);
        rw_lock!(write, try_write, RwLockWriteGuard);
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    /// Waiting on a condition: the lock is given up and taken again, which a
    /// spurious wakeup allows.
    #[derive(Default, Debug)]
    pub struct Condvar(());
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(())
        }
        pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            Ok(guard)
        }
        pub fn wait_timeout<'a, T>(&self, guard: MutexGuard<'a, T>, _: Duration) -> LockResult<(MutexGuard<'a, T>, bool)> {
            Ok((guard, false))
        }
        pub fn notify_one(&self) {}
        pub fn notify_all(&self) {}
    }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use ::std::fmt;
        use ::std::sync::atomic as real;
        macro_rules! atomic {
            ($name:ident, $t:ty, $($op:ident)*) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $name(real::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        $name(real::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        crate::preempt();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        crate::preempt();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        crate::preempt();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        crate::preempt();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        crate::preempt();
                        self.0.compare_exchange_weak(a, b, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> {
                        crate::preempt();
                        self.0.fetch_update(s, l, f)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                        crate::preempt();
                        self.0.$op(v, o)
                    })*
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        $name::new(v)
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
        }
        macro_rules! ints {
            ($($name:ident $t:ty),*) => { $(atomic!($name, $t, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);)* };
        }
        ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
              AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
        atomic!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
    }
}
