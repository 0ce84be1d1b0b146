//! std::sync with scheduling points.
pub use ::std::sync::*;
use crate::sched::{block_on, controlled, sync_point, unblock};
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;

fn id<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    inner: real::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
    g: Option<real::MutexGuard<'a, T>>,
    m: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { inner: real::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { g: Some(g), m: self }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if !controlled() {
            return match self.inner.lock() {
                Ok(g) => Ok(self.wrap(g)),
                Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
            };
        }
        sync_point();
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(self.wrap(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(self.wrap(e.into_inner()))),
                Err(TryLockError::WouldBlock) => block_on(id(self)),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sync_point();
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(self.wrap(e.into_inner())))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        sync_point();
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        if let Some(g) = self.g.take() {
            drop(g);
            unblock(id(self.m));
            if !::std::thread::panicking() {
                sync_point();
            }
        }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    inner: real::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<real::RwLockReadGuard<'a, T>>,
    m: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<real::RwLockWriteGuard<'a, T>>,
    m: &'a RwLock<T>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { inner: real::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
macro_rules! rw {
    ($lock:ident, $try:ident, $guard:ident) => {
        impl<T: ?Sized> RwLock<T> {
            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
                if !controlled() {
                    return match self.inner.$lock() {
                        Ok(g) => Ok($guard { g: Some(g), m: self }),
                        Err(e) => Err(PoisonError::new($guard { g: Some(e.into_inner()), m: self })),
                    };
                }
                sync_point();
                loop {
                    match self.inner.$try() {
                        Ok(g) => return Ok($guard { g: Some(g), m: self }),
                        Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new($guard { g: Some(e.into_inner()), m: self })),
                        Err(TryLockError::WouldBlock) => block_on(id(self)),
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                sync_point();
                match self.inner.$try() {
                    Ok(g) => Ok($guard { g: Some(g), m: self }),
                    Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new($guard { g: Some(e.into_inner()), m: self }))),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                }
            }
        }
        impl<'a, T: ?Sized> Deref for $guard<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.g.as_ref().unwrap()
            }
        }
        impl<'a, T: ?Sized> Drop for $guard<'a, T> {
            fn drop(&mut self) {
                if let Some(g) = self.g.take() {
                    drop(g);
                    unblock(id(self.m));
                    if !::std::thread::panicking() {
                        sync_point();
                    }
                }
            }
        }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $guard<'a, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
rw!(read, try_read, RwLockReadGuard);
rw!(write, try_write, RwLockWriteGuard);
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}

// ---------------------------------------------------------------- Condvar
/// Every wake-up wakes everybody: the extra ones are the spurious wake-ups std allows.
#[derive(Debug, Default)]
pub struct Condvar {
    inner: real::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { inner: real::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = guard.m;
        let g = guard.g.take().unwrap();
        drop(guard);
        if !controlled() {
            return match self.inner.wait(g) {
                Ok(g) => Ok(m.wrap(g)),
                Err(e) => Err(PoisonError::new(m.wrap(e.into_inner()))),
            };
        }
        drop(g);
        unblock(id(m));
        block_on(id(self));
        m.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn notify_one(&self) {
        self.inner.notify_one();
        unblock(id(self));
        sync_point();
    }
    pub fn notify_all(&self) {
        self.inner.notify_all();
        unblock(id(self));
        sync_point();
    }
}

// ---------------------------------------------------------------- Once, OnceLock, LazyLock
/// A gate: at most one thread is inside.
struct Gate(Mutex<()>);
impl Gate {
    const fn new() -> Self {
        Gate(Mutex::new(()))
    }
    fn enter(&self) -> MutexGuard<'_, ()> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
pub struct OnceLock<T> {
    cell: real::OnceLock<T>,
    gate: Gate,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { cell: real::OnceLock::new(), gate: Gate::new() }
    }
    pub fn get(&self) -> Option<&T> {
        sync_point();
        self.cell.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.cell.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        sync_point();
        let _g = self.gate.enter();
        self.cell.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if let Some(t) = self.get() {
            return t;
        }
        let _g = self.gate.enter();
        if self.cell.get().is_none() {
            let t = f();
            let _ = self.cell.set(t);
        }
        self.cell.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.cell.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.cell.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: real::Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: real::Mutex::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            let f = this.f.lock().unwrap_or_else(|e| e.into_inner()).take().expect("LazyLock instance has previously been poisoned");
            f()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.cell.fmt(f)
    }
}
pub struct Once {
    done: real::atomic::AtomicBool,
    gate: Gate,
}
impl Once {
    pub const fn new() -> Self {
        Once { done: real::atomic::AtomicBool::new(false), gate: Gate::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        if self.is_completed() {
            return;
        }
        let _g = self.gate.enter();
        if !self.done.load(real::atomic::Ordering::SeqCst) {
            f();
            self.done.store(true, real::atomic::Ordering::SeqCst);
        }
    }
    pub fn is_completed(&self) -> bool {
        sync_point();
        self.done.load(real::atomic::Ordering::SeqCst)
    }
}

// ---------------------------------------------------------------- atomics
/// Sequentially consistent whatever the requested ordering, with a point before each access.
pub mod atomic {
    use super::sync_point;
    pub use ::std::sync::atomic::*;
    use ::std::sync::atomic as real;
    use ::std::sync::atomic::Ordering::SeqCst;
    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[derive(Debug, Default)]
            pub struct $name(real::$name);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    $name(real::$name::new(v))
                }
                pub fn load(&self, _: Ordering) -> $t {
                    sync_point();
                    self.0.load(SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    sync_point();
                    self.0.store(v, SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    sync_point();
                    self.0.swap(v, SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    sync_point();
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    self.compare_exchange(a, b, o, p)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> {
                    sync_point();
                    self.0.fetch_update(SeqCst, SeqCst, f)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! ops {
        ($name:ident, $t:ty, $($f:ident),*) => {
            impl $name { $(pub fn $f(&self, v: $t, _: Ordering) -> $t { sync_point(); self.0.$f(v, SeqCst) })* }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty),*) => { $(common!($name, $t); ops!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_nand, fetch_max, fetch_min);)* };
    }
    int!(AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize);
    common!(AtomicBool, bool);
    ops!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
}
