//! Stand-in for the `shuttle` crate behind the crate's own `shuttle` feature: locks, atomics and parking on
//! top of the executor's scheduler.  A thread can lose the processor before it acquires a lock, at each access
//! to an AtomicBool and around park/unpark; everything between two such points is a single step.  That loses no
//! behaviour: the code between them touches only memory that its locks protect.
#![allow(static_mut_refs)]
mod raw {
    extern "C" {
        pub fn qs_choose(n: u32) -> u32;
        pub fn qs_yield();
        pub fn qs_pause();
        pub fn qs_block(addr: u64);
        pub fn qs_wake(addr: u64);
        pub fn qs_tid() -> u64;
    }
}
/// threads can be preempted at these points
pub static mut ON: bool = false;
/// also at accesses to integer atomics
pub static mut FINE: bool = false;
/// spurious wake-ups of park still allowed
pub static mut SPURIOUS: u32 = 0;
#[inline(always)]
pub fn point() {
    unsafe {
        if ON {
            raw::qs_yield()
        }
    }
}
#[inline(always)]
fn fine() {
    unsafe {
        if ON && FINE {
            raw::qs_yield()
        }
    }
}
pub mod sync {
    use super::*;
    pub use std::sync::{Arc, LockResult, OnceLock, PoisonError, TryLockError, TryLockResult, Weak};
    use std::cell::{Cell, UnsafeCell};
    use std::ops::{Deref, DerefMut};

    /// reader count, -1: a writer
    pub struct RwLock<T: ?Sized> {
        st: Cell<i32>,
        /// some thread is blocked
        wait: Cell<bool>,
        /// writers that wait: they go first, so a thread that reads twice can block itself
        writers: Cell<i32>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { st: Cell::new(0), wait: Cell::new(false), writers: Cell::new(0), v: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn addr(&self) -> u64 {
            &self.st as *const Cell<i32> as u64
        }
        fn sleep(&self) {
            self.wait.set(true);
            unsafe { raw::qs_block(self.addr()) }
        }
        fn woken(&self) {
            if self.wait.replace(false) {
                unsafe { raw::qs_wake(self.addr()) }
            }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            point();
            while self.st.get() < 0 || self.writers.get() > 0 {
                self.sleep();
            }
            self.st.set(self.st.get() + 1);
            Ok(RwLockReadGuard(self))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            point();
            while self.st.get() != 0 {
                self.writers.set(self.writers.get() + 1);
                self.sleep();
                self.writers.set(self.writers.get() - 1);
            }
            self.st.set(-1);
            Ok(RwLockWriteGuard(self))
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            point();
            if self.st.get() < 0 {
                return Err(TryLockError::WouldBlock);
            }
            self.st.set(self.st.get() + 1);
            Ok(RwLockReadGuard(self))
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            point();
            if self.st.get() != 0 {
                return Err(TryLockError::WouldBlock);
            }
            self.st.set(-1);
            Ok(RwLockWriteGuard(self))
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0.st.set(self.0.st.get() - 1);
            self.0.woken();
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.0.st.set(0);
            self.0.woken();
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    macro_rules! debug {
        ($($t:ident $(<$l:lifetime>)?),*) => {$(
            impl<T: ?Sized> std::fmt::Debug for $t<$($l,)? T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str(stringify!($t))
                }
            }
        )*};
    }
    debug!(RwLock, RwLockReadGuard<'_>, RwLockWriteGuard<'_>, Mutex);

    pub struct Mutex<T: ?Sized>(RwLock<T>);
    pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex(RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            self.0.write()
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            self.0.try_write()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    #[derive(Debug, Default)]
    pub struct Condvar(Cell<u8>);
    unsafe impl Sync for Condvar {}
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(Cell::new(0))
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let l = g.0;
            drop(g);
            unsafe { raw::qs_block(&self.0 as *const _ as u64) }
            l.write()
        }
        pub fn notify_all(&self) {
            unsafe { raw::qs_wake(&self.0 as *const _ as u64) }
        }
        /// wakes all: the others are spurious wake-ups
        pub fn notify_one(&self) {
            self.notify_all()
        }
    }

    pub mod atomic {
        use super::super::*;
        pub use std::sync::atomic::{fence, AtomicPtr, Ordering};
        macro_rules! atomic {
            ($n:ident, $t:ty, $p:ident) => {
                #[derive(Debug, Default)]
                pub struct $n(std::sync::atomic::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self {
                        Self(std::sync::atomic::$n::new(v))
                    }
                    #[inline]
                    pub fn load(&self, o: Ordering) -> $t {
                        $p();
                        self.0.load(o)
                    }
                    #[inline]
                    pub fn store(&self, v: $t, o: Ordering) {
                        $p();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        $p();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        $p();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        $p();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                        $p();
                        self.0.fetch_update(o, p, f)
                    }
                    #[inline]
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        $p();
                        self.0.fetch_and(v, o)
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        $p();
                        self.0.fetch_or(v, o)
                    }
                }
                impl From<$t> for $n {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! int {
            ($($n:ident $t:ty),*) => {$(
                atomic!($n, $t, fine);
                impl $n {
                    #[inline]
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                        fine();
                        self.0.fetch_add(v, o)
                    }
                    #[inline]
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                        fine();
                        self.0.fetch_sub(v, o)
                    }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                        fine();
                        self.0.fetch_max(v, o)
                    }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                        fine();
                        self.0.fetch_min(v, o)
                    }
                }
            )*};
        }
        atomic!(AtomicBool, bool, point);
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
             AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    }
}
pub mod thread {
    use super::*;
    use std::time::Duration;
    const N: usize = 16;
    static mut TOKEN: [bool; N] = [false; N];
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
    pub struct ThreadId(u64);
    #[derive(Clone, Debug)]
    pub struct Thread(u64);
    impl Thread {
        pub fn id(&self) -> ThreadId {
            ThreadId(self.0)
        }
        pub fn unpark(&self) {
            point();
            wake(self.0)
        }
        pub fn name(&self) -> Option<&str> {
            None
        }
    }
    fn slot(t: u64) -> u64 {
        unsafe { TOKEN.as_ptr() as u64 + t }
    }
    /// unpark without a preemption point
    pub fn wake(t: u64) {
        unsafe {
            TOKEN[t as usize] = true;
            raw::qs_wake(slot(t))
        }
    }
    pub fn current() -> Thread {
        Thread(unsafe { raw::qs_tid() })
    }
    pub fn park() {
        point();
        let t = current().0;
        unsafe {
            while !TOKEN[t as usize] {
                if SPURIOUS > 0 && raw::qs_choose(2) == 1 {
                    SPURIOUS -= 1;
                    raw::qs_pause();
                    break;
                }
                raw::qs_block(slot(t));
            }
            TOKEN[t as usize] = false;
        }
    }
    /// any amount of time may pass: the others run for as long as they like, then this returns
    pub fn park_timeout(_: Duration) {
        let t = current().0;
        unsafe {
            raw::qs_pause();
            TOKEN[t as usize] = false;
        }
    }
    pub fn yield_now() {
        point()
    }
    pub fn sleep(_: Duration) {
        unsafe { raw::qs_pause() }
    }
}
