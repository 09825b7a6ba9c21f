//! The standard library as evmrs sees it in the simulator: everything is the
//! real one except blocking synchronisation (built on pthread objects, which
//! the simulator schedules) and standard output (a simulated sink).
#![allow(clippy::all)]
pub use std::*;

extern "C" {
    fn pthread_mutex_lock(m: *mut u8) -> i32;
    fn pthread_mutex_trylock(m: *mut u8) -> i32;
    fn pthread_mutex_unlock(m: *mut u8) -> i32;
    fn pthread_rwlock_rdlock(m: *mut u8) -> i32;
    fn pthread_rwlock_wrlock(m: *mut u8) -> i32;
    fn pthread_rwlock_tryrdlock(m: *mut u8) -> i32;
    fn pthread_rwlock_trywrlock(m: *mut u8) -> i32;
    fn pthread_rwlock_unlock(m: *mut u8) -> i32;
    fn sim_stdout_write(p: *const u8, n: usize) -> isize;
    fn sim_stdout_flush() -> i32;
}

pub mod sync {
    use super::*;
    use std::cell::UnsafeCell;
    use std::mem::MaybeUninit;
    use std::ops::{Deref, DerefMut};
    pub use std::sync::*;
    use std::sync::atomic::{AtomicBool, AtomicU8, Ordering};

    #[repr(C, align(16))]
    struct Raw(UnsafeCell<[u64; 8]>);
    impl Raw {
        const fn new() -> Self {
            Raw(UnsafeCell::new([0; 8]))
        }
        fn p(&self) -> *mut u8 {
            self.0.get() as *mut u8
        }
    }
    unsafe impl Send for Raw {}
    unsafe impl Sync for Raw {}

    pub struct Mutex<T: ?Sized> {
        raw: Raw,
        poison: AtomicBool,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
    impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized> {
        lock: &'a Mutex<T>,
        panicking: bool,
        no_send: std::marker::PhantomData<*const ()>,
    }
    unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex { raw: Raw::new(), poison: AtomicBool::new(false), data: UnsafeCell::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            let bad = self.poison.load(Ordering::Relaxed);
            let v = self.data.into_inner();
            if bad { Err(PoisonError::new(v)) } else { Ok(v) }
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
            let g = MutexGuard { lock: self, panicking: std::thread::panicking(), no_send: std::marker::PhantomData };
            if self.poison.load(Ordering::Relaxed) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            unsafe { pthread_mutex_lock(self.raw.p()) };
            self.guard()
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if unsafe { pthread_mutex_trylock(self.raw.p()) } != 0 {
                return Err(TryLockError::WouldBlock);
            }
            self.guard().map_err(TryLockError::Poisoned)
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(Ordering::Relaxed)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, Ordering::Relaxed)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            let bad = self.poison.load(Ordering::Relaxed);
            let v = self.data.get_mut();
            if bad { Err(PoisonError::new(v)) } else { Ok(v) }
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Mutex")
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.lock.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.lock.data.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if !self.panicking && std::thread::panicking() {
                self.lock.poison.store(true, Ordering::Relaxed);
            }
            unsafe { pthread_mutex_unlock(self.lock.raw.p()) };
        }
    }

    pub struct RwLock<T: ?Sized> {
        raw: Raw,
        poison: AtomicBool,
        data: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
    impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>, std::marker::PhantomData<*const ()>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool, std::marker::PhantomData<*const ()>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock { raw: Raw::new(), poison: AtomicBool::new(false), data: UnsafeCell::new(t) }
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn rg(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let g = RwLockReadGuard(self, std::marker::PhantomData);
            if self.poison.load(Ordering::Relaxed) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        fn wg(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let g = RwLockWriteGuard(self, std::thread::panicking(), std::marker::PhantomData);
            if self.poison.load(Ordering::Relaxed) { Err(PoisonError::new(g)) } else { Ok(g) }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            unsafe { pthread_rwlock_rdlock(self.raw.p()) };
            self.rg()
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            unsafe { pthread_rwlock_wrlock(self.raw.p()) };
            self.wg()
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            if unsafe { pthread_rwlock_tryrdlock(self.raw.p()) } != 0 {
                return Err(TryLockError::WouldBlock);
            }
            self.rg().map_err(TryLockError::Poisoned)
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if unsafe { pthread_rwlock_trywrlock(self.raw.p()) } != 0 {
                return Err(TryLockError::WouldBlock);
            }
            self.wg().map_err(TryLockError::Poisoned)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.data.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.data.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.data.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            unsafe { pthread_rwlock_unlock(self.0.raw.p()) };
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if !self.1 && std::thread::panicking() {
                self.0.poison.store(true, Ordering::Relaxed);
            }
            unsafe { pthread_rwlock_unlock(self.0.raw.p()) };
        }
    }

    // 0 new, 1 done, 2 poisoned
    struct OnceRaw {
        raw: Raw,
        state: AtomicU8,
    }
    impl OnceRaw {
        const fn new() -> Self {
            OnceRaw { raw: Raw::new(), state: AtomicU8::new(0) }
        }
        fn done(&self) -> bool {
            self.state.load(Ordering::Acquire) == 1
        }
        fn run(&self, f: impl FnOnce()) {
            if self.done() {
                return;
            }
            struct G<'a>(&'a OnceRaw, u8);
            impl Drop for G<'_> {
                fn drop(&mut self) {
                    self.0.state.store(self.1, Ordering::Release);
                    unsafe { pthread_mutex_unlock(self.0.raw.p()) };
                }
            }
            unsafe { pthread_mutex_lock(self.raw.p()) };
            let s = self.state.load(Ordering::Acquire);
            let mut g = G(self, s);
            if s == 2 {
                panic!("LazyLock instance has previously been poisoned");
            }
            if s == 0 {
                g.1 = 2;
                f();
                g.1 = 1;
            }
        }
    }

    pub struct Once(OnceRaw);
    impl Once {
        pub const fn new() -> Self {
            Once(OnceRaw::new())
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.0.run(f)
        }
        pub fn is_completed(&self) -> bool {
            self.0.done()
        }
    }

    pub struct OnceLock<T> {
        once: OnceRaw,
        data: UnsafeCell<MaybeUninit<T>>,
    }
    unsafe impl<T: Send> Send for OnceLock<T> {}
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    impl<T: std::panic::UnwindSafe> std::panic::UnwindSafe for OnceLock<T> {}
    impl<T: std::panic::UnwindSafe> std::panic::RefUnwindSafe for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            OnceLock { once: OnceRaw::new(), data: UnsafeCell::new(MaybeUninit::uninit()) }
        }
        pub fn get(&self) -> Option<&T> {
            if self.once.done() { Some(unsafe { (*self.data.get()).assume_init_ref() }) } else { None }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            self.once.run(|| unsafe {
                (*self.data.get()).write(f());
            });
            self.get().unwrap()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            let mut v = Some(v);
            self.once.run(|| unsafe {
                (*self.data.get()).write(v.take().unwrap());
            });
            match v {
                None => Ok(()),
                Some(v) => Err(v),
            }
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        f: UnsafeCell<Option<F>>,
    }
    unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            LazyLock { cell: OnceLock::new(), f: UnsafeCell::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| {
                let f = unsafe { (*this.f.get()).take() };
                f.unwrap()()
            })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }
}

pub mod io {
    pub use std::io::*;
    #[derive(Debug)]
    pub struct Stdout;
    pub type StdoutLock<'a> = Stdout;
    pub fn stdout() -> Stdout {
        Stdout
    }
    impl Stdout {
        pub fn lock(&self) -> Stdout {
            Stdout
        }
    }
    impl Write for Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            let n = unsafe { super::sim_stdout_write(b.as_ptr(), b.len()) };
            if n < 0 { Err(Error::from_raw_os_error(28)) } else { Ok(n as usize) }
        }
        fn flush(&mut self) -> Result<()> {
            if unsafe { super::sim_stdout_flush() } != 0 { Err(Error::from_raw_os_error(28)) } else { Ok(()) }
        }
    }
    impl Write for &Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            Stdout.write(b)
        }
        fn flush(&mut self) -> Result<()> {
            Stdout.flush()
        }
    }
    #[doc(hidden)]
    pub fn _print(a: std::fmt::Arguments<'_>) {
        if let Err(e) = Stdout.write_fmt(a) {
            panic!("failed printing to stdout: {e}");
        }
    }
}

#[macro_export]
macro_rules! print {
    ($($arg:tt)*) => { $crate::io::_print(::std::format_args!($($arg)*)) };
}
#[macro_export]
macro_rules! println {
    () => { $crate::print!("\n") };
    ($($arg:tt)*) => { $crate::io::_print(::std::format_args!("{}\n", ::std::format_args!($($arg)*))) };
}

/// Called once by the simulator: panics are reported by result codes only.
#[no_mangle]
pub extern "C" fn sim_rust_init() {
    std::panic::set_hook(std::boxed::Box::new(|_| {}));
}
