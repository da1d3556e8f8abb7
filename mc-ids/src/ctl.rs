//! Controlled replacements for `std::sync`: every operation is a scheduling point when the calling
//! thread belongs to a controlled execution, and a plain operation otherwise.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex as StdMutex};

#[derive(Default)]
pub struct SchedState {
    /// per thread: parked and runnable / finished
    pub parked: Vec<bool>,
    pub done: Vec<bool>,
    pub turn: Option<usize>,
    /// waiting for a lock to be released (only runnable after some other thread's step)
    pub blocked: Vec<bool>,
    /// waiting actively: not runnable before each of these threads has moved, ended or got stuck itself
    pub spins: Vec<u32>,
    pub what: Vec<&'static str>,
    pub abort: bool,
}
pub struct Sched { pub st: StdMutex<SchedState>, pub cv: Condvar }
thread_local!(static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) });

impl Sched {
    pub fn new(n: usize) -> Arc<Self> {
        Arc::new(Sched { st: StdMutex::new(SchedState { parked: vec![false; n], done: vec![false; n], turn: None, blocked: vec![false; n], spins: vec![0; n], what: vec![""; n], abort: false }), cv: Condvar::new() })
    }
    pub fn enter(self: &Arc<Self>, id: usize) { ME.with(|m| *m.borrow_mut() = Some((self.clone(), id))); point("start"); }
    pub fn leave(self: &Arc<Self>, id: usize) {
        ME.with(|m| *m.borrow_mut() = None);
        let mut s = self.st.lock().unwrap();
        s.done[id] = true; s.parked[id] = false; s.turn = None;
        for b in s.blocked.iter_mut() { *b = false }
        self.cv.notify_all();
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Why { Ready, Lock, Spin }
fn park(what: &'static str, why: Why) -> bool {
    ME.with(|m| {
        let m = m.borrow();
        let Some((s, id)) = m.as_ref() else { return false };
        let mut st = s.st.lock().unwrap();
        if why != Why::Lock { for b in st.blocked.iter_mut() { *b = false } }
        st.blocked[*id] = why == Why::Lock;
        st.spins[*id] = if why == Why::Spin { !(1 << *id) } else { 0 };
        st.parked[*id] = true;
        st.what[*id] = what;
        st.turn = None;
        s.cv.notify_all();
        while st.turn != Some(*id) { st = s.cv.wait(st).unwrap(); }
        st.parked[*id] = false;
        true
    })
}
impl SchedState {
    /// Who may move now. Threads that wait actively let the others go first; if there are only such threads, each may go on.
    pub fn runnable(&mut self) -> Vec<usize> {
        let n = self.parked.len();
        let live: u32 = (0..n).filter(|&i| self.parked[i] && !self.blocked[i]).map(|i| 1 << i).sum();
        let r: Vec<usize> = (0..n).filter(|&i| live >> i & 1 == 1 && self.spins[i] & live == 0).collect();
        if !r.is_empty() || live == 0 { return r; }
        for x in self.spins.iter_mut() { *x = 0 }
        (0..n).filter(|&i| live >> i & 1 == 1).collect()
    }
    pub fn go(&mut self, i: usize) { for x in self.spins.iter_mut() { *x &= !(1 << i) } self.turn = Some(i); }
}
/// A scheduling point.
pub fn point(what: &'static str) { park(what, Why::Ready); }

pub mod sync {
    pub use std::sync::*;
    pub use super::lock::{Mutex, MutexGuard, Once, OnceLock, LazyLock, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod atomic {
        pub use std::sync::atomic::{fence, compiler_fence, Ordering};
        use crate::ctl::point;
        macro_rules! int { ($($n:ident $t:ty),*) => { $(
            #[derive(Debug, Default)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self { Self(std::sync::atomic::$n::new(v)) }
                pub fn load(&self, o: Ordering) -> $t { point("load"); self.0.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { point("store"); self.0.store(v, o) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { point("swap"); self.0.swap(v, o) }
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point("fetch_add"); if v == 1 { if let Some(to) = crate::ctl::jump() { self.0.store(to as $t, Ordering::SeqCst); } } self.0.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point("fetch_sub"); self.0.fetch_sub(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point("fetch_max"); self.0.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point("fetch_min"); self.0.fetch_min(v, o) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point("fetch_and"); self.0.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point("fetch_or"); self.0.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point("fetch_xor"); self.0.fetch_xor(v, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point("cas"); self.0.compare_exchange(a, b, s, f) }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point("cas"); self.0.compare_exchange(a, b, s, f) }
                pub fn fetch_update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    let mut p = self.load(f);
                    while let Some(n) = g(p) { match self.compare_exchange_weak(p, n, s, f) { Ok(x) => return Ok(x), Err(x) => p = x } }
                    Err(p)
                }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { point("fetch_nand"); self.0.fetch_nand(v, o) }
                pub fn try_update(&self, s: Ordering, f: Ordering, g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(s, f, g) }
                pub fn update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> $t) -> $t { self.fetch_update(s, f, |x| Some(g(x))).unwrap() }
                pub const fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
            }
            impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
        )* } }
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
        #[derive(Debug, Default)]
        pub struct AtomicBool(std::sync::atomic::AtomicBool);
        impl AtomicBool {
            pub const fn new(v: bool) -> Self { Self(std::sync::atomic::AtomicBool::new(v)) }
            pub fn load(&self, o: Ordering) -> bool { point("load"); self.0.load(o) }
            pub fn store(&self, v: bool, o: Ordering) { point("store"); self.0.store(v, o) }
            pub fn swap(&self, v: bool, o: Ordering) -> bool { point("swap"); self.0.swap(v, o) }
            pub fn compare_exchange(&self, a: bool, b: bool, s: Ordering, f: Ordering) -> Result<bool, bool> { point("cas"); self.0.compare_exchange(a, b, s, f) }
            pub fn compare_exchange_weak(&self, a: bool, b: bool, s: Ordering, f: Ordering) -> Result<bool, bool> { point("cas"); self.0.compare_exchange(a, b, s, f) }
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { point("fetch_and"); self.0.fetch_and(v, o) }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { point("fetch_or"); self.0.fetch_or(v, o) }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { point("fetch_xor"); self.0.fetch_xor(v, o) }
            pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { point("fetch_nand"); self.0.fetch_nand(v, o) }
            pub fn fetch_not(&self, o: Ordering) -> bool { point("fetch_not"); self.0.fetch_xor(true, o) }
            pub fn get_mut(&mut self) -> &mut bool { self.0.get_mut() }
            pub fn into_inner(self) -> bool { self.0.into_inner() }
        }
        impl From<bool> for AtomicBool { fn from(v: bool) -> Self { Self::new(v) } }
        #[derive(Debug)]
        pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
        impl<T> AtomicPtr<T> {
            pub const fn new(v: *mut T) -> Self { Self(std::sync::atomic::AtomicPtr::new(v)) }
            pub fn load(&self, o: Ordering) -> *mut T { point("load"); self.0.load(o) }
            pub fn store(&self, v: *mut T, o: Ordering) { point("store"); self.0.store(v, o) }
            pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T { point("swap"); self.0.swap(v, o) }
            pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { point("cas"); self.0.compare_exchange(a, b, s, f) }
            pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { point("cas"); self.0.compare_exchange(a, b, s, f) }
        }
    }
}
pub mod lock {
    use super::{park, point, Why};
    use std::sync::atomic::Ordering::SeqCst;
    use std::sync::{LockResult, TryLockError, TryLockResult};
    pub use std::sync::{MutexGuard, RwLockReadGuard, RwLockWriteGuard};
    /// Lock attempts are scheduling points; a thread that finds the lock taken parks until another
    /// thread has taken a step.
    macro_rules! acquire { ($try:expr) => {{
        point("lock");
        loop {
            match $try {
                Ok(g) => return Ok(g),
                Err(TryLockError::Poisoned(p)) => return Err(p),
                Err(TryLockError::WouldBlock) => if !park("lock (taken)", Why::Lock) { std::thread::yield_now() },
            }
        }
    }} }
    macro_rules! acquire_try { ($try:expr) => {{ point("try_lock"); $try }} }
    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self { Self(std::sync::Mutex::new(v)) }
        pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { acquire!(self.0.try_lock()) }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { acquire_try!(self.0.try_lock()) }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
        pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
        pub fn clear_poison(&self) { self.0.clear_poison() }
    }
    impl<T> From<T> for Mutex<T> { fn from(v: T) -> Self { Self::new(v) } }
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self { Self(std::sync::RwLock::new(v)) }
        pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { acquire!(self.0.try_read()) }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { acquire!(self.0.try_write()) }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { acquire_try!(self.0.try_read()) }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { acquire_try!(self.0.try_write()) }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
        pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
        pub fn clear_poison(&self) { self.0.clear_poison() }
    }
    impl<T> From<T> for RwLock<T> { fn from(v: T) -> Self { Self::new(v) } }
    /// A cell that is written once; a thread that finds another one writing it waits.
    #[derive(Default)]
    pub struct OnceLock<T> { busy: std::sync::atomic::AtomicBool, cell: std::sync::OnceLock<T> }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self { Self { busy: std::sync::atomic::AtomicBool::new(false), cell: std::sync::OnceLock::new() } }
        pub fn get(&self) -> Option<&T> { point("once get"); self.cell.get() }
        pub fn get_mut(&mut self) -> Option<&mut T> { self.cell.get_mut() }
        pub fn set(&self, v: T) -> Result<(), T> { let mut v = Some(v); self.get_or_init(|| v.take().unwrap()); match v { None => Ok(()), Some(v) => Err(v) } }
        pub fn into_inner(self) -> Option<T> { self.cell.into_inner() }
        pub fn take(&mut self) -> Option<T> { self.cell.take() }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
            struct Busy<'a>(&'a std::sync::atomic::AtomicBool);
            impl Drop for Busy<'_> { fn drop(&mut self) { self.0.store(false, SeqCst) } }
            point("once");
            loop {
                if let Some(v) = self.cell.get() { return v; }
                if !self.busy.swap(true, SeqCst) { let _b = Busy(&self.busy); let v = f(); let _ = self.cell.set(v); return self.cell.get().unwrap(); }
                if !park("once (taken)", Why::Lock) { std::thread::yield_now() }
            }
        }
    }
    impl<T: std::fmt::Debug> std::fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.cell.fmt(f) } }
    impl<T: Clone> Clone for OnceLock<T> { fn clone(&self) -> Self { Self { busy: Default::default(), cell: self.cell.clone() } } }
    impl<T> From<T> for OnceLock<T> { fn from(v: T) -> Self { Self { busy: Default::default(), cell: v.into() } } }
    pub struct LazyLock<T, F = fn() -> T> { cell: OnceLock<T>, f: std::sync::Mutex<Option<F>> }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self { Self { cell: OnceLock::new(), f: std::sync::Mutex::new(Some(f)) } }
        pub fn force(this: &Self) -> &T { this.cell.get_or_init(|| { let f = this.f.lock().unwrap().take().expect("LazyLock poisoned"); f() }) }
    }
    impl<T, F: FnOnce() -> T> std::ops::Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }
    impl<T: std::fmt::Debug, F> std::fmt::Debug for LazyLock<T, F> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.cell.fmt(f) } }
    pub struct Once(OnceLock<()>);
    impl Once {
        pub const fn new() -> Self { Self(OnceLock::new()) }
        pub fn call_once(&self, f: impl FnOnce()) { self.0.get_or_init(f); }
        pub fn is_completed(&self) -> bool { self.0.get().is_some() }
    }
}
/// Waiting actively: a thread that does so moves on only after another one did something.
pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() { if !super::park("spin", super::Why::Spin) { std::hint::spin_loop() } }
}
pub mod thread {
    pub use std::thread::*;
    pub fn yield_now() { if !super::park("yield", super::Why::Spin) { std::thread::yield_now() } }
    pub fn sleep(d: std::time::Duration) { if !super::park("sleep", super::Why::Spin) { std::thread::sleep(d) } }
}
thread_local!(static JUMP: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) });
/// The next counters that this thread increments by one (uncontrolled) go on from these values, last one first: as if
/// they had been incremented that often.
pub fn jump_to(v: Vec<u64>) { JUMP.with(|j| *j.borrow_mut() = v) }
pub fn jump() -> Option<u64> { JUMP.with(|j| j.borrow_mut().pop()) }
