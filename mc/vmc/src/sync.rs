pub use std::sync::*;

pub mod atomic;
pub mod mpsc;

use crate::rt;
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::Mutex as Real;

#[derive(Default)]
struct MState {
    locked: bool,
    poisoned: bool,
}

pub struct Mutex<T: ?Sized> {
    st: Real<MState>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
    _not_send: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { st: Real::new(MState { locked: false, poisoned: false }), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.st.lock().unwrap().poisoned;
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}

impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let mut s = self.st.lock().unwrap();
        s.locked = true;
        let g = MutexGuard { m: self, panicking: std::thread::panicking(), _not_send: std::marker::PhantomData };
        if s.poisoned { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::point("lock a mutex");
        let st: *const Real<MState> = &self.st;
        rt::block("a mutex", None, false, move || !unsafe { &*st }.lock().unwrap().locked);
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        rt::point("try to lock a mutex");
        if self.st.lock().unwrap().locked {
            return Err(TryLockError::WouldBlock);
        }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.st.lock().unwrap().poisoned
    }
    pub fn clear_poison(&self) {
        self.st.lock().unwrap().poisoned = false
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.is_poisoned();
        let d = self.data.get_mut();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        let mut s = self.m.st.lock().unwrap();
        s.locked = false;
        if !self.panicking && std::thread::panicking() {
            s.poisoned = true;
        }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---------------------------------------------------------------- RwLock

#[derive(Default)]
struct RState {
    readers: usize,
    writer: bool,
    poisoned: bool,
}
pub struct RwLock<T: ?Sized> {
    st: Real<RState>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _not_send: std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    panicking: bool,
    _not_send: std::marker::PhantomData<*const ()>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { st: Real::new(RState { readers: 0, writer: false, poisoned: false }), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.st.lock().unwrap().poisoned;
        let d = self.data.into_inner();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let mut s = self.st.lock().unwrap();
        s.readers += 1;
        let g = RwLockReadGuard { l: self, _not_send: std::marker::PhantomData };
        if s.poisoned { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let mut s = self.st.lock().unwrap();
        s.writer = true;
        let g = RwLockWriteGuard { l: self, panicking: std::thread::panicking(), _not_send: std::marker::PhantomData };
        if s.poisoned { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        rt::point("lock for reading");
        let st: *const Real<RState> = &self.st;
        rt::block("a lock for reading", None, false, move || !unsafe { &*st }.lock().unwrap().writer);
        self.rguard()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        rt::point("lock for writing");
        let st: *const Real<RState> = &self.st;
        rt::block("a lock for writing", None, false, move || {
            let s = unsafe { &*st }.lock().unwrap();
            !s.writer && s.readers == 0
        });
        self.wguard()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        rt::point("try to lock for reading");
        if self.st.lock().unwrap().writer {
            return Err(TryLockError::WouldBlock);
        }
        self.rguard().map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        rt::point("try to lock for writing");
        {
            let s = self.st.lock().unwrap();
            if s.writer || s.readers > 0 {
                return Err(TryLockError::WouldBlock);
            }
        }
        self.wguard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.st.lock().unwrap().poisoned
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.is_poisoned();
        let d = self.data.get_mut();
        if p { Err(PoisonError::new(d)) } else { Ok(d) }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.st.lock().unwrap().readers -= 1;
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        let mut s = self.l.st.lock().unwrap();
        s.writer = false;
        if !self.panicking && std::thread::panicking() {
            s.poisoned = true;
        }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}

// ---------------------------------------------------------------- Condvar

#[derive(Default)]
struct CState {
    next: u64,
    waiting: Vec<u64>,
}
#[derive(Default)]
pub struct Condvar(Real<CState>);

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar(Real::new(CState { next: 0, waiting: vec![] }))
    }
    fn wait_until<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, deadline: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        rt::point("wait for a condition variable");
        let m = g.m;
        let ticket = {
            let mut c = self.0.lock().unwrap();
            c.next += 1;
            let n = c.next;
            c.waiting.push(n);
            n
        };
        drop(g);
        let p: *const Real<CState> = &self.0;
        let ok = rt::block("a condition variable", deadline, true, move || !unsafe { &*p }.lock().unwrap().waiting.contains(&ticket));
        self.0.lock().unwrap().waiting.retain(|t| *t != ticket);
        let st: *const Real<MState> = &m.st;
        rt::block("a mutex", None, false, move || !unsafe { &*st }.lock().unwrap().locked);
        (m.guard(), !ok)
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_until(g, None).0
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: std::time::Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, t) = self.wait_until(g, Some(rt::now() + d.as_nanos() as u64));
        match g {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: std::time::Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = rt::now() + d.as_nanos() as u64;
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if rt::now() >= end {
                return Ok((g, WaitTimeoutResult(true)));
            }
            let (r, _) = self.wait_until(g, Some(end));
            match r {
                Ok(x) => g = x,
                Err(e) => return Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(false)))),
            }
        }
    }
    pub fn notify_one(&self) {
        rt::point("notify one");
        let mut c = self.0.lock().unwrap();
        if !c.waiting.is_empty() {
            c.waiting.remove(0);
        }
    }
    pub fn notify_all(&self) {
        rt::point("notify all");
        self.0.lock().unwrap().waiting.clear();
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

// ---------------------------------------------------------------- Barrier

pub struct Barrier {
    n: usize,
    st: Real<(usize, u64)>,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { n, st: Real::new((0, 0)) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        rt::point("a barrier");
        let gen = {
            let mut s = self.st.lock().unwrap();
            s.0 += 1;
            if s.0 >= self.n {
                s.0 = 0;
                s.1 += 1;
                return BarrierWaitResult(true);
            }
            s.1
        };
        let p: *const Real<(usize, u64)> = &self.st;
        rt::block("a barrier", None, false, move || unsafe { &*p }.lock().unwrap().1 != gen);
        BarrierWaitResult(false)
    }
}
