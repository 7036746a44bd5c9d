use crate::vprt::{self, St};
use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::time::Duration;

fn panicking() -> bool {
  ::std::thread::panicking()
}

/// Counts the lock objects alive (counted from their first use, so that `new` can be const).
struct Live(Cell<bool>);
impl Live {
  const fn new() -> Live {
    Live(Cell::new(false))
  }
  #[inline]
  fn touch(&self) {
    if !self.0.replace(true) {
      vprt::live_add(1);
    }
  }
}
impl Drop for Live {
  fn drop(&mut self) {
    if self.0.get() {
      vprt::live_add(-1);
    }
  }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
  _live: Live,
  locked: Cell<bool>,
  poison: Cell<bool>,
  data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

#[must_use]
pub struct MutexGuard<'a, T: ?Sized + 'a> {
  lock: &'a Mutex<T>,
  panicking: bool,
  _nosend: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
  pub const fn new(t: T) -> Mutex<T> {
    Mutex { _live: Live::new(), locked: Cell::new(false), poison: Cell::new(false), data: UnsafeCell::new(t) }
  }
  pub fn into_inner(self) -> LockResult<T> {
    let p = self.poison.get();
    let v = self.data.into_inner();
    if p {
      Err(PoisonError::new(v))
    } else {
      Ok(v)
    }
  }
}
impl<T: ?Sized> Mutex<T> {
  fn addr(&self) -> usize {
    self as *const _ as *const u8 as usize
  }
  fn acquire(&self) {
    loop {
      if !self.locked.get() {
        self.locked.set(true);
        return;
      }
      if !vprt::can_block() {
        if vprt::active() || vprt::aborting() {
          return; // tearing down
        }
        panic!("self-deadlock on Mutex outside the runtime");
      }
      vprt::block(St::Lock(self.addr(), "Mutex::lock"));
    }
  }
  fn release(&self) {
    self.locked.set(false);
    vprt::wake_lock(self.addr());
  }
  fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
    let g = MutexGuard { lock: self, panicking: panicking(), _nosend: ::std::marker::PhantomData };
    if self.poison.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
    self._live.touch();
    vprt::yield_point();
    self.acquire();
    self.guard()
  }
  pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
    self._live.touch();
    vprt::yield_point();
    if self.locked.get() {
      return Err(TryLockError::WouldBlock);
    }
    self.locked.set(true);
    match self.guard() {
      Ok(g) => Ok(g),
      Err(e) => Err(TryLockError::Poisoned(e)),
    }
  }
  pub fn is_poisoned(&self) -> bool {
    self.poison.get()
  }
  pub fn clear_poison(&self) {
    self.poison.set(false)
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    let p = self.poison.get();
    let v = unsafe { &mut *self.data.get() };
    if p {
      Err(PoisonError::new(v))
    } else {
      Ok(v)
    }
  }
}
impl<T> From<T> for Mutex<T> {
  fn from(t: T) -> Self {
    Mutex::new(t)
  }
}
impl<T: Default> Default for Mutex<T> {
  fn default() -> Self {
    Mutex::new(T::default())
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Mutex { .. }")
  }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.lock.data.get() }
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.lock.data.get() }
  }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
  fn drop(&mut self) {
    if !self.panicking && panicking() && !vprt::aborting() {
      self.lock.poison.set(true);
    }
    self.lock.release();
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(&**self, f)
  }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Display::fmt(&**self, f)
  }
}

// ---------------------------------------------------------------- RwLock
/// Models the futex RwLock of std: a reader blocks while a writer holds the lock or waits for it.
pub struct RwLock<T: ?Sized> {
  _live: Live,
  readers: Cell<u32>,
  writer: Cell<bool>,
  writers_waiting: Cell<u32>,
  poison: Cell<bool>,
  data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
  lock: &'a RwLock<T>,
  _nosend: ::std::marker::PhantomData<*const ()>,
}
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
  lock: &'a RwLock<T>,
  panicking: bool,
  _nosend: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
  pub const fn new(t: T) -> RwLock<T> {
    RwLock {
      _live: Live::new(),
      readers: Cell::new(0),
      writer: Cell::new(false),
      writers_waiting: Cell::new(0),
      poison: Cell::new(false),
      data: UnsafeCell::new(t),
    }
  }
  pub fn into_inner(self) -> LockResult<T> {
    let p = self.poison.get();
    let v = self.data.into_inner();
    if p {
      Err(PoisonError::new(v))
    } else {
      Ok(v)
    }
  }
}
impl<T: ?Sized> RwLock<T> {
  fn addr(&self) -> usize {
    self as *const _ as *const u8 as usize
  }
  fn freed(&self) {
    if self.readers.get() == 0 && !self.writer.get() {
      self.writers_waiting.set(0);
      vprt::wake_lock(self.addr());
    }
  }
  pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
    self._live.touch();
    vprt::yield_point();
    loop {
      if !self.writer.get() && self.writers_waiting.get() == 0 {
        break;
      }
      if !vprt::can_block() {
        if vprt::active() || vprt::aborting() {
          break;
        }
        panic!("self-deadlock on RwLock::read outside the runtime");
      }
      vprt::block(St::Lock(self.addr(), "RwLock::read"));
    }
    self.readers.set(self.readers.get() + 1);
    self.rguard()
  }
  pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
    self._live.touch();
    vprt::yield_point();
    loop {
      if !self.writer.get() && self.readers.get() == 0 {
        break;
      }
      if !vprt::can_block() {
        if vprt::active() || vprt::aborting() {
          break;
        }
        panic!("self-deadlock on RwLock::write outside the runtime");
      }
      self.writers_waiting.set(self.writers_waiting.get() + 1);
      vprt::block(St::Lock(self.addr(), "RwLock::write"));
    }
    self.writer.set(true);
    self.wguard()
  }
  pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
    self._live.touch();
    vprt::yield_point();
    if self.writer.get() || self.writers_waiting.get() > 0 {
      return Err(TryLockError::WouldBlock);
    }
    self.readers.set(self.readers.get() + 1);
    match self.rguard() {
      Ok(g) => Ok(g),
      Err(e) => Err(TryLockError::Poisoned(e)),
    }
  }
  pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
    self._live.touch();
    vprt::yield_point();
    if self.writer.get() || self.readers.get() > 0 {
      return Err(TryLockError::WouldBlock);
    }
    self.writer.set(true);
    match self.wguard() {
      Ok(g) => Ok(g),
      Err(e) => Err(TryLockError::Poisoned(e)),
    }
  }
  fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
    let g = RwLockReadGuard { lock: self, _nosend: ::std::marker::PhantomData };
    if self.poison.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
    let g = RwLockWriteGuard { lock: self, panicking: panicking(), _nosend: ::std::marker::PhantomData };
    if self.poison.get() {
      Err(PoisonError::new(g))
    } else {
      Ok(g)
    }
  }
  pub fn is_poisoned(&self) -> bool {
    self.poison.get()
  }
  pub fn clear_poison(&self) {
    self.poison.set(false)
  }
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    let p = self.poison.get();
    let v = unsafe { &mut *self.data.get() };
    if p {
      Err(PoisonError::new(v))
    } else {
      Ok(v)
    }
  }
}
impl<T> From<T> for RwLock<T> {
  fn from(t: T) -> Self {
    RwLock::new(t)
  }
}
impl<T: Default> Default for RwLock<T> {
  fn default() -> Self {
    RwLock::new(T::default())
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("RwLock { .. }")
  }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.lock.data.get() }
  }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.lock.data.get() }
  }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.lock.data.get() }
  }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
  fn drop(&mut self) {
    let n = self.lock.readers.get();
    self.lock.readers.set(n.saturating_sub(1));
    self.lock.freed();
  }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
  fn drop(&mut self) {
    if !self.panicking && panicking() && !vprt::aborting() {
      self.lock.poison.set(true);
    }
    self.lock.writer.set(false);
    self.lock.freed();
  }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
  pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
    let lock = s.lock;
    ::std::mem::forget(s);
    lock.writer.set(false);
    lock.readers.set(lock.readers.get() + 1);
    vprt::wake_lock(lock.addr());
    RwLockReadGuard { lock, _nosend: ::std::marker::PhantomData }
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(&**self, f)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Debug::fmt(&**self, f)
  }
}

// ---------------------------------------------------------------- Condvar
pub struct Condvar {
  _live: Live,
  _pad: u64,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
  pub fn timed_out(&self) -> bool {
    self.0
  }
}

impl Condvar {
  pub const fn new() -> Condvar {
    Condvar { _live: Live::new(), _pad: 0 }
  }
  fn addr(&self) -> usize {
    &self._pad as *const u64 as usize
  }
  fn do_wait<T>(&self, m: &Mutex<T>, timeout: Option<u64>) -> bool {
    // the caller's guard has been forgotten; the mutex is still held
    let spurious = vprt::draw_spurious();
    if !vprt::can_block() {
      if vprt::active() || vprt::aborting() {
        return true;
      }
      panic!("Condvar::wait outside the runtime");
    }
    m.release();
    let mut to = false;
    if spurious {
      vprt::yield_point();
    } else {
      let d = timeout.map(|t| vprt::now().saturating_add(t));
      vprt::block(St::Cv(self.addr(), d));
      to = vprt::timed_out();
    }
    m.acquire();
    to
  }
  pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
    let m = guard.lock;
    ::std::mem::forget(guard);
    self.do_wait(m, None);
    m.guard()
  }
  pub fn wait_while<'a, T, F>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>>
  where
    F: FnMut(&mut T) -> bool,
  {
    while condition(&mut *guard) {
      guard = self.wait(guard)?;
    }
    Ok(guard)
  }
  pub fn wait_timeout<'a, T>(
    &self,
    guard: MutexGuard<'a, T>,
    dur: Duration,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
    let m = guard.lock;
    ::std::mem::forget(guard);
    let to = self.do_wait(m, Some(dur.as_nanos().min(u64::MAX as u128 / 4) as u64));
    match m.guard() {
      Ok(g) => Ok((g, WaitTimeoutResult(to))),
      Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(to)))),
    }
  }
  pub fn wait_timeout_while<'a, T, F>(
    &self,
    mut guard: MutexGuard<'a, T>,
    dur: Duration,
    mut condition: F,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
  where
    F: FnMut(&mut T) -> bool,
  {
    let start = vprt::now();
    let d = dur.as_nanos().min(u64::MAX as u128 / 4) as u64;
    loop {
      if !condition(&mut *guard) {
        return Ok((guard, WaitTimeoutResult(false)));
      }
      let el = vprt::now() - start;
      if el >= d {
        return Ok((guard, WaitTimeoutResult(true)));
      }
      guard = self.wait_timeout(guard, Duration::from_nanos(d - el))?.0;
    }
  }
  pub fn notify_one(&self) {
    vprt::yield_point();
    vprt::cv_notify(self.addr(), false);
  }
  pub fn notify_all(&self) {
    vprt::yield_point();
    vprt::cv_notify(self.addr(), true);
  }
}
impl Default for Condvar {
  fn default() -> Self {
    Condvar::new()
  }
}
impl fmt::Debug for Condvar {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Condvar { .. }")
  }
}

// ---------------------------------------------------------------- Barrier, Once, OnceLock
pub struct Barrier {
  m: Mutex<(usize, usize)>,
  cv: Condvar,
  n: usize,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
  pub fn is_leader(&self) -> bool {
    self.0
  }
}
impl Barrier {
  pub fn new(n: usize) -> Barrier {
    Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n }
  }
  pub fn wait(&self) -> BarrierWaitResult {
    let mut g = self.m.lock().unwrap();
    let gen = g.1;
    g.0 += 1;
    if g.0 < self.n {
      while g.1 == gen {
        g = self.cv.wait(g).unwrap();
      }
      BarrierWaitResult(false)
    } else {
      g.0 = 0;
      g.1 += 1;
      self.cv.notify_all();
      BarrierWaitResult(true)
    }
  }
}
impl fmt::Debug for Barrier {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Barrier { .. }")
  }
}

pub struct Once {
  done: Mutex<bool>,
}
impl Once {
  pub const fn new() -> Once {
    Once { done: Mutex::new(false) }
  }
  pub fn call_once<F: FnOnce()>(&self, f: F) {
    let mut g = self.done.lock().unwrap();
    if !*g {
      f();
      *g = true;
    }
  }
  pub fn is_completed(&self) -> bool {
    *self.done.lock().unwrap()
  }
}
impl fmt::Debug for Once {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Once { .. }")
  }
}

pub struct OnceLock<T> {
  busy: Mutex<()>,
  set: Cell<bool>,
  v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
  pub const fn new() -> OnceLock<T> {
    OnceLock { busy: Mutex::new(()), set: Cell::new(false), v: UnsafeCell::new(None) }
  }
  pub fn get(&self) -> Option<&T> {
    vprt::yield_point();
    if self.set.get() {
      unsafe { (*self.v.get()).as_ref() }
    } else {
      None
    }
  }
  pub fn get_mut(&mut self) -> Option<&mut T> {
    unsafe { (*self.v.get()).as_mut() }
  }
  pub fn set(&self, t: T) -> Result<(), T> {
    let _g = self.busy.lock().unwrap();
    if self.set.get() {
      return Err(t);
    }
    unsafe { *self.v.get() = Some(t) };
    self.set.set(true);
    Ok(())
  }
  pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
    let _g = self.busy.lock().unwrap();
    if !self.set.get() {
      let t = f();
      unsafe { *self.v.get() = Some(t) };
      self.set.set(true);
    }
    unsafe { (*self.v.get()).as_ref().unwrap() }
  }
  pub fn into_inner(self) -> Option<T> {
    self.v.into_inner()
  }
  pub fn take(&mut self) -> Option<T> {
    self.set.set(false);
    unsafe { (*self.v.get()).take() }
  }
}
impl<T> From<T> for OnceLock<T> {
  fn from(t: T) -> Self {
    let c = OnceLock::new();
    let _ = c.set(t);
    c
  }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
  fn eq(&self, o: &Self) -> bool {
    self.get() == o.get()
  }
}
impl<T: Eq> Eq for OnceLock<T> {}

pub struct LazyLock<T, F = fn() -> T> {
  cell: OnceLock<T>,
  init: Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
  pub const fn new(f: F) -> LazyLock<T, F> {
    LazyLock { cell: OnceLock::new(), init: Cell::new(Some(f)) }
  }
  pub fn force(this: &LazyLock<T, F>) -> &T {
    this.cell.get_or_init(|| match this.init.take() {
      Some(f) => f(),
      None => panic!("LazyLock instance has previously been poisoned"),
    })
  }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
  type Target = T;
  fn deref(&self) -> &T {
    LazyLock::force(self)
  }
}
impl<T: Default> Default for LazyLock<T> {
  fn default() -> Self {
    LazyLock::new(T::default)
  }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("LazyLock { .. }")
  }
}

impl<T> Default for OnceLock<T> {
  fn default() -> Self {
    OnceLock::new()
  }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("OnceLock { .. }")
  }
}
impl<T: Clone> Clone for OnceLock<T> {
  fn clone(&self) -> Self {
    let c = OnceLock::new();
    if let Some(v) = self.get() {
      let _ = c.set(v.clone());
    }
    c
  }
}
