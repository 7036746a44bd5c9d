pub use ::std::thread::*;
use crate::vprt;
use ::std::cell::UnsafeCell;
use ::std::io;
use ::std::sync::Arc;
use ::std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);

#[derive(Clone, Debug)]
pub struct Thread {
  id: ThreadId,
  name: Option<String>,
}
impl Thread {
  pub fn id(&self) -> ThreadId {
    self.id
  }
  pub fn name(&self) -> Option<&str> {
    self.name.as_deref()
  }
  pub fn unpark(&self) {
    vprt::unpark(self.id.0)
  }
}
pub fn current() -> Thread {
  let t = vprt::cur_tid();
  Thread { id: ThreadId(t), name: vprt::thread_name(t) }
}

struct Packet<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Send for Packet<T> {}
unsafe impl<T> Sync for Packet<T> {}

pub struct JoinHandle<T> {
  tid: usize,
  name: Option<String>,
  p: Arc<Packet<T>>,
}
impl<T> JoinHandle<T> {
  pub fn join(self) -> Result<T> {
    vprt::join_raw(self.tid);
    match unsafe { (*self.p.0.get()).take() } {
      Some(t) => Ok(t),
      None => Err(Box::new("thread panicked")),
    }
  }
  pub fn thread(&self) -> Thread {
    Thread { id: ThreadId(self.tid), name: self.name.clone() }
  }
  pub fn is_finished(&self) -> bool {
    vprt::yield_point();
    vprt::thread_finished(self.tid)
  }
  pub fn vp_tid(&self) -> usize {
    self.tid
  }
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
  fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
    f.write_str("JoinHandle { .. }")
  }
}

fn spawn_named<F, T>(name: Option<String>, f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + Send + 'static,
  T: Send + 'static,
{
  let p = Arc::new(Packet(UnsafeCell::new(None)));
  let p2 = p.clone();
  let tid = vprt::spawn_raw(
    name.clone(),
    Box::new(move || {
      let v = f();
      unsafe { *p2.0.get() = Some(v) };
    }),
  );
  JoinHandle { tid, name, p }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + Send + 'static,
  T: Send + 'static,
{
  spawn_named(None, f)
}

#[derive(Debug)]
pub struct Builder {
  name: Option<String>,
}
impl Builder {
  pub fn new() -> Builder {
    Builder { name: None }
  }
  pub fn name(mut self, n: String) -> Builder {
    self.name = Some(n);
    self
  }
  pub fn stack_size(self, _n: usize) -> Builder {
    self
  }
  pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
  where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
  {
    Ok(spawn_named(self.name, f))
  }
}

pub fn sleep(d: Duration) {
  vprt::sleep_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
}
#[allow(deprecated)]
pub fn sleep_ms(ms: u32) {
  sleep(Duration::from_millis(ms as u64))
}
pub fn yield_now() {
  vprt::yield_point()
}
pub fn park() {
  vprt::park(None)
}
pub fn park_timeout(d: Duration) {
  vprt::park(Some(d.as_nanos().min(u64::MAX as u128 / 4) as u64))
}

pub use ::std::thread::AccessError;
/// thread-locals: every virtual thread has its own value
pub struct LocalKey<T: 'static> {
  #[doc(hidden)]
  pub init: fn() -> T,
  #[doc(hidden)]
  pub outside: &'static ::std::thread::LocalKey<UnsafeCell<Option<Box<T>>>>,
}
impl<T: 'static> LocalKey<T> {
  pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
    let key = self as *const _ as usize;
    match vprt::local(key, &mut || Box::new((self.init)())) {
      Some(p) => f(unsafe { &*p }.downcast_ref::<T>().unwrap()),
      None => {
        let p = self.outside.with(|c| {
          let o = c.get();
          if unsafe { (*o).is_none() } {
            let v = Box::new((self.init)());
            unsafe { *o = Some(v) }
          }
          unsafe { &**(*o).as_ref().unwrap() as *const T }
        });
        f(unsafe { &*p })
      }
    }
  }
  pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> ::std::result::Result<R, AccessError> {
    Ok(self.with(f))
  }
}
impl<T: 'static> LocalKey<::std::cell::Cell<T>> {
  pub fn set(&'static self, t: T) {
    self.with(|c| c.set(t))
  }
  pub fn get(&'static self) -> T
  where
    T: Copy,
  {
    self.with(|c| c.get())
  }
  pub fn take(&'static self) -> T
  where
    T: Default,
  {
    self.with(|c| c.take())
  }
  pub fn replace(&'static self, t: T) -> T {
    self.with(|c| c.replace(t))
  }
}
impl<T: 'static> LocalKey<::std::cell::RefCell<T>> {
  pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
    self.with(|c| f(&c.borrow()))
  }
  pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
    self.with(|c| f(&mut c.borrow_mut()))
  }
  pub fn set(&'static self, t: T) {
    self.with(|c| *c.borrow_mut() = t)
  }
  pub fn take(&'static self) -> T
  where
    T: Default,
  {
    self.with(|c| c.take())
  }
  pub fn replace(&'static self, t: T) -> T {
    self.with(|c| c.replace(t))
  }
}
#[doc(hidden)]
pub type Outside<T> = UnsafeCell<Option<Box<T>>>;
#[doc(hidden)]
pub const fn outside<T>() -> Outside<T> {
  UnsafeCell::new(None)
}
