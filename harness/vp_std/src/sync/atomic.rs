//! Atomics with a scheduling point before each access (executed on one OS thread).
pub use ::std::sync::atomic::{compiler_fence, Ordering};
use crate::vprt;
use ::std::fmt;

pub fn fence(_o: Ordering) {
  vprt::yield_point();
}

macro_rules! base {
  ($name:ident, $t:ty) => {
    pub struct $name(::std::sync::atomic::$name);
    impl $name {
      pub const fn new(v: $t) -> $name {
        $name(::std::sync::atomic::$name::new(v))
      }
      pub fn load(&self, o: Ordering) -> $t {
        vprt::yield_point();
        self.0.load(o)
      }
      pub fn store(&self, v: $t, o: Ordering) {
        vprt::yield_point();
        self.0.store(v, o)
      }
      pub fn swap(&self, v: $t, o: Ordering) -> $t {
        vprt::yield_point();
        self.0.swap(v, o)
      }
      pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
        vprt::yield_point();
        self.0.compare_exchange(c, n, s, f)
      }
      pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
        self.compare_exchange(c, n, s, f)
      }
      pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _s: Ordering, _f: Ordering, mut g: F) -> Result<$t, $t> {
        vprt::yield_point();
        let c = self.0.load(Ordering::SeqCst);
        match g(c) {
          Some(n) => {
            self.0.store(n, Ordering::SeqCst);
            Ok(c)
          }
          None => Err(c),
        }
      }
      pub fn try_update(&self, s: Ordering, f: Ordering, g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
        self.fetch_update(s, f, g)
      }
      pub fn update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> $t) -> $t {
        self.fetch_update(s, f, |x| Some(g(x))).unwrap()
      }
      pub fn as_ptr(&self) -> *mut $t {
        self.0.as_ptr()
      }
      pub fn get_mut(&mut self) -> &mut $t {
        self.0.get_mut()
      }
      pub fn into_inner(self) -> $t {
        self.0.into_inner()
      }
    }
    impl Default for $name {
      fn default() -> Self {
        $name::new(Default::default())
      }
    }
    impl From<$t> for $name {
      fn from(v: $t) -> Self {
        $name::new(v)
      }
    }
    impl fmt::Debug for $name {
      fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
      }
    }
  };
}
macro_rules! ints {
  ($($name:ident $t:ty),*) => {$(
    base!($name, $t);
    impl $name {
      pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { vprt::yield_point(); self.0.fetch_add(v, o) }
      pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { vprt::yield_point(); self.0.fetch_sub(v, o) }
      pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { vprt::yield_point(); self.0.fetch_and(v, o) }
      pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { vprt::yield_point(); self.0.fetch_or(v, o) }
      pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { vprt::yield_point(); self.0.fetch_xor(v, o) }
      pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { vprt::yield_point(); self.0.fetch_max(v, o) }
      pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { vprt::yield_point(); self.0.fetch_min(v, o) }
    }
  )*};
}
ints!(AtomicI8 i8, AtomicU8 u8, AtomicI16 i16, AtomicU16 u16, AtomicI32 i32, AtomicU32 u32,
      AtomicI64 i64, AtomicU64 u64, AtomicIsize isize, AtomicUsize usize);
base!(AtomicBool, bool);
impl AtomicBool {
  pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
    vprt::yield_point();
    self.0.fetch_and(v, o)
  }
  pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
    vprt::yield_point();
    self.0.fetch_or(v, o)
  }
  pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
    vprt::yield_point();
    self.0.fetch_xor(v, o)
  }
  pub fn fetch_not(&self, o: Ordering) -> bool {
    vprt::yield_point();
    self.0.fetch_xor(true, o)
  }
}
pub use ::std::sync::atomic::AtomicPtr;
