//! Facade of `std` for the instrumented copy of the library under test.
//!
//! `extern crate vp_std as std;` in the copy's lib.rs redirects every `std::..` path to this
//! crate. Everything is re-exported from the real std, except the modules below, which hand
//! every lock / condvar / atomic / spawn / sleep / clock operation to a deterministic runtime
//! (`vprt`). Without an active runtime they behave like their std counterparts used from a
//! single thread.
#![allow(clippy::all)]
pub use ::std::*;

pub mod collections;
pub mod sync;
pub mod thread;
pub mod time;
pub mod vprt;

#[doc(hidden)]
pub mod real {
  pub use ::std::thread_local;
}
/// like std's; see thread::LocalKey
#[macro_export]
macro_rules! thread_local {
  () => {};
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $init:block; $($rest:tt)*) => {
    $crate::thread_local!($(#[$a])* $v static $n : $t = $init);
    $crate::thread_local!($($rest)*);
  };
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $init:block) => {
    $crate::thread_local!($(#[$a])* $v static $n : $t = $init);
  };
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $init:expr; $($rest:tt)*) => {
    $crate::thread_local!($(#[$a])* $v static $n : $t = $init);
    $crate::thread_local!($($rest)*);
  };
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $init:expr) => {
    $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = {
      $crate::real::thread_local! {
        static OUTSIDE: $crate::thread::Outside<$t> = const { $crate::thread::outside() };
      }
      fn init() -> $t {
        $init
      }
      $crate::thread::LocalKey { init, outside: &OUTSIDE }
    };
  };
}
