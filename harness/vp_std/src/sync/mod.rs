pub use ::std::sync::*;

mod lock;
pub mod atomic;
pub mod mpsc;
pub use self::lock::{
  Barrier, BarrierWaitResult, Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard,
  RwLockWriteGuard, WaitTimeoutResult,
};
