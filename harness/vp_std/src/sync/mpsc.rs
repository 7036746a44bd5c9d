//! Unbounded/bounded channels on the facade's own Mutex/Condvar.
use super::{Condvar, Mutex};
use ::std::collections::VecDeque;
use ::std::sync::Arc;
pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::time::Duration;

struct Chan<T> {
  m: Mutex<St<T>>,
  cv: Condvar,
}
struct St<T> {
  q: VecDeque<T>,
  senders: usize,
  rx: bool,
  /// items ever sent, receivers waiting
  sent: u64,
  waiting: usize,
  cap: Option<usize>,
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

fn mk<T>(cap: Option<usize>) -> Arc<Chan<T>> {
  Arc::new(Chan { m: Mutex::new(St { q: VecDeque::new(), senders: 1, rx: true, cap, sent: 0, waiting: 0 }), cv: Condvar::new() })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
  let c = mk(None);
  (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
  let c = mk(Some(n));
  (SyncSender(c.clone()), Receiver(c))
}
impl<T> Chan<T> {
  fn send(&self, t: T) -> Result<(), SendError<T>> {
    let mut g = self.m.lock().unwrap();
    loop {
      if !g.rx {
        return Err(SendError(t));
      }
      if g.cap.map(|c| g.q.len() < c.max(1)).unwrap_or(true) {
        break;
      }
      g = self.cv.wait(g).unwrap();
    }
    g.q.push_back(t);
    g.sent += 1;
    let nr = g.sent;
    self.cv.notify_all();
    if g.cap == Some(0) {
      // a rendezvous: not before the receiver has it
      while g.rx && g.sent - (g.q.len() as u64) < nr {
        g = self.cv.wait(g).unwrap();
      }
      if g.sent - (g.q.len() as u64) < nr {
        if let Some(t) = g.q.pop_back() {
          return Err(SendError(t));
        }
      }
    }
    Ok(())
  }
  fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
    let mut g = self.m.lock().unwrap();
    if !g.rx {
      return Err(TrySendError::Disconnected(t));
    }
    let free = match g.cap {
      None => true,
      Some(0) => g.waiting > g.q.len(),
      Some(c) => g.q.len() < c,
    };
    if !free {
      return Err(TrySendError::Full(t));
    }
    g.q.push_back(t);
    g.sent += 1;
    self.cv.notify_all();
    Ok(())
  }
  fn up(&self) {
    self.m.lock().unwrap().senders += 1;
  }
  fn down(&self) {
    if let Ok(mut g) = self.m.lock() {
      g.senders -= 1;
    }
    self.cv.notify_all();
  }
}
macro_rules! tx {
  ($n:ident) => {
    impl<T> $n<T> {
      pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t)
      }
    }
    impl<T> Clone for $n<T> {
      fn clone(&self) -> Self {
        self.0.up();
        $n(self.0.clone())
      }
    }
    impl<T> Drop for $n<T> {
      fn drop(&mut self) {
        self.0.down()
      }
    }
  };
}
tx!(Sender);
tx!(SyncSender);
impl<T> SyncSender<T> {
  pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
    self.0.try_send(t)
  }
}
impl<T> Receiver<T> {
  pub fn try_recv(&self) -> Result<T, TryRecvError> {
    let mut g = self.0.m.lock().unwrap();
    match g.q.pop_front() {
      Some(t) => {
        self.0.cv.notify_all();
        Ok(t)
      }
      None if g.senders == 0 => Err(TryRecvError::Disconnected),
      None => Err(TryRecvError::Empty),
    }
  }
  pub fn recv(&self) -> Result<T, RecvError> {
    let mut g = self.0.m.lock().unwrap();
    loop {
      if let Some(t) = g.q.pop_front() {
        self.0.cv.notify_all();
        return Ok(t);
      }
      if g.senders == 0 {
        return Err(RecvError);
      }
      g.waiting += 1;
      g = self.0.cv.wait(g).unwrap();
      g.waiting -= 1;
    }
  }
  pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
    let end = crate::vprt::now() + d.as_nanos() as u64;
    let mut g = self.0.m.lock().unwrap();
    loop {
      if let Some(t) = g.q.pop_front() {
        self.0.cv.notify_all();
        return Ok(t);
      }
      if g.senders == 0 {
        return Err(RecvTimeoutError::Disconnected);
      }
      let now = crate::vprt::now();
      if now >= end {
        return Err(RecvTimeoutError::Timeout);
      }
      g.waiting += 1;
      g = self.0.cv.wait_timeout(g, Duration::from_nanos(end - now)).unwrap().0;
      g.waiting -= 1;
    }
  }
  pub fn iter(&self) -> Iter<'_, T> {
    Iter(self)
  }
  pub fn try_iter(&self) -> TryIter<'_, T> {
    TryIter(self)
  }
}
impl<T> Drop for Receiver<T> {
  fn drop(&mut self) {
    let mut left = VecDeque::new();
    if let Ok(mut g) = self.0.m.lock() {
      g.rx = false;
      left = ::std::mem::take(&mut g.q);
    }
    self.0.cv.notify_all();
    drop(left);
  }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.0.recv().ok()
  }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.0.try_recv().ok()
  }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.0.recv().ok()
  }
}
impl<T> IntoIterator for Receiver<T> {
  type Item = T;
  type IntoIter = IntoIter<T>;
  fn into_iter(self) -> IntoIter<T> {
    IntoIter(self)
  }
}
