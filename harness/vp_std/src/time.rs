pub use ::std::time::*;
use crate::vprt;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

fn vnow() -> Duration {
  if vprt::active() {
    vprt::yield_point();
  }
  Duration::from_nanos(vprt::now())
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);
impl Instant {
  pub fn now() -> Instant {
    Instant(vnow())
  }
  pub fn elapsed(&self) -> Duration {
    vnow().saturating_sub(self.0)
  }
  pub fn duration_since(&self, o: Instant) -> Duration {
    self.0.saturating_sub(o.0)
  }
  pub fn saturating_duration_since(&self, o: Instant) -> Duration {
    self.0.saturating_sub(o.0)
  }
  pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
    self.0.checked_sub(o.0)
  }
  pub fn checked_add(&self, d: Duration) -> Option<Instant> {
    self.0.checked_add(d).map(Instant)
  }
  pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
    self.0.checked_sub(d).map(Instant)
  }
}
impl Add<Duration> for Instant {
  type Output = Instant;
  fn add(self, d: Duration) -> Instant {
    Instant(self.0 + d)
  }
}
impl AddAssign<Duration> for Instant {
  fn add_assign(&mut self, d: Duration) {
    self.0 += d
  }
}
impl Sub<Duration> for Instant {
  type Output = Instant;
  fn sub(self, d: Duration) -> Instant {
    Instant(self.0 - d)
  }
}
impl SubAssign<Duration> for Instant {
  fn sub_assign(&mut self, d: Duration) {
    self.0 -= d
  }
}
impl Sub<Instant> for Instant {
  type Output = Duration;
  fn sub(self, o: Instant) -> Duration {
    self.duration_since(o)
  }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(Duration);
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
impl SystemTime {
  pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
  pub fn now() -> SystemTime {
    SystemTime(vnow())
  }
  pub fn elapsed(&self) -> ::std::result::Result<Duration, SystemTimeError> {
    Ok(vnow().saturating_sub(self.0))
  }
  pub fn duration_since(&self, o: SystemTime) -> ::std::result::Result<Duration, SystemTimeError> {
    Ok(self.0.saturating_sub(o.0))
  }
}
impl Add<Duration> for SystemTime {
  type Output = SystemTime;
  fn add(self, d: Duration) -> SystemTime {
    SystemTime(self.0 + d)
  }
}
impl Sub<Duration> for SystemTime {
  type Output = SystemTime;
  fn sub(self, d: Duration) -> SystemTime {
    SystemTime(self.0 - d)
  }
}
