//! The modelled clock: microseconds since an arbitrary start.
pub use ::std::time::Duration;
use ::std::ops::{Add, AddAssign, Sub};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(pub u64);
impl Instant {
    pub fn now() -> Instant {
        Instant(mcenv::rt::now())
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_micros(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        Some(*self + d)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d.as_micros() as u64)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d.as_micros() as u64)
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct SystemTime(pub u64);
pub const UNIX_EPOCH: SystemTime = SystemTime(0);
#[derive(Clone, Debug)]
pub struct SystemTimeError;
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    pub fn now() -> SystemTime {
        SystemTime(1_000_000_000 + mcenv::rt::now())
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
        if self.0 < o.0 {
            Err(SystemTimeError)
        } else {
            Ok(Duration::from_micros(self.0 - o.0))
        }
    }
}
// The arithmetic on the wall clock only feeds a formatted time, which no
// property here is about; it does not move.
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, _d: Duration) -> SystemTime {
        self
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, _d: Duration) -> SystemTime {
        self
    }
}
