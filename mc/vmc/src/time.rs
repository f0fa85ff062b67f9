pub use std::time::*;

use crate::rt;
use std::ops::{Add, AddAssign, Sub, SubAssign};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Instant(rt::now())
    }
    pub fn duration_since(&self, e: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(e.0))
    }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration {
        self.duration_since(e)
    }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
        self.0.checked_sub(e.0).map(Duration::from_nanos)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d.as_nanos() as u64).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d.as_nanos() as u64).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d.as_nanos() as u64)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d.as_nanos() as u64)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, e: Instant) -> Duration {
        self.duration_since(e)
    }
}
