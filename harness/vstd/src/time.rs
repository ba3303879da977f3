pub use ::std::time::*;
use crate::ctl;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

/// The scheduler's clock.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Self {
        Instant(Duration::from_nanos(ctl::clock()))
    }
    pub fn nanos(&self) -> u64 {
        self.0.as_nanos() as u64
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().0.saturating_sub(self.0)
    }
    pub fn duration_since(&self, e: Instant) -> Duration {
        self.0.saturating_sub(e.0)
    }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration {
        self.0.saturating_sub(e.0)
    }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
        self.0.checked_sub(e.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        // as for the real clock: seconds fit in an i64
        let s = self.0.checked_add(d)?;
        if s.as_secs() > i64::MAX as u64 { None } else { Some(Instant(s)) }
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, e: Instant) -> Duration {
        self.duration_since(e)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
