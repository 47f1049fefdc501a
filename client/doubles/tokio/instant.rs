//! Clock double: the time is what the harness says. It only passes while the
//! program waits for it.
use std::fmt;
use std::ops;
use std::time::Duration;

extern "Rust" {
    fn __double_now() -> (u64, u32);
}

#[derive(Clone, Copy, Eq, PartialEq, PartialOrd, Ord, Hash)]
pub struct Instant {
    since: Duration,
}

impl Instant {
    pub fn now() -> Instant {
        let (secs, nanos) = unsafe { __double_now() };
        Instant { since: Duration::new(secs, nanos) }
    }

    pub fn from_std(_: std::time::Instant) -> Instant {
        unimplemented!("std instants with the clock double")
    }

    pub(crate) fn far_future() -> Instant {
        Self::now() + Duration::from_secs(86400 * 365 * 30)
    }

    pub(crate) fn parts(&self) -> (u64, u32) {
        (self.since.as_secs(), self.since.subsec_nanos())
    }

    pub fn into_std(self) -> std::time::Instant {
        unimplemented!("std instants with the clock double")
    }

    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.since.saturating_sub(earlier.since)
    }

    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.since.checked_sub(earlier.since)
    }

    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.since.saturating_sub(earlier.since)
    }

    pub fn elapsed(&self) -> Duration {
        Instant::now().saturating_duration_since(*self)
    }

    pub fn checked_add(&self, duration: Duration) -> Option<Instant> {
        // as std::time::Instant does on Linux: seconds are an i64
        let since = self.since.checked_add(duration)?;
        if since.as_secs() > i64::MAX as u64 {
            return None;
        }
        Some(Instant { since })
    }

    pub fn checked_sub(&self, duration: Duration) -> Option<Instant> {
        Some(Instant { since: self.since.checked_sub(duration)? })
    }
}

impl From<std::time::Instant> for Instant {
    fn from(time: std::time::Instant) -> Instant {
        Instant::from_std(time)
    }
}

impl From<Instant> for std::time::Instant {
    fn from(time: Instant) -> std::time::Instant {
        time.into_std()
    }
}

impl ops::Add<Duration> for Instant {
    type Output = Instant;

    fn add(self, other: Duration) -> Instant {
        self.checked_add(other).expect("overflow when adding duration to instant")
    }
}

impl ops::AddAssign<Duration> for Instant {
    fn add_assign(&mut self, rhs: Duration) {
        *self = *self + rhs;
    }
}

impl ops::Sub for Instant {
    type Output = Duration;

    fn sub(self, rhs: Instant) -> Duration {
        self.saturating_duration_since(rhs)
    }
}

impl ops::Sub<Duration> for Instant {
    type Output = Instant;

    fn sub(self, rhs: Duration) -> Instant {
        self.checked_sub(rhs).expect("overflow when subtracting duration from instant")
    }
}

impl ops::SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, rhs: Duration) {
        *self = *self - rhs;
    }
}

impl fmt::Debug for Instant {
    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.since.fmt(fmt)
    }
}
