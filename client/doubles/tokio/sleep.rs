//! Clock double: see instant.rs.
use crate::time::{Duration, Instant};

use pin_project_lite::pin_project;
use std::future::Future;
use std::panic::Location;
use std::pin::Pin;
use std::task::{self, Poll};

extern "Rust" {
    /// Asks the harness to poll again once the clock shows `secs`, `nanos`.
    fn __double_wait(secs: u64, nanos: u32);
}

pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep::new_timeout(deadline, None)
}

pub fn sleep(duration: Duration) -> Sleep {
    match Instant::now().checked_add(duration) {
        Some(deadline) => Sleep::new_timeout(deadline, None),
        None => Sleep::far_future(None),
    }
}

pin_project! {
    #[project(!Unpin)]
    #[derive(Debug)]
    #[must_use = "futures do nothing unless you `.await` or poll them"]
    pub struct Sleep {
        deadline: Instant,
    }
}

impl Sleep {
    pub(crate) fn new_timeout(deadline: Instant, _: Option<&'static Location<'static>>) -> Sleep {
        Sleep { deadline }
    }

    pub(crate) fn far_future(location: Option<&'static Location<'static>>) -> Sleep {
        Self::new_timeout(Instant::far_future(), location)
    }

    pub fn deadline(&self) -> Instant {
        self.deadline
    }

    pub fn is_elapsed(&self) -> bool {
        Instant::now() >= self.deadline
    }

    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        *self.project().deadline = deadline;
    }

    pub(crate) fn reset_without_reregister(self: Pin<&mut Self>, deadline: Instant) {
        *self.project().deadline = deadline;
    }
}

impl Future for Sleep {
    type Output = ();

    fn poll(self: Pin<&mut Self>, _: &mut task::Context<'_>) -> Poll<Self::Output> {
        if self.is_elapsed() {
            return Poll::Ready(());
        }
        let (secs, nanos) = self.deadline.parts();
        unsafe { __double_wait(secs, nanos) };
        Poll::Pending
    }
}
