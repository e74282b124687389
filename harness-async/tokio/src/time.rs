use crate::model;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;
pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
pub type Instant = std::time::Instant;
fn reached(at: Instant, cx: &Context<'_>) -> bool {
    let r = Instant::now() >= at;
    if !r {
        model::timer(at, cx);
    }
    r
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    next: Instant,
    period: Duration,
    missed: MissedTickBehavior,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        if !reached(self.next, cx) {
            return Poll::Pending;
        }
        let (at, now) = (self.next, Instant::now());
        self.next = match self.missed {
            MissedTickBehavior::Burst => at + self.period,
            MissedTickBehavior::Delay => now + self.period,
            MissedTickBehavior::Skip => {
                let mut n = at + self.period;
                while n <= now {
                    n += self.period;
                }
                n
            }
        };
        Poll::Ready(at)
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period
    }
    pub fn reset_immediately(&mut self) {
        self.next = Instant::now()
    }
    pub fn reset_after(&mut self, d: Duration) {
        self.next = Instant::now() + d
    }
    pub fn reset_at(&mut self, t: Instant) {
        self.next = t
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.missed = m
    }
    pub fn period(&self) -> Duration {
        self.period
    }
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::ZERO, "`period` must be non-zero.");
    Interval { next: start, period, missed: MissedTickBehavior::Burst }
}
#[derive(Debug)]
pub struct Sleep(Instant);
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.0
    }
    pub fn is_elapsed(&self) -> bool {
        Instant::now() >= self.0
    }
    pub fn reset(mut self: Pin<&mut Self>, t: Instant) {
        self.0 = t
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if reached(self.0, cx) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep(Instant::now() + d)
}
pub fn sleep_until(t: Instant) -> Sleep {
    Sleep(t)
}
pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    timeout_at(Instant::now() + d, f).await
}
pub async fn timeout_at<F: Future>(t: Instant, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        Poll::Ready(r) => Poll::Ready(Ok(r)),
        Poll::Pending if reached(t, cx) => Poll::Ready(Err(error::Elapsed(()))),
        Poll::Pending => Poll::Pending,
    })
    .await
}
