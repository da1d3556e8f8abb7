use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;
pub mod error { #[derive(Debug, Clone, PartialEq, Eq)] pub struct Elapsed(pub(crate) ()); impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } } impl std::error::Error for Elapsed {} impl From<Elapsed> for std::io::Error { fn from(_: Elapsed) -> Self { std::io::ErrorKind::TimedOut.into() } } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(Duration);
impl Instant { pub fn now() -> Self { Instant(simrt::now()) } pub fn elapsed(&self) -> Duration { simrt::now() - self.0 } pub fn duration_since(&self, o: Instant) -> Duration { self.0 - o.0 } }
impl std::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d) } }
impl std::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.0 - o.0 } }
impl Instant { pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0) } pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) } pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d).map(Instant) } }
impl std::ops::Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d) } }
impl std::ops::AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { self.0 += d } }
#[derive(Debug)]
pub struct Sleep(Duration);
impl Sleep { pub fn deadline(&self) -> Instant { Instant(self.0) } pub fn is_elapsed(&self) -> bool { simrt::now() >= self.0 } pub fn reset(mut self: Pin<&mut Self>, i: Instant) { self.0 = i.0 } }
impl Future for Sleep { type Output = (); fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if simrt::now() >= self.0 { Poll::Ready(()) } else { simrt::add_timer(self.0, cx.waker().clone()); Poll::Pending } } }
/// Beyond that nothing happens any more.
const FOREVER: Duration = Duration::from_secs(1 << 40);
pub fn sleep(d: Duration) -> Sleep { Sleep(simrt::now().saturating_add(d).min(FOREVER)) }
pub fn sleep_until(i: Instant) -> Sleep { Sleep(i.0) }
/// A future with a deadline; polled before the deadline is looked at, like the original.
pub struct Timeout<F> { f: F, s: Sleep }
impl<F> Timeout<F> { pub fn into_inner(self) -> F { self.f } pub fn get_ref(&self) -> &F { &self.f } pub fn get_mut(&mut self) -> &mut F { &mut self.f } }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // The inner future is never moved once it is pinned.
        let t = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut t.f) }.poll(cx) { return Poll::Ready(Ok(v)); }
        if Pin::new(&mut t.s).poll(cx).is_ready() { return Poll::Ready(Err(error::Elapsed(()))); }
        Poll::Pending
    }
}
pub fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> { Timeout { f: f.into_future(), s: sleep(d) } }
pub fn timeout_at<F: std::future::IntoFuture>(i: Instant, f: F) -> Timeout<F::IntoFuture> { Timeout { f: f.into_future(), s: sleep_until(i) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior { #[default] Burst, Delay, Skip }
#[derive(Debug)]
pub struct Interval { d: Duration, next: Duration, missed: MissedTickBehavior }
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        Sleep(self.next).await;
        let (n, now) = (self.next, simrt::now());
        self.next = match self.missed { MissedTickBehavior::Burst => n + self.d, MissedTickBehavior::Delay => now + self.d, MissedTickBehavior::Skip => { let mut t = n + self.d; while t <= now { t += self.d } t } };
        Instant(n)
    }
    pub fn reset(&mut self) { self.next = simrt::now() + self.d }
    pub fn period(&self) -> Duration { self.d }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) { self.missed = m }
}
pub fn interval(d: Duration) -> Interval { interval_at(Instant::now(), d) }
pub fn interval_at(i: Instant, d: Duration) -> Interval { assert!(d > Duration::ZERO, "`period` must be non-zero."); Interval { d, next: i.0, missed: MissedTickBehavior::Burst } }
