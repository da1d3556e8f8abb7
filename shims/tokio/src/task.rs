use std::any::Any;
use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub struct JoinError(Option<Mutex<Box<dyn Any + Send>>>);
impl JoinError {
    pub fn is_panic(&self) -> bool { self.0.is_some() }
    pub fn is_cancelled(&self) -> bool { self.0.is_none() }
    pub fn into_panic(self) -> Box<dyn Any + Send> { self.0.unwrap().into_inner().unwrap() }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> { if self.is_panic() { Ok(self.into_panic()) } else { Err(self) } }
}
impl fmt::Debug for JoinError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" }) } }
impl fmt::Display for JoinError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }
impl std::error::Error for JoinError {}

struct Shared<T> { result: Option<Result<T, JoinError>>, waker: Option<Waker>, finished: bool }
pub struct JoinHandle<T> { id: usize, sh: Arc<Mutex<Shared<T>>> }
pub struct AbortHandle { id: usize, cancel: Arc<dyn Fn() + Send + Sync> }
impl AbortHandle { pub fn is_finished(&self) -> bool { simrt::task_done(self.id) } pub fn abort(&self) { (self.cancel)(); simrt::abort_task(self.id) } }
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        let mut s = self.sh.lock().unwrap();
        if !s.finished { s.finished = true; s.result = Some(Err(JoinError(None))); if let Some(w) = s.waker.take() { w.wake() } drop(s); if simrt::active() { simrt::abort_task(self.id) } }
    }
    pub fn is_finished(&self) -> bool { self.sh.lock().unwrap().finished }
    pub fn abort_handle(&self) -> AbortHandle where T: Send + 'static {
        let sh = self.sh.clone();
        AbortHandle { id: self.id, cancel: Arc::new(move || { let mut s = sh.lock().unwrap(); if !s.finished { s.finished = true; s.result = Some(Err(JoinError(None))); if let Some(w) = s.waker.take() { w.wake() } } }) }
    }
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.sh.lock().unwrap();
        match s.result.take() { Some(r) => Poll::Ready(r), None => { s.waker = Some(cx.waker().clone()); Poll::Pending } }
    }
}
fn start<T: 'static>(fut: Pin<Box<dyn Future<Output = T>>>) -> JoinHandle<T> {
    let sh = Arc::new(Mutex::new(Shared { result: None, waker: None, finished: false }));
    let s2 = sh.clone();
    let mut fut = Some(fut);
    let wrapped = std::future::poll_fn(move |cx| {
        let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().as_mut().poll(cx)));
        let r = match r {
            Ok(Poll::Pending) => return Poll::Pending,
            Ok(Poll::Ready(v)) => Ok(v),
            Err(p) => {
                if simrt::is_engine_panic(&p) { std::panic::resume_unwind(p) }
                simrt::note_panic(simrt::panic_text(&p));
                Err(JoinError(Some(Mutex::new(p))))
            }
        };
        drop(fut.take());
        let mut s = s2.lock().unwrap();
        if !s.finished { s.finished = true; s.result = Some(r); if let Some(w) = s.waker.take() { w.wake() } }
        Poll::Ready(())
    });
    let id = simrt::add_task("task", Box::pin(wrapped));
    JoinHandle { id, sh }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { start(Box::pin(f)) }
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static { start(Box::pin(f)) }
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static { start(Box::pin(async move { f() })) }
pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(|cx| if std::mem::take(&mut first) { cx.waker().wake_by_ref(); Poll::Pending } else { Poll::Ready(()) }).await
}
pub struct JoinSet<T> { v: Vec<JoinHandle<T>> }
impl<T> Default for JoinSet<T> { fn default() -> Self { JoinSet { v: vec![] } } }
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self { Self::default() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle where F: Future<Output = T> + Send + 'static, T: Send { let h = start(Box::pin(f)); let a = h.abort_handle(); self.v.push(h); a }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle where F: FnOnce() -> T + Send + 'static, T: Send { self.spawn(async move { f() }) }
    pub fn spawn_local<F>(&mut self, f: F) where F: Future<Output = T> + 'static { let h = start(Box::pin(f)); self.v.push(h) }
    pub fn abort_all(&mut self) { for h in &self.v { h.abort() } }
    pub fn detach_all(&mut self) { self.v.clear() }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.v.is_empty() { return Poll::Ready(None); }
        for i in 0..self.v.len() { if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) { self.v.remove(i); return Poll::Ready(Some(r)); } }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> { std::future::poll_fn(|cx| self.poll_join_next(cx)).await }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> { let mut cx = Context::from_waker(Waker::noop()); match self.poll_join_next(&mut cx) { Poll::Ready(r) => r, Poll::Pending => None } }
    pub async fn shutdown(&mut self) { self.abort_all(); while self.join_next().await.is_some() {} }
    pub async fn join_all(mut self) -> Vec<T> { let mut o = vec![]; while let Some(r) = self.join_next().await { o.push(r.unwrap()) } o }
}
impl<T> Drop for JoinSet<T> { fn drop(&mut self) { for h in &self.v { h.abort() } } }
/// Like the original: runs the closure here.
pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R { f() }
