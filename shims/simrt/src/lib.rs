//! A simulated runtime: single-threaded executor, byte-pipe network and virtual clock whose every
//! nondeterministic decision is taken by the explorer ([`mc_engine::Ch`]).
//!
//! All state lives in a thread-local [`World`] that exists for one execution.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use mc_engine::Ch;

/// Which environment decisions are explored (each non-default alternative costs one deviation).
#[derive(Clone, Copy, Debug)]
pub struct Policy {
    /// reads may return fewer bytes than available
    pub short_reads: bool,
    /// writes may accept fewer bytes than there is room for
    pub short_writes: bool,
    /// a ready socket may first report "not ready" (and wake the task)
    pub spurious: bool,
    /// the branch `select!` polls first
    pub select: bool,
    /// deviations count against the budget (otherwise all alternatives are free)
    pub bounded: bool,
}
impl Policy {
    pub const fn none() -> Self { Policy { short_reads: false, short_writes: false, spurious: false, select: false, bounded: true } }
    pub const fn all() -> Self { Policy { short_reads: true, short_writes: true, spurious: true, select: true, bounded: true } }
}

struct Task { fut: Option<Pin<Box<dyn Future<Output = ()>>>>, done: bool, name: String }
struct ListenerSt { addr: String, queue: VecDeque<io::Result<(End, std::net::SocketAddr)>>, waker: Option<Waker>, open: bool }
/// What happens when code under test connects to a name.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ConnectPolicy { Accept, Refuse, Hang }
struct Upstream { policy: ConnectPolicy, queue: VecDeque<End>, attempts: usize }

pub struct World {
    ch: *mut Ch,
    pub policy: Policy,
    tasks: Vec<Task>,
    ready: Arc<Mutex<VecDeque<usize>>>,
    listeners: Vec<ListenerSt>,
    upstreams: HashMap<String, Upstream>,
    pub panics: Vec<String>,
    next_port: u16,
    now: Duration,
    timers: Vec<(Duration, Waker)>,
    spurious_next: bool,
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
}
fn with<T>(f: impl FnOnce(&mut World) -> T) -> T { WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no simulated world"))) }
pub fn active() -> bool { ACTIVE.with(|a| a.get()) }

/// Creates the world for one execution; dropping the guard destroys it.
pub struct Guard(());
pub fn begin(ch: &mut Ch, policy: Policy) -> Guard {
    WORLD.with(|w| {
        let mut w = w.borrow_mut();
        assert!(w.is_none(), "world exists already");
        *w = Some(World { ch, policy, tasks: vec![], ready: Default::default(), listeners: vec![], upstreams: HashMap::new(), panics: vec![], next_port: 40000, now: Duration::ZERO, timers: vec![], spurious_next: false });
    });
    ACTIVE.with(|a| a.set(true));
    Guard(())
}
impl Drop for Guard {
    fn drop(&mut self) {
        // Futures may use the world while they are dropped.
        let tasks = with(|w| std::mem::take(&mut w.tasks));
        let _ = catch_unwind(AssertUnwindSafe(move || drop(tasks)));
        let tasks = with(|w| std::mem::take(&mut w.tasks));
        drop(tasks);
        ACTIVE.with(|a| a.set(false));
        let w = WORLD.with(|w| w.borrow_mut().take());
        drop(w);
    }
}
pub fn set_policy(p: Policy) { with(|w| w.policy = p) }

/// Chooses among `n` alternatives.
pub fn choose(n: usize) -> usize { let ch = with(|w| w.ch); unsafe { (*ch).choose(n) } }
pub fn choose_dev(n: usize) -> usize { let ch = with(|w| w.ch); unsafe { (*ch).choose_dev(n) } }
pub fn step(fp: u64) { let ch = with(|w| w.ch); unsafe { (*ch).step(fp) } }
pub fn log(f: impl FnOnce() -> String) { let ch = with(|w| w.ch); unsafe { (*ch).log(f) } }
fn env_choice(n: usize) -> usize { if n <= 1 { return 0 } if with(|w| w.policy.bounded) { choose_dev(n) } else { choose(n) } }
/// First branch a `select!` polls.
pub fn select_start(n: u32) -> u32 { if active() && with(|w| w.policy.select) { env_choice(n as usize) as u32 } else { 0 } }

// ------------------------------------------------------------------------------------ tasks
struct TaskWaker { id: usize, ready: Arc<Mutex<VecDeque<usize>>> }
impl Wake for TaskWaker { fn wake(self: Arc<Self>) { let mut r = self.ready.lock().unwrap(); if !r.contains(&self.id) { r.push_back(self.id) } } }
pub fn add_task(name: &str, fut: Pin<Box<dyn Future<Output = ()>>>) -> usize {
    with(|w| { let id = w.tasks.len(); w.tasks.push(Task { fut: Some(fut), done: false, name: name.to_string() }); w.ready.lock().unwrap().push_back(id); id })
}
/// Tasks that can run, in the order they became ready.
pub fn ready() -> Vec<usize> { with(|w| { let v: Vec<usize> = w.ready.lock().unwrap().iter().copied().collect(); v.into_iter().filter(|&i| !w.tasks[i].done).collect() }) }
pub fn task_done(id: usize) -> bool { with(|w| w.tasks[id].done) }
pub fn task_count() -> usize { with(|w| w.tasks.len()) }
pub fn live_tasks() -> usize { with(|w| w.tasks.iter().filter(|t| !t.done).count()) }
/// Runs one ready task until it returns.
pub fn run_task(id: usize) {
    let (fut, waker) = with(|w| {
        w.ready.lock().unwrap().retain(|&i| i != id);
        (w.tasks[id].fut.take(), Waker::from(Arc::new(TaskWaker { id, ready: w.ready.clone() })))
    });
    let Some(mut fut) = fut else { return };
    let mut cx = Context::from_waker(&waker);
    match catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
        Ok(Poll::Pending) => with(|w| if !w.tasks[id].done { w.tasks[id].fut = Some(fut) }),
        Ok(Poll::Ready(())) => with(|w| w.tasks[id].done = true),
        Err(p) => {
            if is_engine_panic(&p) { std::panic::resume_unwind(p) }
            let m = panic_text(&p);
            with(|w| { w.tasks[id].done = true; let n = w.tasks[id].name.clone(); w.panics.push(format!("{n}: {m}")) });
        }
    }
}
pub fn abort_task(id: usize) { let f = with(|w| { w.tasks[id].done = true; w.tasks[id].fut.take() }); drop(f) }
pub fn panic_text(p: &Box<dyn Any + Send>) -> String { p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()) }
pub fn is_engine_panic(p: &Box<dyn Any + Send>) -> bool { panic_text(p).contains("MC-ENGINE") }
pub fn panics() -> Vec<String> { with(|w| w.panics.clone()) }
pub fn note_panic(s: String) { with(|w| w.panics.push(s)) }

// ------------------------------------------------------------------------------------ clock
pub fn now() -> Duration { with(|w| w.now) }
pub fn add_timer(at: Duration, waker: Waker) { with(|w| w.timers.push((at, waker))) }
/// Lets time pass until the next timer fires. False when no timer is armed.
pub fn advance_time() -> bool {
    let fire = with(|w| {
        let t = w.timers.iter().map(|t| t.0).min()?;
        w.now = w.now.max(t);
        let now = w.now;
        let (a, b): (Vec<_>, Vec<_>) = std::mem::take(&mut w.timers).into_iter().partition(|t| t.0 <= now);
        w.timers = b;
        Some(a)
    });
    match fire { None => false, Some(v) => { for (_, k) in v { k.wake() } true } }
}

// ------------------------------------------------------------------------------------ network
#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    /// the writer closed its side
    pub fin: bool,
    /// reading fails with this error (after the buffer is drained)
    pub read_err: Option<io::ErrorKind>,
    /// the reader is gone: writing fails
    pub reader_gone: bool,
    pub write_err: Option<io::ErrorKind>,
    /// the next writes accept nothing (`Ok(0)`)
    pub write_zero: bool,
    pub total: u64,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
impl Pipe {
    fn wake_r(&mut self) { if let Some(w) = self.rw.take() { w.wake() } }
    fn wake_w(&mut self) { if let Some(w) = self.ww.take() { w.wake() } }
    fn room(&self) -> usize { self.cap.saturating_sub(self.buf.len()) }
}
/// One end of a connection.
pub struct End { pub rx: Arc<Mutex<Pipe>>, pub tx: Arc<Mutex<Pipe>>, pub local: std::net::SocketAddr, pub peer: std::net::SocketAddr }
pub fn addr(port: u16) -> std::net::SocketAddr { std::net::SocketAddr::from(([127, 0, 0, 1], port)) }
/// A connected pair; `cap` bytes fit into each direction.
pub fn pair(cap: usize) -> (End, End) {
    let (p, q) = with(|w| { let p = w.next_port; w.next_port += 2; (p, p + 1) });
    let a = Arc::new(Mutex::new(Pipe { cap, ..Default::default() }));
    let b = Arc::new(Mutex::new(Pipe { cap, ..Default::default() }));
    (End { rx: a.clone(), tx: b.clone(), local: addr(p), peer: addr(q) }, End { rx: b, tx: a, local: addr(q), peer: addr(p) })
}
impl End {
    pub fn poll_read(&self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        let (n, fin, err) = { let p = self.rx.lock().unwrap(); (p.buf.len().min(max), p.fin, p.read_err) };
        if n == 0 && max > 0 {
            if let Some(k) = err { return Poll::Ready(Err(k.into())); }
            if fin { return Poll::Ready(Ok(vec![])); }
            self.rx.lock().unwrap().rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let pol = with(|w| w.policy);
        let mut alts = vec![n];
        if pol.short_reads { if n > 1 { alts.push(1) } if n > 3 { alts.push(n / 2) } if n > 5 { alts.push(n - 1) } }
        let sp = pol.spurious && !with(|w| std::mem::take(&mut w.spurious_next));
        let c = env_choice(alts.len() + sp as usize);
        if c == alts.len() { with(|w| w.spurious_next = true); cx.waker().wake_by_ref(); return Poll::Pending; }
        let mut p = self.rx.lock().unwrap();
        let v: Vec<u8> = p.buf.drain(..alts[c]).collect();
        p.wake_w();
        Poll::Ready(Ok(v))
    }
    pub fn poll_peek(&self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        let mut p = self.rx.lock().unwrap();
        if p.buf.is_empty() && max > 0 {
            if let Some(k) = p.read_err { return Poll::Ready(Err(k.into())); }
            if p.fin { return Poll::Ready(Ok(vec![])); }
            p.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(p.buf.iter().take(max).copied().collect()))
    }
    pub fn poll_write(&self, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let n = {
            let mut p = self.tx.lock().unwrap();
            if let Some(k) = p.write_err { return Poll::Ready(Err(k.into())); }
            if p.reader_gone || p.fin { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); }
            if p.write_zero { return Poll::Ready(Ok(0)); }
            if b.is_empty() { return Poll::Ready(Ok(0)); }
            let n = p.room().min(b.len());
            if n == 0 { p.ww = Some(cx.waker().clone()); return Poll::Pending; }
            n
        };
        let pol = with(|w| w.policy);
        let mut alts = vec![n];
        if pol.short_writes { if n > 1 { alts.push(1) } if n > 3 { alts.push(n / 2) } if n > 5 { alts.push(n - 1) } }
        let sp = pol.spurious && !with(|w| std::mem::take(&mut w.spurious_next));
        let c = env_choice(alts.len() + sp as usize);
        if c == alts.len() { with(|w| w.spurious_next = true); cx.waker().wake_by_ref(); return Poll::Pending; }
        let mut p = self.tx.lock().unwrap();
        p.buf.extend(b[..alts[c]].iter());
        p.total += alts[c] as u64;
        p.wake_r();
        Poll::Ready(Ok(alts[c]))
    }
    pub fn readable(&self) -> bool { let p = self.rx.lock().unwrap(); !p.buf.is_empty() || p.fin || p.read_err.is_some() }
    pub fn writable(&self) -> bool { let p = self.tx.lock().unwrap(); p.room() > 0 || p.write_err.is_some() || p.reader_gone || p.write_zero }
    pub fn want_read(&self, cx: &mut Context<'_>) { self.rx.lock().unwrap().rw = Some(cx.waker().clone()) }
    pub fn want_write(&self, cx: &mut Context<'_>) { self.tx.lock().unwrap().ww = Some(cx.waker().clone()) }
    pub fn shutdown(&self) { let mut p = self.tx.lock().unwrap(); p.fin = true; p.wake_r() }
    // -------------------------------------------------------------------- environment side
    /// Puts bytes on the wire regardless of capacity.
    pub fn push(&self, b: &[u8]) { let mut p = self.tx.lock().unwrap(); p.buf.extend(b); p.total += b.len() as u64; p.wake_r() }
    /// Takes up to `n` received bytes.
    pub fn take(&self, n: usize) -> Vec<u8> { let mut p = self.rx.lock().unwrap(); let n = n.min(p.buf.len()); let v = p.buf.drain(..n).collect(); if n > 0 { p.wake_w() } v }
    pub fn take_all(&self) -> Vec<u8> { self.take(usize::MAX) }
    pub fn pending(&self) -> usize { self.rx.lock().unwrap().buf.len() }
    pub fn unread(&self) -> usize { self.tx.lock().unwrap().buf.len() }
    /// The other side closed (nothing more will arrive).
    pub fn peer_closed(&self) -> bool { self.rx.lock().unwrap().fin }
    /// The other side no longer reads.
    pub fn peer_gone(&self) -> bool { self.tx.lock().unwrap().reader_gone }
    pub fn fail_reads(&self, k: io::ErrorKind) { let mut p = self.tx.lock().unwrap(); p.read_err = Some(k); p.wake_r() }
    pub fn fail_writes(&self, k: io::ErrorKind) { let mut p = self.rx.lock().unwrap(); p.write_err = Some(k); p.wake_w() }
    pub fn refuse_writes(&self) { let mut p = self.rx.lock().unwrap(); p.write_zero = true; p.wake_w() }
    /// How much the other side may still write without us taking anything.
    pub fn set_cap(&self, cap: usize) { let mut p = self.rx.lock().unwrap(); p.cap = cap; p.wake_w() }
}
impl Drop for End {
    fn drop(&mut self) {
        { let mut p = self.tx.lock().unwrap_or_else(|e| e.into_inner()); p.fin = true; p.wake_r() }
        { let mut p = self.rx.lock().unwrap_or_else(|e| e.into_inner()); p.reader_gone = true; p.wake_w() }
    }
}

// listeners
pub fn bind(name: &str) -> io::Result<(usize, std::net::SocketAddr)> {
    with(|w| {
        let mut name = name.to_string();
        if name.ends_with(":0") { w.next_port += 2; name = format!("{}{}", &name[..name.len() - 1], w.next_port); }
        if w.listeners.iter().any(|l| l.open && l.addr == name) { return Err(io::ErrorKind::AddrInUse.into()); }
        if with_refused_binds(&name) { return Err(io::ErrorKind::AddrNotAvailable.into()); }
        let port = name.rsplit(':').next().and_then(|p| p.parse().ok()).unwrap_or(1);
        w.listeners.push(ListenerSt { addr: name, queue: VecDeque::new(), waker: None, open: true });
        Ok((w.listeners.len() - 1, addr(port)))
    })
}
thread_local!(static REFUSED_BINDS: RefCell<Vec<String>> = const { RefCell::new(vec![]) });
fn with_refused_binds(n: &str) -> bool { REFUSED_BINDS.with(|r| r.borrow().iter().any(|x| x == n)) }
/// Binding to these addresses fails.
pub fn refuse_binds(v: Vec<String>) { REFUSED_BINDS.with(|r| *r.borrow_mut() = v) }
pub fn close_listener(id: usize) { if active() { with(|w| w.listeners[id].open = false) } }
pub fn poll_accept(id: usize, cx: &mut Context<'_>) -> Poll<io::Result<(End, std::net::SocketAddr)>> {
    with(|w| match w.listeners[id].queue.pop_front() { Some(r) => Poll::Ready(r), None => { w.listeners[id].waker = Some(cx.waker().clone()); Poll::Pending } })
}
pub fn bound_addrs() -> Vec<String> { with(|w| w.listeners.iter().filter(|l| l.open).map(|l| l.addr.clone()).collect()) }
/// Environment: connect to a listener of the code under test.
pub fn dial(name: &str, cap: usize) -> Option<End> {
    let id = with(|w| w.listeners.iter().position(|l| l.open && l.addr == name))?;
    let (a, b) = pair(cap);
    let wk = with(|w| { let p = b.peer; w.listeners[id].queue.push_back(Ok((b, p))); w.listeners[id].waker.take() });
    if let Some(k) = wk { k.wake() }
    Some(a)
}
/// Environment: the next accept on this listener fails.
pub fn fail_accept(name: &str, k: io::ErrorKind) {
    let wk = with(|w| { let id = w.listeners.iter().position(|l| l.open && l.addr == name)?; w.listeners[id].queue.push_back(Err(k.into())); w.listeners[id].waker.take() });
    if let Some(k) = wk { k.wake() }
}
/// How many dialled connections were not accepted yet.
pub fn backlog(name: &str) -> usize { with(|w| w.listeners.iter().find(|l| l.open && l.addr == name).map(|l| l.queue.len()).unwrap_or(0)) }
/// Environment: what happens on connects to `name`.
pub fn upstream(name: &str, policy: ConnectPolicy) { with(|w| { w.upstreams.entry(name.to_string()).or_insert(Upstream { policy, queue: VecDeque::new(), attempts: 0 }).policy = policy }) }
/// Environment: next connection made to `name`.
pub fn accepted(name: &str) -> Option<End> { with(|w| w.upstreams.get_mut(name)?.queue.pop_front()) }
pub fn attempts(name: &str) -> usize { with(|w| w.upstreams.get(name).map(|u| u.attempts).unwrap_or(0)) }
/// All names connected to, with the number of attempts (unknown names included).
pub fn all_attempts() -> Vec<(String, usize)> { let mut v: Vec<_> = with(|w| w.upstreams.iter().filter(|(_, u)| u.attempts > 0).map(|(k, u)| (k.clone(), u.attempts)).collect()); v.sort(); v }
pub const CONN_CAP: usize = 1 << 16;
pub async fn connect(name: String) -> io::Result<End> {
    if let Some(e) = dial(&name, CONN_CAP) { return Ok(e); }
    let pol = with(|w| { let u = w.upstreams.entry(name.clone()).or_insert(Upstream { policy: ConnectPolicy::Refuse, queue: VecDeque::new(), attempts: 0 }); u.attempts += 1; u.policy });
    match pol {
        ConnectPolicy::Refuse => Err(io::ErrorKind::ConnectionRefused.into()),
        ConnectPolicy::Hang => std::future::pending().await,
        ConnectPolicy::Accept => { let (a, b) = pair(CONN_CAP); with(|w| w.upstreams.get_mut(&name).unwrap().queue.push_back(b)); Ok(a) }
    }
}
