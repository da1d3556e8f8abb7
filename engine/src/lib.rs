//! Bounded exhaustive exploration of the real code.
//!
//! An *execution* is a deterministic function of a tape of choices. [`explore`] enumerates every
//! tape: each choice point offers `n` alternatives, alternative 0 is the default, and every other
//! alternative is visited exactly once. *Bounded* choices (`choose_dev`) cost one unit of a
//! deviation budget when a non-default alternative is taken (like a preemption bound).
//! No randomness is involved anywhere.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[macro_export]
macro_rules! say { ($($a:tt)*) => { $crate::say(format_args!($($a)*)) }; }
pub mod death;
pub mod kinds;
pub mod report;
pub use report::*;

/// A broken property observed in one execution.
#[derive(Clone, Debug)]
pub struct Viol {
    /// Properties this observation breaks. Empty: breaks whichever property is being checked.
    pub props: Vec<&'static str>,
    /// Stable key of the failing situation (used by the known-findings file).
    pub key: String,
    /// Human readable description.
    pub msg: String,
}
impl Viol {
    pub fn new(props: &[&'static str], key: impl Into<String>, msg: impl Into<String>) -> Self {
        Viol { props: props.to_vec(), key: key.into(), msg: msg.into() }
    }
    pub fn concerns(&self, prop: &str) -> bool { self.props.is_empty() || self.props.contains(&prop) }
}
#[macro_export]
macro_rules! viol {
    ($props:expr, $key:expr, $($arg:tt)*) => { Err($crate::Viol::new(&$props, $key, format!($($arg)*))) };
}
pub type Out = Result<(), Viol>;

/// Chooser: source of all nondeterminism of one execution.
pub struct Ch {
    prefix: Vec<u16>,
    taken: Vec<u16>,
    arity: Vec<u16>,
    /// whether a deviation at this point costs budget
    bounded: Vec<bool>,
    dev_used: u32,
    pub transitions: u64,
    states: Vec<u64>,
    shared: Option<Arc<Shared>>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub cut: bool,
    pub notes: Vec<String>,
}
impl Ch {
    pub fn replay(prefix: Vec<u16>) -> Self {
        Ch { prefix, taken: vec![], arity: vec![], bounded: vec![], dev_used: 0, transitions: 0, states: vec![], shared: None, tracing: true, trace: vec![], cut: false, notes: vec![] }
    }
    fn pick(&mut self, n: usize, bounded: bool) -> usize {
        assert!(n >= 1 && n < 60000, "choice arity {n}");
        if n == 1 { return 0; }
        let i = self.taken.len();
        let c = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        if c >= n { panic!("MC-ENGINE: nondeterministic execution (choice {c} of {n} at {i})"); }
        self.taken.push(c as u16);
        self.arity.push(n as u16);
        self.bounded.push(bounded);
        if bounded && c != 0 { self.dev_used += 1; }
        c
    }
    /// Free choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize { self.pick(n, false) }
    /// Free choice among many alternatives.
    pub fn choose_big(&mut self, n: usize) -> usize {
        const K: usize = 256;
        let hi = self.pick(n.div_ceil(K), false);
        hi * K + self.pick((n - hi * K).min(K), false)
    }
    /// Choice among `n` alternatives where any but the first costs one deviation.
    pub fn choose_dev(&mut self, n: usize) -> usize { self.pick(n, true) }
    /// Records one transition into the state with the given fingerprint.
    pub fn step(&mut self, fp: u64) { self.transitions += 1; self.states.push(fp); }
    /// State-pruned exploration: true when this state was already explored with at least
    /// `remaining` steps left; the caller should end the execution.
    pub fn seen(&mut self, fp: u64, remaining: u32) -> bool {
        // Never cut while replaying the prefix: those states were visited by the run that spawned us.
        if self.taken.len() < self.prefix.len() { return false; }
        let Some(sh) = &self.shared else { return false };
        let cut = sh.visited(fp, remaining);
        if cut { self.cut = true; }
        cut
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) { if self.tracing { let s = f(); self.trace.push(s); } }
    pub fn tape(&self) -> &[u16] { &self.taken }
    pub fn in_prefix(&self) -> bool { self.taken.len() < self.prefix.len() }
}

struct Shared {
    vis: Vec<Mutex<std::collections::HashMap<u64, u32>>>,
    states: Vec<Mutex<HashSet<u64>>>,
    stack: Mutex<Vec<(Vec<u16>, u32)>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    execs: AtomicU64,
    transitions: AtomicU64,
    cuts: AtomicU64,
    foreign: Mutex<BTreeMap<String, u64>>,
    found: Mutex<Vec<(Viol, Vec<u16>)>>,
    known_hits: Mutex<BTreeMap<String, u64>>,
    max_depth: AtomicUsize,
    samples: Mutex<Vec<String>>,
    diverged: AtomicBool,
}
impl Shared {
    fn visited(&self, fp: u64, remaining: u32) -> bool {
        let mut m = self.vis[(fp % self.vis.len() as u64) as usize].lock().unwrap();
        match m.get_mut(&fp) {
            Some(r) if *r >= remaining => true,
            Some(r) => { *r = remaining; false }
            None => { m.insert(fp, remaining); false }
        }
    }
}

pub struct Scenario {
    pub name: String,
    pub dev_budget: u32,
    /// explored by one worker only (executions share process-wide state)
    pub serial: bool,
    /// watchdog limit in seconds (0: default)
    pub hang: u64,
    pub run: Box<dyn Fn(&mut Ch) -> Out + Send + Sync>,
}
impl Scenario {
    pub fn new(name: impl Into<String>, run: impl Fn(&mut Ch) -> Out + Send + Sync + 'static) -> Self {
        Scenario { name: name.into(), dev_budget: 0, serial: false, hang: 0, run: Box::new(run) }
    }
    pub fn dev(mut self, n: u32) -> Self { self.dev_budget = n; self }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub execs: u64,
    pub states: u64,
    pub transitions: u64,
    pub cuts: u64,
    pub complete: bool,
    pub max_depth: usize,
    pub foreign: BTreeMap<String, u64>,
    pub known_hits: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub found: Vec<(Viol, Vec<u16>)>,
    pub wall: f64,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn install_panic_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let quiet = QUIET.with(|q| *q.borrow());
            if quiet {
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                PANIC_MSG.with(|p| { let mut p = p.borrow_mut(); if p.is_none() { *p = Some(format!("{msg} at {loc}")) } });
            } else { prev(info) }
        }));
    });
}
/// Runs `f`; a panic becomes `Err(message with location)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Runs one execution; panics of the code under test become violations of every property.
pub fn run_one(sc: &Scenario, ch: &mut Ch) -> Out {
    match guarded(|| (sc.run)(ch)) {
        Ok(r) => r,
        // The code under test does not depend on the choices alone: this branch cannot be followed.
        Err(m) if m.contains("MC-ENGINE: nondeterministic") => Err(Viol::new(&["-"], "nondeterministic", "the execution cannot be repeated")),
        Err(m) if m.contains("MC-ENGINE") => { eprintln!("engine error: {m} in {} tape {:?}", sc.name, ch.prefix); death::leave(3) }
        Err(m) => Err(Viol::new(&[], format!("panic:{}", panic_key(&m)), format!("panic: {m}"))),
    }
}
/// Panic message without source position.
pub fn panic_key(m: &str) -> String { m.rsplit_once(" at ").map(|x| x.0).unwrap_or(m).chars().take(120).collect() }

struct Slot { started: Mutex<Option<(Instant, Vec<u16>)>> }

/// Enumerates all executions of `sc`.
pub fn explore(sc: &Scenario, prop: &'static str, known: &Known, threads: usize, deadline: Instant, hang_limit: Duration) -> Stats {
    install_panic_hook();
    let threads = if sc.serial { 1 } else { threads };
    let hang_limit = if sc.hang > 0 { Duration::from_secs(sc.hang) } else { hang_limit };
    let t0 = Instant::now();
    let shards = 64;
    let sh = Arc::new(Shared {
        vis: (0..shards).map(|_| Mutex::new(Default::default())).collect(),
        states: (0..shards).map(|_| Mutex::new(HashSet::new())).collect(),
        stack: Mutex::new(vec![(vec![], sc.dev_budget)]),
        cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false),
        execs: AtomicU64::new(0), transitions: AtomicU64::new(0), cuts: AtomicU64::new(0),
        foreign: Default::default(), found: Default::default(), known_hits: Default::default(),
        max_depth: AtomicUsize::new(0), samples: Default::default(), diverged: AtomicBool::new(false),
    });
    let timed_out = AtomicBool::new(false);
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { started: Mutex::new(None) }).collect();
    let finished = AtomicBool::new(false);
    std::thread::scope(|s| {
        // Watchdog: an execution that never ends is a violation in itself.
        let dog = {
            let (slots, finished, sh, sc) = (&slots, &finished, &sh, &sc);
            let h = s.spawn(move || {
                while !finished.load(Ordering::SeqCst) {
                    std::thread::park_timeout(Duration::from_millis(50));
                    for sl in slots {
                        let g = sl.started.lock().unwrap();
                        if let Some((t, tape)) = &*g {
                            if t.elapsed() > hang_limit {
                                let v = Viol::new(&[], "hang", format!("execution did not end within {hang_limit:?} (endless loop)"));
                                eprintln!("watchdog: {} {:?}", sc.name, tape);
                                report::emergency_violation(prop, &sc.name, &v, tape, sh.execs.load(Ordering::Relaxed), sh.transitions.load(Ordering::Relaxed));
                            }
                        }
                    }
                }
            });
            h.thread().clone()
        };
        let hs: Vec<_> = (0..threads).map(|w| {
            let (sh, slots, timed_out) = (sh.clone(), &slots, &timed_out);
            s.spawn(move || {
                let mut local: Vec<(Vec<u16>, u32)> = vec![];
                let mut states: HashSet<u64> = HashSet::new();
                let flush = |states: &mut HashSet<u64>| {
                    for f in states.drain() { sh.states[(f % shards as u64) as usize].lock().unwrap().insert(f); }
                };
                let mut n = 0u64;
                'outer: loop {
                    let item = match local.pop() {
                        Some(i) => i,
                        None => {
                            let mut st = sh.stack.lock().unwrap();
                            loop {
                                if sh.stop.load(Ordering::Relaxed) { break 'outer; }
                                if let Some(i) = st.pop() { break i; }
                                if sh.idle.fetch_add(1, Ordering::SeqCst) + 1 == threads {
                                    sh.stop.store(true, Ordering::SeqCst);
                                    sh.cv.notify_all();
                                    break 'outer;
                                }
                                st = sh.cv.wait(st).unwrap();
                                if sh.stop.load(Ordering::Relaxed) { break 'outer; }
                                sh.idle.fetch_sub(1, Ordering::SeqCst);
                            }
                        }
                    };
                    let (prefix, budget) = item;
                    let plen = prefix.len();
                    // budget left at the end of the prefix
                    let first = n == 0 && w == 0 && plen == 0;
                    let mut ch = Ch { prefix, taken: vec![], arity: vec![], bounded: vec![], dev_used: 0, transitions: 0, states: vec![], shared: Some(sh.clone()), tracing: first || n == 200_000, trace: vec![], cut: false, notes: vec![] };
                    *slots[w].started.lock().unwrap() = Some((Instant::now(), ch.prefix.clone()));
                    death::begin(prop, &sc.name, &ch.prefix);
                    let mut r = run_one(sc, &mut ch);
                    death::end();
                    *slots[w].started.lock().unwrap() = None;
                    n += 1;
                    if ch.taken.len() < plen && r.is_ok() { r = Err(Viol::new(&["-"], "nondeterministic", "the execution cannot be repeated")); }
                    if matches!(&r, Err(v) if v.props == ["-"]) { sh.diverged.store(true, Ordering::Relaxed); }
                    sh.execs.fetch_add(1, Ordering::Relaxed);
                    sh.transitions.fetch_add(ch.transitions, Ordering::Relaxed);
                    sh.max_depth.fetch_max(ch.taken.len(), Ordering::Relaxed);
                    if ch.cut { sh.cuts.fetch_add(1, Ordering::Relaxed); }
                    if ch.tracing { let mut s = sh.samples.lock().unwrap(); if s.len() < 3 { s.push(format!("{}: {}", sc.name, ch.trace.join(" ; "))); } }
                    for f in ch.states.drain(..) { states.insert(f); }
                    if states.len() > 50_000 { flush(&mut states); }
                    match r {
                        Ok(()) => {}
                        Err(v) if !v.concerns(prop) => { *sh.foreign.lock().unwrap().entry(format!("{:?}/{}", v.props, v.key)).or_default() += 1; }
                        Err(v) => {
                            if let Some(k) = known.matches(prop, &v) { *sh.known_hits.lock().unwrap().entry(k).or_default() += 1; }
                            else {
                                let mut f = sh.found.lock().unwrap();
                                f.push((v, ch.taken.clone()));
                                if f.len() >= 8 { sh.stop.store(true, Ordering::SeqCst); drop(f); let _g = sh.stack.lock().unwrap(); sh.cv.notify_all(); }
                            }
                        }
                    }
                    // Alternatives not yet covered.
                    for i in plen.min(ch.taken.len())..ch.taken.len() {
                        if ch.bounded[i] && budget == 0 { continue; }
                        for c in (1..ch.arity[i]).rev() {
                            let mut p = ch.taken[..i].to_vec();
                            p.push(c);
                            local.push((p, budget - if ch.bounded[i] { 1 } else { 0 }));
                        }
                    }
                    if sh.stop.load(Ordering::Relaxed) { break; }
                    if n % 64 == 0 && Instant::now() > deadline { timed_out.store(true, Ordering::Relaxed); sh.stop.store(true, Ordering::SeqCst); let _g = sh.stack.lock().unwrap(); sh.cv.notify_all(); break; }
                    // Donate the shallowest half when others are idle.
                    if sh.idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
                        let k = local.len() / 2;
                        let give: Vec<_> = local.drain(..k).collect();
                        sh.stack.lock().unwrap().extend(give);
                        sh.cv.notify_all();
                    }
                }
                flush(&mut states);
            })
        }).collect();
        for h in hs { h.join().unwrap(); }
        finished.store(true, Ordering::SeqCst);
        dog.unpark();
    });
    let mut st = Stats {
        execs: sh.execs.load(Ordering::Relaxed), transitions: sh.transitions.load(Ordering::Relaxed), cuts: sh.cuts.load(Ordering::Relaxed),
        states: sh.states.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
        complete: !timed_out.load(Ordering::Relaxed) && !sh.diverged.load(Ordering::Relaxed), max_depth: sh.max_depth.load(Ordering::Relaxed),
        foreign: sh.foreign.lock().unwrap().clone(), known_hits: sh.known_hits.lock().unwrap().clone(),
        samples: sh.samples.lock().unwrap().clone(), found: sh.found.lock().unwrap().clone(), wall: t0.elapsed().as_secs_f64(),
    };
    st.found.sort_by_key(|(_, t)| t.len());
    if !st.found.is_empty() { st.complete = false; }
    st
}

/// 64-bit fingerprint.
pub fn fp<T: Hash>(t: &T) -> u64 {
    let mut h = Fx(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { let mut x = self.0; x ^= x >> 33; x = x.wrapping_mul(0xff51afd7ed558ccd); x ^= x >> 33; x }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut a = [0u8; 8]; a[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(a) ^ ((c.len() as u64) << 56)); } }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64 + 1) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
}
pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    let show = if b.len() > 160 { &b[..160] } else { b };
    for c in show { match c { b'\r' => s.push_str("\\r"), b'\n' => s.push_str("\\n"), 0x20..=0x7e => s.push(*c as char), _ => s.push_str(&format!("\\x{c:02x}")) } }
    if b.len() > 160 { s.push_str(&format!("...[{} bytes]", b.len())) }
    s
}
