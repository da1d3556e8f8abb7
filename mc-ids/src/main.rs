//! Model checks of handle and tag uniqueness.
#![allow(dead_code, unused_imports, clippy::all)]
mod child;
mod ctl;
mod far;

/// The real source with `std::sync` controlled.
mod imap_next { include!(concat!(env!("OUT_DIR"), "/imap/lib.rs")); }
mod tags_debug { include!(concat!(env!("OUT_DIR"), "/tags_debug.rs")); }
mod tags_release { include!(concat!(env!("OUT_DIR"), "/tags_release.rs")); }
/// The same once more, with counters of its own: another process, as it were.
mod tags_release_again { include!(concat!(env!("OUT_DIR"), "/tags_release.rs")); }
mod handle_ctl { include!(concat!(env!("OUT_DIR"), "/handle_ctl.rs")); }
/// The real source unchanged, for long runs.
#[path = "/repo/src/handle.rs"]
mod handle;

use std::collections::HashSet;
use std::sync::{Arc, Mutex};

use imap_next::{client, server, Interrupt, Io, State};
use imap_types::{
    command::{Command, CommandBody},
    core::{Tag, Text},
    response::{Data, Greeting, Status, CommandContinuationRequest},
};
use mc_engine::{viol, Ch, Out, Scenario, Viol};

/// Runs `progs` on one OS thread each under the controlled scheduler; the explorer picks who moves
/// at every synchronization operation.
fn schedule<T: Send>(ask: &mut child::Ask, prop: &'static str, progs: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> Result<Vec<T>, Viol> {
    let n = progs.len();
    let s = ctl::Sched::new(n);
    let out: Vec<Mutex<Option<Result<T, String>>>> = (0..n).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for (i, p) in progs.into_iter().enumerate() {
            let (s, o) = (s.clone(), &out[i]);
            sc.spawn(move || {
                s.enter(i);
                *o.lock().unwrap() = Some(mc_engine::guarded(p));
                s.leave(i);
            });
        }
        let mut st = s.st.lock().unwrap();
        let (mut last, mut steps) = (None, 0);
        loop {
            while !(st.turn.is_none() && (0..n).all(|i| st.parked[i] || st.done[i])) { st = s.cv.wait(st).unwrap(); }
            let mut run = st.runnable();
            if run.is_empty() && st.done.iter().all(|d| *d) { break; }
            steps += 1;
            if run.is_empty() || steps > 20_000 {
                // everyone waits for everyone else: the threads cannot be ended, the process can
                println!("V deadlock\u{1f}all threads wait: {:?}", st.what);
                std::process::exit(0);
            }
            // going on with the same thread is free, as is choosing when that one cannot go on; taking its turn away counts
            let preempt = last.and_then(|l| run.iter().position(|&i| i == l)).map(|p| { let l = run.remove(p); run.insert(0, l) }).is_some();
            let labels: Vec<String> = run.iter().map(|&i| format!("thread {i}: {}", st.what[i])).collect();
            let i = run[ask.choose(run.len(), &labels, preempt)];
            last = Some(i);
            st.go(i);
            s.cv.notify_all();
        }
    });
    out.into_iter().map(|o| o.into_inner().unwrap().unwrap().map_err(|p| Viol::new(&[prop], format!("panic: {}", mc_engine::panic_key(&p)), p))).collect()
}
type Prog<T> = Box<dyn FnOnce() -> T + Send>;

/// The concurrent programs: (threads, connections or generators per thread, messages or tags each, preemptions).
fn sizes(thorough: bool) -> Vec<(usize, usize, usize, u32)> {
    if thorough { vec![(2, 1, 3, 99), (2, 2, 2, 99), (2, 4, 2, 6), (2, 7, 1, 5), (3, 2, 2, 4), (3, 3, 1, 4), (4, 1, 2, 4)] }
    else { vec![(2, 1, 3, 99), (2, 2, 1, 6), (2, 4, 2, 4), (3, 2, 1, 3), (3, 1, 2, 4), (4, 1, 1, 3)] }
}
fn child_main(prog: &str) -> ! {
    let w: Vec<&str> = prog.split('/').collect();
    if w[1] == "far" { child::serve(|_| far::run(w[0])) }
    let (t, g, k): (usize, usize, usize) = (w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap());
    macro_rules! tags { ($m:ident, $release:expr) => { child::serve(|a| {
        let r = schedule(a, "H02", (0..t).map(|_| Box::new(move || { let mut o = vec![]; let mut gs = vec![]; for _ in 0..g { gs.push($m::TagGenerator::new()); for x in gs.iter_mut() { for _ in 0..k { o.push(x.generate()); } } } o }) as Prog<_>).collect())?;
        all_tags($release, &r.into_iter().flatten().collect::<Vec<_>>())
    }) } }
    match w[0] {
        "clients" => child::serve(|a| {
            let r = schedule(a, "H01", (0..t).map(|_| Box::new(move || { let mut o = vec![]; for _ in 0..g { let mut c = new_client(); for _ in 0..k { o.push(c.enqueue_command(cmd())); } } o }) as Prog<_>).collect())?;
            distinct("H01", "command handles of clients created concurrently", &r.into_iter().flatten().collect::<Vec<_>>())
        }),
        "servers" => child::serve(|a| {
            let r = schedule(a, "H01", (0..t).map(|_| Box::new(move || { let mut o = vec![]; for _ in 0..g { let mut c = new_server(); for x in 0..k { o.push(server_handle(&mut c, x)); } } o }) as Prog<_>).collect())?;
            distinct("H01", "response handles of servers created concurrently", &r.into_iter().flatten().collect::<Vec<_>>())
        }),
        "both" => child::serve(|a| {
            // a process that is client and server at once
            let r = schedule(a, "H01", (0..t).map(|i| Box::new(move || { let (mut o, mut p) = (vec![], vec![]); for x in 0..g { if (i + x) % 2 == 0 { let mut c = new_client(); for _ in 0..k { o.push(c.enqueue_command(cmd())) } } else { let mut c = new_server(); for x in 0..k { p.push(server_handle(&mut c, x)) } } } (o, p) }) as Prog<_>).collect())?;
            let (a, b): (Vec<_>, Vec<_>) = r.into_iter().unzip();
            distinct("H01", "command handles", &a.into_iter().flatten().collect::<Vec<_>>())?;
            distinct("H01", "response handles", &b.into_iter().flatten().collect::<Vec<_>>())
        }),
        "tags-debug" => tags!(tags_debug, false),
        "tags-release" => tags!(tags_release, true),
        x => panic!("unknown program {x}"),
    }
}
fn children(v: &mut Vec<Scenario>, prop: &'static str, kinds: &[&str], thorough: bool) {
    for kind in kinds {
        for (t, g, k, preempt) in sizes(thorough) {
            let prog = format!("{kind}/{t}/{g}/{k}");
            v.push(Scenario::new(format!("{kind}/{t}-threads-{g}-generators-{k}-each"), move |ch| child::run(ch, prop, &prog)).dev(preempt));
        }
    }
}

/// All of `v` distinct, under `==`, and as hash keys.
fn distinct<T: Eq + std::hash::Hash + Clone + std::fmt::Debug>(prop: &'static str, what: &str, v: &[T]) -> Out {
    let mut set = HashSet::with_capacity(v.len());
    for (i, x) in v.iter().enumerate() {
        #[allow(clippy::eq_op)]
        if x != x || x.clone() != *x { return viol!([prop], "not-reflexive", "{what}: {x:?} does not equal itself"); }
        if !set.insert(x) { return viol!([prop], "duplicate", "{what}: number {i} ({x:?}) was produced twice"); }
        if !set.contains(x) { return viol!([prop], "hash-unstable", "{what}: {x:?} cannot be found again in a hash set"); }
    }
    if v.len() <= 1500 {
        for i in 0..v.len() { for j in 0..v.len() { if (v[i] == v[j]) != (i == j) { return viol!([prop], "duplicate", "{what}: {:?} (number {i}) equals {:?} (number {j})", v[i], v[j]); } } }
    }
    Ok(())
}

// ---------------------------------------------------------------- raw handles
#[derive(Clone, Copy, PartialEq, Eq)]
struct H(handle::RawHandle);
impl handle::Handle for H { fn from_raw(h: handle::RawHandle) -> Self { H(h) } }
fn show(h: &H) -> String { format!("(generator {}, handle {})", h.0.generator_id(), h.0.handle_id()) }

/// Long sequential run. `next` produces the i-th handle; the identifying number must never repeat.
/// Strictly increasing numbers cannot repeat; as soon as that pattern ends the exact set decides.
fn long_run(what: &str, n: u64, id: impl Fn(&H) -> u64, mut next: impl FnMut() -> H) -> Out {
    let mut keep: Vec<H> = vec![];
    let mut last: Option<u64> = None;
    let mut ranges: Vec<(u64, u64)> = vec![]; // strictly increasing runs seen so far
    let mut cur: Option<(u64, u64)> = None;
    for i in 0..n {
        let h = next();
        let k = id(&h);
        let low = i & (i.wrapping_sub(1));
        if low == 0 || (i.wrapping_sub(1) & i.wrapping_sub(2)) == 0 || i < 40 { keep.push(h); }
        match last {
            Some(l) if k > l => {
                if k - l > 1 { if let Some(c) = cur { ranges.push(c); } cur = Some((k, k)); } else { cur.as_mut().unwrap().1 = k; }
            }
            Some(_) => { if let Some(c) = cur { ranges.push(c); } cur = Some((k, k)); }
            None => cur = Some((k, k)),
        }
        // Only relevant when runs ended: is k inside an earlier run?
        if !ranges.is_empty() {
            if ranges.iter().any(|&(a, b)| a <= k && k <= b) { return viol!(["H01"], "duplicate", "{what}: number {i} repeats the identity {} of an earlier one", show(&h)); }
            if ranges.len() > 4096 { return Ok(()); }
        }
        last = Some(k);
    }
    for i in 0..keep.len() { for j in 0..keep.len() { if (keep[i] == keep[j]) != (i == j) { return viol!(["H01"], "duplicate", "{what}: {} equals {}", show(&keep[i]), show(&keep[j])); } } }
    Ok(())
}

fn cmd() -> Command<'static> { Command::new(Tag::try_from("A").unwrap(), CommandBody::Noop).unwrap() }
fn new_client() -> client::Client { client::Client::new(client::Options::default()) }
fn greeting() -> Greeting<'static> { Greeting::ok(None, "hi").unwrap() }
fn new_server() -> server::Server { server::Server::new(server::Options::default(), greeting()) }
fn server_handle(s: &mut server::Server, k: usize) -> server::ResponseHandle {
    match k % 3 {
        0 => s.enqueue_data(Data::Exists(1)),
        1 => s.enqueue_status(Status::ok(None, None, "x").unwrap()),
        _ => s.enqueue_continuation_request(CommandContinuationRequest::basic(None, "go on").unwrap()),
    }
}

fn handles(v: &mut Vec<Scenario>, thorough: bool) {
    // every interleaving of concurrent creation
    children(v, "H01", &["clients", "servers", "both"], thorough);
    for k in ["handles", "clients", "servers"] { v.push(Scenario::new(format!("{k}/far"), move |ch| child::run(ch, "H01", &format!("{k}/far")))); }
    // many connections, many messages
    v.push(Scenario::new("clients/many", |ch| {
        let (n, m) = [(1500usize, 1usize), (30, 50), (200_000, 1), (1, 200_000), (700, 300)][ch.choose(5)];
        let mut o = vec![];
        for _ in 0..n { let mut c = new_client(); for _ in 0..m { o.push(c.enqueue_command(cmd())); } }
        ch.step(mc_engine::fp(&(n, m)));
        distinct("H01", "command handles", &o)
    }));
    v.push(Scenario::new("servers/many", |ch| {
        let (n, m) = [(1500usize, 1usize), (30, 50), (200_000, 1), (1, 200_000), (700, 300)][ch.choose(5)];
        let mut o = vec![];
        for _ in 0..n { let mut c = new_server(); for x in 0..m { o.push(server_handle(&mut c, x)); } }
        ch.step(mc_engine::fp(&(n, m)));
        distinct("H01", "response handles", &o)
    }));
    // the counters far beyond any realistic process lifetime
    let big: u64 = if thorough { (1 << 33) + 7 } else { (1 << 32) + 7 };
    let huge: u64 = (1 << 32) + 7;
    v.push(Scenario::new("counters/long", move |ch| {
        static GG: handle::HandleGeneratorGenerator<H> = handle::HandleGeneratorGenerator::new();
        let c = ch.choose(3);
        ch.step(c as u64);
        match c {
            0 => { let gg = handle::HandleGeneratorGenerator::<H>::new(); let mut g = gg.generate(); long_run("handles of one generator", big, |h| h.0.handle_id(), || g.generate()) }
            1 => { let gg = handle::HandleGeneratorGenerator::<H>::new(); long_run("first handles of all generators", huge, |h| h.0.generator_id(), || gg.generate().generate()) }
            _ => {
                // two generators used alternately, and a third one later
                let (mut a, mut b) = (GG.generate(), GG.generate());
                let mut o = vec![];
                for _ in 0..600 { o.push(a.generate()); o.push(b.generate()); }
                let mut c = GG.generate();
                for _ in 0..300 { o.push(c.generate()); }
                for i in 0..o.len() { for j in 0..o.len() { if (o[i] == o[j]) != (i == j) { return viol!(["H01"], "duplicate", "{} (number {i}) equals {} (number {j})", show(&o[i]), show(&o[j])); } } }
                Ok(())
            }
        }
    }));
    // histories: whatever happens on a connection, a handle never comes back
    let d = if thorough { 9 } else { 7 };
    v.push(Scenario::new(format!("client/histories-{d}"), move |ch| {
        let mut cs = [new_client(), new_client()];
        cs[0].enqueue_input(b"* OK hi\r\n");
        let mut o = vec![];
        for _ in 0..d {
            let c = ch.choose(7);
            match c {
                0 => o.push(cs[0].enqueue_command(cmd())),
                1 => o.push(cs[0].enqueue_command(imap_codec_cmd("LOGIN {1}\r\na b"))),
                2 => o.push(cs[0].enqueue_command(imap_codec_cmd("IDLE"))),
                3 => cs[0].enqueue_input(b"+ go\r\n"),
                4 => cs[0].enqueue_input(b"A BAD x\r\n"),
                5 => { cs[0].set_idle_done(); }
                _ => o.push(cs[1].enqueue_command(cmd())),
            }
            while !matches!(cs[0].next(), Err(Interrupt::Io(Io::NeedMoreInput)) | Err(Interrupt::Error(_))) {}
            ch.step(mc_engine::fp(&format!("{cs:?}")));
        }
        o.push(cs[0].enqueue_command(cmd()));
        distinct("H01", "command handles in one history", &o)
    }));
    v.push(Scenario::new(format!("server/histories-{d}"), move |ch| {
        let mut cs = [new_server(), new_server()];
        let mut o = vec![];
        for _ in 0..d {
            match ch.choose(7) {
                0 => o.push(cs[0].enqueue_data(Data::Exists(1))),
                1 => o.push(cs[0].enqueue_status(Status::ok(None, None, "x").unwrap())),
                2 => { if let Ok(h) = cs[0].idle_accept(CommandContinuationRequest::basic(None, "idling").unwrap()) { o.push(h) } }
                3 => { if let Ok(h) = cs[0].authenticate_continue(CommandContinuationRequest::basic(None, "more ?").unwrap()) { o.push(h) } }
                4 => cs[0].enqueue_input(b"A IDLE\r\n"),
                5 => cs[0].enqueue_input(b"A AUTHENTICATE PLAIN\r\n"),
                _ => o.push(cs[1].enqueue_data(Data::Exists(1))),
            }
            while !matches!(cs[0].next(), Err(Interrupt::Io(Io::NeedMoreInput)) | Err(Interrupt::Error(_))) {}
            ch.step(mc_engine::fp(&format!("{cs:?}")));
        }
        o.push(cs[0].enqueue_data(Data::Exists(1)));
        distinct("H01", "response handles in one history", &o)
    }));
}
fn imap_codec_cmd(s: &str) -> Command<'static> {
    use imap_codec::{decode::Decoder, CommandCodec};
    let s = format!("A {s}\r\n");
    let c = CommandCodec::default();
    // the stand-in decoder reports literals; feed it the whole text
    match c.decode(s.as_bytes()) { Ok((_, c)) => bounded_static::ToBoundedStatic::to_static(&c), Err(e) => panic!("{s:?}: {e:?}") }
}

// ---------------------------------------------------------------- tags
fn tag_ok(release: bool, t: &Tag<'static>, seen_tokens: &mut HashSet<String>, prefixes: &mut HashSet<String>) -> Out {
    let s = t.inner().to_string();
    if Tag::try_from(s.clone()).is_err() { return viol!(["H02"], "invalid-tag", "{s:?} is not a valid tag"); }
    if release {
        if s.len() < 9 { return viol!(["H02"], "no-token", "release tag {s:?} is too short for a random token"); }
        let (p, tok) = s.split_at(s.len() - 8);
        if !tok.bytes().all(|b| b.is_ascii_alphanumeric()) || p.ends_with(|c: char| c.is_ascii_alphanumeric()) { return viol!(["H02"], "bad-token", "release tag {s:?} does not end in a separate token of eight alphanumeric characters"); }
        // In a big set a few tokens may be equal by chance.
        if !seen_tokens.insert(tok.to_string()) && prefixes.len() < 5000 { return viol!(["H02"], "token-reused", "release tag {s:?} reuses a random token"); }
        if !prefixes.insert(p.to_string()) { return viol!(["H02"], "duplicate", "the tags starting with {p:?} differ only by luck of the random token"); }
    } else if !prefixes.insert(s.clone()) { return viol!(["H02"], "duplicate", "tag {s:?} was produced twice"); }
    Ok(())
}
fn all_tags(release: bool, tags: &[Tag<'static>]) -> Out {
    let (mut a, mut b) = (HashSet::new(), HashSet::new());
    for t in tags { tag_ok(release, t, &mut a, &mut b)?; }
    if release && a.len() + 3 < tags.len() { return viol!(["H02"], "token-reused", "{} release tags have only {} different random tokens", tags.len(), a.len()); }
    if release && tags.len() >= 2000 {
        // fresh randomness: every position of the token varies over the alphabet
        for p in 0..8 { let n: HashSet<u8> = a.iter().map(|t| t.as_bytes()[p]).collect(); if n.len() < 50 { return viol!(["H02"], "not-random", "position {p} of the random token takes only {} different values in {} tags", n.len(), tags.len()); } }
    }
    Ok(())
}
macro_rules! tag_scenarios { ($v:expr, $m:ident, $name:expr, $release:expr, $thorough:expr) => {{
    let release: bool = $release;
    let all = move |tags: &[Tag<'static>]| all_tags(release, tags);
    $v.push(Scenario::new(format!("tags-{}/many-from-the-start", $name), move |ch| {
        let (n, m) = [(1200usize, 130usize), (300, 300), (130, 1100), (300_000, 1), (1, 300_000), (12, 12_000)][ch.choose(6)];
        let mut o = vec![];
        for _ in 0..n { let mut g = $m::TagGenerator::new(); for _ in 0..m { o.push(g.generate()); } }
        ch.step(mc_engine::fp(&(n, m)));
        all(&o)
    }));
    $v.push(Scenario::new(format!("tags-{}/alternating", $name), move |ch| {
        // every order of using up to three generators, created at any time
        let mut gs = vec![];
        let mut o = vec![];
        for _ in 0..if $thorough { 9 } else { 7 } {
            let c = ch.choose(gs.len() + (gs.len() < 3) as usize);
            if c == gs.len() { gs.push($m::TagGenerator::new()); }
            o.push(gs[c].generate());
            ch.step(mc_engine::fp(&ch.tape().to_vec()));
        }
        all(&o)
    }));
}} }

fn main() {
    if let Ok(p) = std::env::var("MC_IDS_CHILD") { mc_engine::install_panic_hook(); child_main(&p) }
    let a = mc_engine::args();
    let prop = match a.prop.as_str() { "H01" => "H01", "H02" => "H02", _ => { eprintln!("usage: mc-ids H01|H02"); std::process::exit(2) } };
    let thorough = a.tier == "thorough";
    let mut v = vec![];
    if prop == "H01" { handles(&mut v, thorough) } else {
        children(&mut v, "H02", &["tags-debug", "tags-release"], thorough);
        for k in ["tags-debug", "tags-release"] { v.push(Scenario::new(format!("{k}/far"), move |ch| child::run(ch, "H02", &format!("{k}/far")))); }
        v.push(Scenario::new("tags-release/another-process", |ch| {
            // what is random differs from one process to the next
            let (n, m) = [(1usize, 2000usize), (2000, 1), (40, 50)][ch.choose(3)];
            let (mut a, mut b) = (HashSet::new(), vec![]);
            for _ in 0..n { let (mut g, mut h) = (tags_release::TagGenerator::new(), tags_release_again::TagGenerator::new()); for _ in 0..m { a.insert(g.generate().inner().to_string()); b.push(h.generate().inner().to_string()) } }
            ch.step(mc_engine::fp(&(n, m)));
            let token = |s: &str| s[s.len().saturating_sub(8)..].to_string();
            let a: HashSet<String> = a.iter().map(|s| token(s)).collect();
            for t in &b { if a.contains(&token(t)) { return viol!(["H02"], "token-predictable", "the random token of {t:?} also occurs in another process"); } }
            Ok(())
        }));
        tag_scenarios!(v, tags_debug, "debug", false, thorough);
        tag_scenarios!(v, tags_release, "release", true, thorough);
    }
    for s in v.iter_mut() { s.serial = s.name.contains("from-the-start") || s.name.contains("another-process"); s.hang = if s.name.contains("threads") { 60 } else { 600 }; }
    let assumptions = vec![
        "Threads are interleaved at synchronization operations under sequential consistency; the relaxed atomics used here are single read-modify-write operations, for which that is exact.".to_string(),
        "The sources are compiled from /repo with std::sync redirected to a controlled stand-in by a build script; nothing else is changed.".to_string(),
        "64-bit counters are run past 2^32 (2^33 for handles in the thorough tier), not to 2^64.".to_string(),
    ];
    mc_engine::drive(a, mc_engine::Check { prop, scenarios: v, assumptions })
}
