//! Counters that are far ahead, as in a process that has run for a very long time.
use imap_types::core::Tag;
use mc_engine::{viol, Out};

use crate::*;

/// Close to where something may overflow, ascending.
const FAR: [u64; 17] = [120, 250, 999_995, (1 << 15) + 1_000_000, (1 << 24) - 4, (1 << 31) - 4, (1 << 32) - 4, (1 << 32) + 65_530, (1 << 33) - 4, 9_999_999_995, (1 << 40) - 4, (1 << 48) - 4, (1 << 53) - 4, (1 << 56) - 4, (1 << 62) - 4, (1 << 63) - 4, (1 << 63) + (1 << 62)];

/// Where in the object the counter is that `step` increments by one; None if there is no such thing.
fn counter<T>(x: &mut T, mut step: impl FnMut(&mut T)) -> Option<usize> {
    let words = std::mem::size_of::<T>() / 8;
    if std::mem::align_of::<T>() != 8 { return None; }
    let read = |x: &T| (0..words).map(|i| unsafe { std::ptr::read_volatile((x as *const T as *const u64).add(i)) }).collect::<Vec<u64>>();
    let mut at = None;
    for _ in 0..4 {
        let a = read(x);
        step(x);
        let b = read(x);
        let d: Vec<usize> = (0..words).filter(|&i| a[i] != b[i]).collect();
        if d.len() != 1 || b[d[0]] != a[d[0]].wrapping_add(1) || at.is_some_and(|k| k != d[0]) { return None; }
        at = Some(d[0]);
    }
    at
}
fn set<T>(x: &mut T, at: usize, v: u64) { unsafe { std::ptr::write_volatile((x as *mut T as *mut u64).add(at), v) } }

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct K(handle_ctl::RawHandle);
impl handle_ctl::Handle for K { fn from_raw(h: handle_ctl::RawHandle) -> Self { K(h) } }
impl std::fmt::Debug for K { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "(generator {}, handle {})", self.0.generator_id(), self.0.handle_id()) } }

pub fn run(kind: &str) -> Out {
    match kind {
        "handles" => {
            let gg = handle_ctl::HandleGeneratorGenerator::<K>::new();
            let mut gs: Vec<_> = (0..4).map(|_| gg.generate()).collect();
            for f in FAR { ctl::jump_to(vec![f]); for _ in 0..6 { gs.push(gg.generate()) } }
            ctl::jump_to(vec![]);
            let mut o = vec![];
            for g in &mut gs {
                for _ in 0..4 { o.push(g.generate()) }
                let mut keep = vec![];
                if let Some(at) = counter(g, |g| keep.push(g.generate())) { o.extend(keep); for f in FAR { set(g, at, f); for _ in 0..6 { o.push(g.generate()) } } }
            }
            distinct("H01", "handles of a long-running process", &o)
        }
        "clients" | "servers" => {
            let (mut o, mut p) = (vec![], vec![]);
            let mut one = || if kind == "clients" { let mut c = new_client(); for _ in 0..4 { o.push(c.enqueue_command(cmd())) } } else { let mut c = new_server(); for x in 0..4 { p.push(server_handle(&mut c, x)) } };
            for _ in 0..4 { one() }
            for f in FAR { ctl::jump_to(vec![f]); for _ in 0..6 { one() } }
            ctl::jump_to(vec![]);
            distinct("H01", "command handles of a long-running process", &o)?;
            distinct("H01", "response handles of a long-running process", &p)
        }
        "tags-debug" | "tags-release" => {
            macro_rules! go { ($m:ident, $release:expr) => {{
                let mut gs: Vec<_> = (0..4).map(|_| $m::TagGenerator::new()).collect();
                for f in FAR { ctl::jump_to(vec![f]); for _ in 0..6 { gs.push($m::TagGenerator::new()) } }
                ctl::jump_to(vec![]);
                let mut o: Vec<Tag<'static>> = vec![];
                for g in &mut gs {
                    for _ in 0..4 { o.push(g.generate()) }
                    let mut keep = vec![];
                    if let Some(at) = counter(g, |g| keep.push(g.generate())) { o.extend(keep); for f in FAR { set(g, at, f); for _ in 0..6 { o.push(g.generate()) } } }
                }
                if o.is_empty() { return viol!(["H02"], "none", "no tags"); }
                all_tags($release, &o)
            }} }
            if kind == "tags-debug" { go!(tags_debug, false) } else { go!(tags_release, true) }
        }
        k => panic!("unknown program {k}"),
    }
}
