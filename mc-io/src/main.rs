//! Model checks of the real socket driver (`imap_next::stream::Stream`) under a simulated runtime.
mod one;
mod pair;
mod real;
mod script;
mod tls;

use mc_engine::Scenario;
use one::*;
use pair::Pair;
use real::Real;
use simrt::Policy;
use tls::TlsCfg;

pub const PROPS: &[&str] = &["T01", "T02", "T03", "T04", "T05", "T06", "T07"];

const ALL_TLS: [(bool, bool); 4] = [(true, true), (true, false), (false, true), (false, false)];
fn tls_name(c: (bool, bool)) -> String { format!("{}{}", if c.0 { "tls1.3" } else { "tls1.2" }, if c.1 { " client" } else { " server" }) }
fn tls(c: (bool, bool), frag: usize) -> Option<TlsCfg> { Some(TlsCfg { v13: c.0, client: c.1, frag }) }
fn outs(n: &[usize]) -> Vec<Vec<u8>> { let mut k = 0u8; n.iter().map(|n| (0..*n).map(|_| { k = k.wrapping_add(1); b'A' + k % 26 }).collect()).collect() }
/// `n` bytes of input in lines of varying length.
fn text(n: usize) -> Vec<u8> { (0..n).map(|i| if i + 1 == n || i % 61 == 60 { b'\n' } else { b'a' + (i % 23) as u8 }).collect() }
const DEV: Policy = Policy { short_reads: true, short_writes: true, spurious: true, select: true, bounded: true };
const SEL: Policy = Policy { short_reads: false, short_writes: false, spurious: false, select: true, bounded: false };

/// Sizes next to powers of two.
const POWERS: [usize; 12] = [255, 256, 257, 4095, 4097, 16_383, 32_769, 65_535, 65_537, 131_073, 1_048_576, 2_097_153];
/// What the operating system may report.
const KINDS: [std::io::ErrorKind; 9] = { use std::io::ErrorKind::*; [BrokenPipe, ConnectionAborted, ConnectionReset, TimedOut, NotConnected, HostUnreachable, PermissionDenied, InvalidData, Other] };
/// Numbers of messages.
const MANY: [usize; 5] = [33, 129, 257, 1025, 5000];
struct List(Vec<Scenario>);
impl List {
    fn one(&mut self, name: impl Into<String>, o: One) { self.0.push(Scenario::new(name, move |ch| one::run(&o, ch))) }
    fn one_dev(&mut self, name: impl Into<String>, n: u32, o: One) { self.0.push(Scenario::new(name, move |ch| one::run(&o, ch)).dev(n)) }
    fn pair(&mut self, name: impl Into<String>, n: u32, o: Pair) { self.0.push(Scenario::new(name, move |ch| pair::run(&o, ch)).dev(n)) }
    fn real(&mut self, name: impl Into<String>, n: u32, o: Real) { self.0.push(Scenario::new(name, move |ch| real::run(&o, ch)).dev(n)) }
}

fn scenarios(prop: &'static str, thorough: bool) -> Vec<Scenario> {
    let mut v = List(vec![]);
    let d = if thorough { 1 } else { 0 };
    let dv = d as u32;
    let cmds = vec!["a NOOP\r\n", "b LOGIN {3}\r\nusr {0}\r\n\r\n", "c AUTHENTICATE PLAIN\r\n", "d IDLE\r\n", "e CAPABILITY\r\n"];
    match prop {
        "T01" => {
            let p: &'static [&'static str] = &["T01"];
            for n in MANY { v.one(format!("{n} byte by byte"), One { input: text(n), outputs: outs(&[n, 1, n / 2]), drip: vec![n, n / 3, 9], deliver: vec![0], credit: vec![0], depth: 5 + d, policy: Policy::none(), ..One::new(p) }); }
            v.one("in and out, byte by byte", One { input: b"ab\n!x\nc\n".to_vec(), outputs: outs(&[3, 1]), depth: 11 + d, ..One::new(p) });
            v.one("echo", One { input: b"ab\nc\n".to_vec(), echo: true, depth: 11 + d, ..One::new(p) });
            v.one("outputs at any time", One { input: b"a\nb\n".to_vec(), outputs: outs(&[2, 1, 2]), preload: false, depth: 10 + d, ..One::new(p) });
            v.one("chunks of 2 and 3", One { input: b"ab\ncd\ne\n".to_vec(), outputs: outs(&[5, 4]), deliver: vec![2, 3], credit: vec![2, 3], depth: 9 + d, ..One::new(p) });
            for n in [1, 2, 127, 128, 129, 1024, 1025, 8191, 8192, 8193, 65536, 200_000] {
                v.one_dev(format!("sizes {n}"), 2 + dv, One { input: text(n), outputs: outs(&[n, 1, n]), depth: 3, cap0: n / 2, policy: DEV, ..One::new(p) });
            }
            for n in POWERS { for (a, b) in [(n, 0), (0, n), (n, n)] { v.one(format!("large {a} in {b} out"), One { input: text(a), outputs: if b > 0 { outs(&[1, b, 1]) } else { vec![] }, depth: 4, deliver: vec![0, a / 2 + 1], credit: vec![0, b / 2 + 1], policy: Policy::none(), ..One::new(p) }); } }
            for n in MANY { v.one(format!("{n} outputs"), One { input: text(500), outputs: outs(&(0..n).map(|i| 1 + i * 7 % 300).collect::<Vec<_>>()), depth: 4, deliver: vec![0, 100], credit: vec![0, n * 10], policy: Policy::none(), ..One::new(p) }); v.one(format!("{n} messages, echo"), One { input: b"a\nbc\n".repeat(n / 2 + 1), echo: true, depth: 4, deliver: vec![0, n], credit: vec![0, n], policy: Policy::none(), ..One::new(p) }); }
            v.one_dev("partial reads and writes", 4 + dv, One { input: b"abc\ndefg\nhi\n".to_vec(), outputs: outs(&[4, 6]), echo: true, depth: 5, policy: DEV, ..One::new(p) });
            for cap in [1, 3, 1 << 16] { v.real(format!("client and server, cap {cap}"), 2 + dv, Real { tls: None, cap, cmds: cmds.clone(), interrupts: 0, policy: DEV, props: p }); }
        }
        "T02" => {
            let p: &'static [&'static str] = &["T02"];
            for n in MANY { v.one(format!("{n} byte by byte"), One { input: text(n), outputs: outs(&[n, 1, n / 2]), drip: vec![n, n / 3, 9], deliver: vec![0], credit: vec![0], cancel: true, flush: true, depth: 5 + d, policy: Policy::none(), ..One::new(p) }); }
            for c in ALL_TLS { for n in [33, 129, 1025] { v.one(format!("{n} byte by byte, {}", tls_name(c)), One { tls: tls(c, 100), input: text(n), outputs: outs(&[n, 1, n / 2]), drip: vec![n, n / 3, 9], deliver: vec![0], credit: vec![0], cancel: true, flush: true, depth: 4 + d, policy: Policy::none(), ..One::new(p) }); } }
            v.one("cancel anywhere", One { input: b"ab\n!x\nc\n".to_vec(), outputs: outs(&[3, 1]), cancel: true, depth: 10 + d, ..One::new(p) });
            v.one("cancel with outputs at any time", One { input: b"a\nb\n".to_vec(), outputs: outs(&[2, 3]), preload: false, cancel: true, depth: 9 + d, ..One::new(p) });
            v.one("cancel next and flush", One { input: b"a\nb\n".to_vec(), outputs: outs(&[3, 2]), cancel: true, flush: true, credit: vec![1], depth: 10 + d, ..One::new(p) });
            v.one_dev("cancel, partial reads and writes", 3 + dv, One { input: b"abc\ndefg\n".to_vec(), outputs: outs(&[4, 6]), echo: true, cancel: true, depth: 6, policy: DEV, ..One::new(p) });
            for n in [65_537, 300_000, 1_048_577] { v.one(format!("cancel {n}"), One { input: text(200), outputs: outs(&[n, 2, n]), cancel: true, deliver: vec![0], credit: vec![n / 2 + 1, 0], depth: 7 + d, policy: Policy::none(), ..One::new(p) }); }
            for c in ALL_TLS {
                v.one(format!("cancel 100000, {}", tls_name(c)), One { tls: tls(c, 4000), input: text(20_000), outputs: outs(&[100_000, 2]), cancel: true, deliver: vec![0, 9000], credit: vec![0, 50_000], depth: 5 + d, policy: Policy::none(), ..One::new(p) });
                v.one(format!("cancel, {}", tls_name(c)), One { tls: tls(c, 4), input: b"abcd\nef\n".to_vec(), outputs: outs(&[3, 2]), cancel: true, deliver: vec![0, 23], credit: vec![0, 11], depth: 5 + d, ..One::new(p) });
                v.one(format!("cancel next and flush, {}", tls_name(c)), One { tls: tls(c, 4), input: b"ab\n".to_vec(), outputs: outs(&[3]), cancel: true, flush: true, credit: vec![11], depth: 6 + d, ..One::new(p) });
            }
            for cap in [1, 5, 1 << 16] {
                v.pair(format!("two streams, cap {cap}"), 3 + dv, Pair { tls: None, cap, out: [outs2(&[6, 3]), outs2(&[4, 4])], echo: true, interrupts: 3, policy: SEL_DEV, free: false, props: p });
                v.real(format!("client and server, cap {cap}"), 2 + dv, Real { tls: None, cap, cmds: cmds.clone(), interrupts: 3, policy: SEL_DEV, props: p });
            }
            v.real("client and server, tls1.3", 1 + dv, Real { tls: Some(true), cap: 100, cmds: cmds.clone(), interrupts: 2, policy: SEL_DEV, props: p });
        }
        "T03" => {
            let p: &'static [&'static str] = &["T03"];
            for n in MANY { v.one(format!("{n} byte by byte"), One { input: text(n), outputs: outs(&[n, 1, n / 2]), drip: vec![n, n / 3, 9], deliver: vec![0], credit: vec![0], depth: 5 + d, policy: Policy::none(), ..One::new(p) }); }
            for c in ALL_TLS { for n in [33, 129, 1025] { v.one(format!("{n} byte by byte, {}", tls_name(c)), One { tls: tls(c, 100), input: text(n), outputs: outs(&[n, 1, n / 2]), drip: vec![n, n / 3, 9], deliver: vec![0], credit: vec![0], depth: 4 + d, policy: Policy::none(), ..One::new(p) }); } }
            v.one("keeps reading while it cannot write", One { input: b"ab\ncd\nef\n".to_vec(), outputs: outs(&[4, 4]), credit: vec![1], depth: 12 + d, ..One::new(p) });
            v.one_dev("keeps reading, large", 2 + dv, One { input: text(70_000), outputs: outs(&[70_000, 10]), credit: vec![5000], deliver: vec![0, 9000], depth: 6, policy: DEV, ..One::new(p) });
            for cap in [1, 2, 7] {
                v.pair(format!("both send, cap {cap}, all schedules"), 2 + dv, Pair { tls: None, cap, out: [outs2(&[4]), outs2(&[5])], echo: false, interrupts: 0, policy: SEL_DEV, free: cap > 1, props: p });
                v.pair(format!("both send, cap {cap}"), 2 + dv, Pair { tls: None, cap, out: [outs2(&[6 * cap, 3]), outs2(&[5 * cap, 1, 9])], echo: true, interrupts: 0, policy: DEV, free: false, props: p });
            }
            v.pair("both send 40 kB", 1 + dv, Pair { tls: None, cap: 4096, out: [outs2(&[40_000]), outs2(&[40_000])], echo: false, interrupts: 0, policy: SEL_DEV, free: false, props: p });
            for n in [65_537, 1 << 20, (1 << 21) + 1] { for cap in [n / 20, 65_536, n] { v.pair(format!("both send {n}, cap {cap}"), 0, Pair { tls: None, cap, out: [outs2(&[n]), outs2(&[n])], echo: false, interrupts: 0, policy: SEL_DEV, free: false, props: p }); } }
            for t in [true, false] {
                let n = if t { "tls1.3" } else { "tls1.2" };
                for k in [200_000, 1 << 20] { v.pair(format!("both send {k}, {n}"), 0, Pair { tls: Some(t), cap: 65_536, out: [outs2(&[k]), outs2(&[k])], echo: false, interrupts: 0, policy: SEL_DEV, free: false, props: p }); }
                v.pair(format!("both send, {n}"), 2, Pair { tls: Some(t), cap: 64, out: [outs2(&[60, 30]), outs2(&[50, 1, 9])], echo: true, interrupts: 0, policy: SEL_DEV, free: false, props: p });
                v.pair(format!("both send 50 kB, {n}"), 1, Pair { tls: Some(t), cap: 8192, out: [outs2(&[50_000]), outs2(&[50_000])], echo: false, interrupts: 0, policy: SEL_DEV, free: false, props: p });
            }
            v.real("client and server, cap 2", 2 + dv, Real { tls: None, cap: 2, cmds: cmds.clone(), interrupts: 0, policy: DEV, props: p });
        }
        "T04" => {
            let p: &'static [&'static str] = &["T04"];
            use Fault::*;
            v.one("ends, with output", One { input: b"ab\n!x\nc\n".to_vec(), outputs: outs(&[3, 1]), faults: vec![Fin, ReadErr, WriteErr, WriteZero], deliver: vec![0, 1, 4], depth: 9 + d, ..One::new(p) });
            for k in KINDS {
                v.one(format!("{k:?}, with output"), One { input: b"ab\n!x\nc".to_vec(), outputs: outs(&[3, 1]), faults: vec![ReadErrOf(k), WriteErrOf(k)], depth: 6 + d, ..One::new(p) });
                v.one(format!("{k:?}, echo, with flush"), One { input: b"a\nb\n".to_vec(), echo: true, flush: true, faults: vec![ReadErrOf(k), WriteErrOf(k)], depth: 6 + d, ..One::new(p) });
                for c in ALL_TLS { v.one(format!("{k:?}, {}", tls_name(c)), One { tls: tls(c, 4), input: b"abcd\nef\n".to_vec(), outputs: outs(&[3]), faults: vec![ReadErrOf(k), WriteErrOf(k)], deliver: vec![0, 23], credit: vec![0], depth: 4 + d, ..One::new(p) }); }
            }
            v.one("ends in a line", One { input: b"ab\ncd".to_vec(), outputs: outs(&[3, 1]), faults: vec![Fin, ReadErr, WriteErr, WriteZero], deliver: vec![0, 1, 4], depth: 8 + d, ..One::new(p) });
            v.one("ends, echo", One { input: b"a\nb\nc\n".to_vec(), echo: true, faults: vec![Fin, ReadErr, WriteErr, WriteZero], depth: 9 + d, ..One::new(p) });
            v.one("ends, output at any time", One { input: b"a\nb\n".to_vec(), outputs: outs(&[2, 1]), preload: false, faults: vec![Fin, ReadErr, WriteErr, WriteZero], cancel: true, depth: 8 + d, ..One::new(p) });
            v.one("ends, with flush", One { input: b"a\nb\n".to_vec(), outputs: outs(&[3]), flush: true, faults: vec![Fin, ReadErr, WriteErr, WriteZero], depth: 8 + d, ..One::new(p) });
            v.one_dev("ends after a lot", 2 + dv, One { input: text(20_000), outputs: outs(&[9000]), echo: true, faults: vec![Fin, ReadErr], deliver: vec![0, 8192], depth: 4, policy: DEV, ..One::new(p) });
            for n in POWERS { v.one(format!("ends after {n}"), One { input: text(n), outputs: outs(&[n]), faults: vec![Fin, ReadErr, WriteErr], deliver: vec![0, n / 2 + 1], credit: vec![0, n / 2 + 1], depth: 4, policy: Policy::none(), ..One::new(p) }); }
            for n in MANY { v.one(format!("ends after {n} messages"), One { input: b"a\n".repeat(n), outputs: outs(&vec![1; n]), echo: true, faults: vec![Fin, ReadErr, WriteErr], deliver: vec![0, n + 1], credit: vec![0, n], depth: 4, policy: Policy::none(), ..One::new(p) }); }
            for c in ALL_TLS { v.one(format!("ends, {}", tls_name(c)), One { tls: tls(c, 4), input: b"abcd\nef\n".to_vec(), outputs: outs(&[3]), echo: true, faults: vec![Fin, ReadErr, WriteErr, WriteZero], deliver: vec![0, 23], credit: vec![0, 11], depth: 5 + d, ..One::new(p) }); }
        }
        "T05" => {
            let p: &'static [&'static str] = &["T05"];
            for n in MANY { v.one(format!("{n} byte by byte"), One { input: text(n), outputs: outs(&[n, 1, n / 2]), drip: vec![n, n / 3, 9], deliver: vec![0], credit: vec![0], cancel: true, flush: true, depth: 5 + d, policy: Policy::none(), ..One::new(p) }); }
            for c in ALL_TLS { for n in [33, 129, 1025] { v.one(format!("{n} byte by byte, {}", tls_name(c)), One { tls: tls(c, 100), input: text(n), outputs: outs(&[n, 1, n / 2]), drip: vec![n, n / 3, 9], deliver: vec![0], credit: vec![0], cancel: true, flush: true, depth: 4 + d, policy: Policy::none(), ..One::new(p) }); } }
            use Fault::*;
            v.one("flush at any time", One { input: b"a\nb\n".to_vec(), outputs: outs(&[3, 2]), flush: true, credit: vec![0, 1, 2], depth: 9 + d, ..One::new(p) });
            v.one("flush, cancelled", One { input: b"a\n".to_vec(), outputs: outs(&[3, 2]), preload: false, flush: true, cancel: true, credit: vec![1], depth: 10 + d, ..One::new(p) });
            v.one("flush, failing", One { input: b"a\n".to_vec(), outputs: outs(&[3, 2]), flush: true, cancel: true, faults: vec![WriteErr, WriteZero, Fin], credit: vec![1], depth: 9 + d, ..One::new(p) });
            for n in [1, 1000, 16_384, 16_385, 70_000, 200_000] {
                v.one_dev(format!("flush {n}"), 2 + dv, One { outputs: outs(&[n, 1]), flush: true, credit: vec![0, n / 3 + 1], depth: 6, policy: DEV, ..One::new(p) });
                for c in [(true, true), (false, false)] { v.one_dev(format!("flush {n}, {}", tls_name(c)), 1, One { tls: tls(c, 100), outputs: outs(&[n, 1]), flush: true, credit: vec![0, n / 3 + 1], depth: 4, policy: DEV, ..One::new(p) }); }
            }
            for n in POWERS {
                v.one(format!("flush {n} in parts"), One { outputs: outs(&[n, 1, n / 2]), flush: true, cancel: true, credit: vec![0, n / 3 + 1], depth: 6, policy: Policy::none(), ..One::new(p) });
                for c in ALL_TLS { v.one(format!("flush {n} in parts, {}", tls_name(c)), One { tls: tls(c, 100), outputs: outs(&[n, 1]), flush: true, credit: vec![0, n / 3 + 1], depth: 4, policy: Policy::none(), ..One::new(p) }); }
            }
            for n in MANY { v.one(format!("flush {n} outputs"), One { outputs: outs(&(0..n).map(|i| 1 + i * 7 % 300).collect::<Vec<_>>()), flush: true, cancel: true, credit: vec![0, n * 10], depth: 5, policy: Policy::none(), ..One::new(p) }); }
            for c in ALL_TLS { v.one(format!("flush, failing, {}", tls_name(c)), One { tls: tls(c, 16), input: b"ab\ncd\n".to_vec(), outputs: outs(&[3, 2]), flush: true, faults: vec![CloseNotify, Fin, Corrupt, Garbage, Alert, ReadErr, WriteErr, WriteZero], deliver: vec![0], credit: vec![0, 11], depth: 6 + d, ..One::new(p) }); }
            for c in ALL_TLS { v.one(format!("flush, {}", tls_name(c)), One { tls: tls(c, 4), input: b"ab\n".to_vec(), outputs: outs(&[3, 2]), flush: true, credit: vec![0, 11], depth: 6 + d, ..One::new(p) }); }
        }
        "T06" => {
            let p: &'static [&'static str] = &["T06"];
            for c in ALL_TLS { for n in [33, 129, 1025] { v.one(format!("{n} byte by byte, {}", tls_name(c)), One { tls: tls(c, 100), input: text(n), outputs: outs(&[n, 1, n / 2]), drip: vec![n, n / 3, 9], deliver: vec![0], credit: vec![0], depth: 4 + d, policy: Policy::none(), ..One::new(p) }); } }
            for c in ALL_TLS {
                let n = tls_name(c);
                v.one(format!("small records, {n}"), One { tls: tls(c, 3), input: b"abcd\nef\n".to_vec(), outputs: outs(&[3, 2]), deliver: vec![0, 1, 22, 30], credit: vec![0, 11], depth: 5 + d, ..One::new(p) });
                // every first cut of the ciphertext
                for cut in 1..(if c.0 { 70 } else { 95 }) { v.one(format!("cut at {cut}, {n}"), One { tls: tls(c, 4), input: b"abcd\nef\n".to_vec(), outputs: outs(&[3]), deliver: vec![cut, 0], credit: vec![0], depth: 4, ..One::new(p) }); }
                // data that arrives together with the end of the handshake
                if c != (false, false) { for tail in [1, 5, 6, 21, 22, 23, 26, 30, 45, 52, 1 << 20] {
                    v.one(format!("{tail} bytes with the end of the handshake, {n}"), One { tls: tls(c, 5), tail, input: b"abcd\nefgh\n".to_vec(), outputs: outs(&[3]), deliver: vec![0, 1], credit: vec![0], depth: 4, ..One::new(p) });
                    v.one(format!("{tail} bytes with the end of the handshake, silent, {n}"), One { tls: tls(c, 5), tail, input: b"abcd\nefgh\n".to_vec(), deliver: vec![0, 1], credit: vec![0], depth: 4, ..One::new(p) });
                }
                for (tail, frag) in [(100_000, 1000), (3000, 1000), (4096, 4000), (100_000, 16_384)] { v.one_dev(format!("{tail} bytes of {frag}-byte records with the end of the handshake, {n}"), 2, One { tls: tls(c, frag), tail, input: text(30_000), outputs: outs(&[3]), deliver: vec![0, 5000], credit: vec![0], depth: 3, policy: SEL_DEV, ..One::new(p) }); } }
                for size in [1, 127, 128, 129, 256, 257, 4096, 16_383, 16_384, 16_385, 32_768, 65_535, 65_536, 65_537, 70_000, 200_000, 1_000_000] {
                    if size > 100_000 && !thorough && !c.0 { continue }
                    let dv = if size > 20_000 { 1 } else { 1 + dv };
                    v.one_dev(format!("{size} bytes both ways, {n}"), dv, One { tls: tls(c, 16_384), input: text(size), outputs: outs(&[size, 1]), deliver: vec![0], credit: vec![0], depth: 2, cap0: size / 2, policy: if size > 70_000 { SEL_DEV } else { DEV }, ..One::new(p) });
                    for frag in [1, 100, 4096] { if size / frag < 300 && size > frag { v.one(format!("{size} bytes in {frag}-byte records, {n}"), One { tls: tls(c, frag), input: text(size), outputs: outs(&[size]), deliver: vec![0, size / 2, 4096], credit: vec![0], depth: 3, policy: Policy::none(), ..One::new(p) }); } }
                }
                for size in POWERS { v.one(format!("large, {size} bytes both ways, {n}"), One { tls: tls(c, 16_384), input: text(size), outputs: outs(&[1, size, 1]), deliver: vec![0, size / 2 + 1], credit: vec![0, size / 2 + 1], depth: 3, policy: Policy::none(), ..One::new(p) }); }
                for k in MANY { v.one(format!("{k} outputs, {k} records, {n}"), One { tls: tls(c, 7), input: text(7 * k), outputs: outs(&(0..k).map(|i| 1 + i * 7 % 300).collect::<Vec<_>>()), deliver: vec![0, 20 * k], credit: vec![0, 20 * k], depth: 4, policy: Policy::none(), ..One::new(p) }); }
                v.one_dev(format!("many outputs, {n}"), 2, One { tls: tls(c, 10), outputs: outs(&[1, 128, 20_000, 1, 66_000, 5]), input: b"a\nb\n".to_vec(), deliver: vec![0], credit: vec![0, 30_000], depth: 5, policy: SEL_DEV, ..One::new(p) });
            }
            for t in [true, false] { v.real(format!("client and server, tls1.{}", if t { 3 } else { 2 }), 1 + dv, Real { tls: Some(t), cap: 100, cmds: cmds.clone(), interrupts: 0, policy: SEL_DEV, props: p }); }
        }
        "T07" => {
            let p: &'static [&'static str] = &["T07"];
            use Fault::*;
            for c in ALL_TLS {
                let n = tls_name(c);
                v.one(format!("ends, {n}"), One { tls: tls(c, 4), input: b"abcd\nef\n".to_vec(), outputs: outs(&[3]), faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0, 23], credit: vec![0, 11], depth: 6 + d, ..One::new(p) });
                // the last line is not complete
                v.one(format!("ends in a line, {n}"), One { tls: tls(c, 4), input: b"abcd\nefg".to_vec(), outputs: outs(&[3]), faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0, 23], credit: vec![0, 11], depth: 6 + d, ..One::new(p) });
                v.one(format!("ends in the only line, {n}"), One { tls: tls(c, 100), input: b"ab".to_vec(), faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0], credit: vec![0], depth: 5 + d, ..One::new(p) });
                v.one(format!("ends, with flush, {n}"), One { tls: tls(c, 16), input: b"ab\ncd\n".to_vec(), outputs: outs(&[3]), flush: true, faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0], credit: vec![0, 11], depth: 6 + d, ..One::new(p) });
                v.one(format!("ends, echo, {n}"), One { tls: tls(c, 16), input: b"ab\ncd\nef\n".to_vec(), echo: true, faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0], credit: vec![0], depth: 6 + d, ..One::new(p) });
                v.one(format!("ends, cancelled, {n}"), One { tls: tls(c, 16), input: b"ab\n".to_vec(), outputs: outs(&[2]), preload: false, cancel: true, flush: true, faults: vec![CloseNotify, CloseNotifyFin, Fin], deliver: vec![0], credit: vec![11], depth: 6 + d, ..One::new(p) });
                v.one(format!("ends with the end of the handshake, {n}"), One { tls: tls(c, 5), tail: 1 << 20, input: b"abcd\nefgh\n".to_vec(), outputs: outs(&[3]), faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0], credit: vec![0], depth: 4, ..One::new(p) });
                for k in POWERS { v.one(format!("ends after {k} bytes, {n}"), One { tls: tls(c, 16_384), input: text(k), outputs: outs(&[3]), faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0, k / 2 + 1], credit: vec![0], depth: 4, policy: Policy::none(), ..One::new(p) }); }
                for k in MANY { v.one(format!("ends after {k} records, {n}"), One { tls: tls(c, 3), input: text(3 * k), outputs: outs(&[3]), faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0, 11 * k], credit: vec![0], depth: 4, policy: Policy::none(), ..One::new(p) }); }
                for k in [1000, 20_000] { v.one_dev(format!("ends after {k}, {n}"), 2, One { policy: SEL_DEV, tls: tls(c, 1000), input: text(k), outputs: outs(&[3]), faults: vec![CloseNotify, CloseNotifyFin, Fin, Corrupt, Garbage, Alert], deliver: vec![0, 3000], credit: vec![0], depth: 4, ..One::new(p) }); }
            }
        }
        _ => {}
    }
    v.0
}
const SEL_DEV: Policy = Policy { select: true, ..Policy::none() };
/// Like `outs`, ending with a line break so that the other side emits an event.
fn outs2(n: &[usize]) -> Vec<Vec<u8>> { let mut v = outs(n); for x in &mut v { *x.last_mut().unwrap() = b'\n'; } v }

fn main() {
    let a = mc_engine::args();
    let Some(prop) = PROPS.iter().find(|p| **p == a.prop).copied() else { eprintln!("usage: mc-io <{}>", PROPS.join("|")); std::process::exit(2) };
    let scenarios = scenarios(prop, a.tier == "thorough");
    let assumptions = vec!["Sockets, tasks, time and the branch order of select! are simulated (simrt); everything else of tokio is the real crate. TLS is the real rustls with the ring provider; tokio-rustls is a stand-in that performs the handshake like the original.".to_string(), "Bounds: the message corpora, sizes, depths and deviation budgets named by the scenarios.".to_string()];
    mc_engine::drive(a, mc_engine::Check { prop, scenarios, assumptions })
}
