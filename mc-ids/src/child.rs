//! Every execution that depends on process-wide state runs in a process of its own, so that it starts from the very
//! beginning (also what is initialised on first use); the parent explores, the child asks it for every choice.
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};

use mc_engine::{Ch, Out, Viol};

/// Child side: where choices come from.
pub struct Ask { input: std::io::StdinLock<'static>, last: u64 }
impl Ask {
    pub fn choose(&mut self, n: usize, labels: &[String], preempt: bool) -> usize {
        if n == 1 { self.note(&labels[0]); return 0; }
        println!("{} {n} {}", if preempt { 'D' } else { 'C' }, labels.join("\u{1f}"));
        let mut l = String::new();
        if self.input.read_line(&mut l).unwrap_or(0) == 0 { std::process::exit(0) }
        self.last += 1;
        l.trim().parse().unwrap()
    }
    pub fn note(&self, s: &str) { println!("L {s}"); }
}
/// Runs `f` as a child; prints its verdict.
pub fn serve(f: impl FnOnce(&mut Ask) -> Out) -> ! {
    let mut a = Ask { input: std::io::stdin().lock(), last: 0 };
    let r = mc_engine::guarded(|| f(&mut a));
    match r {
        Ok(Ok(())) => println!("OK"),
        Ok(Err(v)) => println!("V {}\u{1f}{}", v.key, v.msg.replace('\n', " ")),
        Err(p) => println!("V panic: {}\u{1f}{}", mc_engine::panic_key(&p).replace('\n', " "), p.replace('\n', " ")),
    }
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}
/// Parent side.
pub fn run(ch: &mut Ch, prop: &'static str, prog: &str) -> Out {
    let mut c = Command::new(std::env::current_exe().unwrap()).env("MC_IDS_CHILD", prog).arg(prop).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("MC-ENGINE: cannot start a child process");
    let mut to = c.stdin.take().unwrap();
    let mut from = BufReader::new(c.stdout.take().unwrap());
    let mut path: Vec<String> = vec![];
    let r = loop {
        let mut l = String::new();
        if from.read_line(&mut l).unwrap_or(0) == 0 { break Err(Viol::new(&[prop], "aborted", "the process died in the middle of the execution")); }
        let l = l.trim_end_matches('\n');
        if l == "OK" { break Ok(()); }
        if let Some(v) = l.strip_prefix("V ") { let (k, m) = v.split_once('\u{1f}').unwrap(); break Err(Viol::new(&[prop], k, m)); }
        if let Some(t) = l.strip_prefix("L ") { path.push(t.to_string()); ch.step(mc_engine::fp(&path)); let t = t.to_string(); ch.log(|| t); continue; }
        let (n, labels) = l.strip_prefix("C ").or(l.strip_prefix("D ")).and_then(|x| x.split_once(' ')).unwrap_or_else(|| panic!("MC-ENGINE: child says {l:?}"));
        let n: usize = n.parse().unwrap();
        let i = if l.starts_with('D') { ch.choose_dev(n) } else { ch.choose(n) };
        let t = labels.split('\u{1f}').nth(i).unwrap().to_string();
        path.push(t.clone());
        ch.step(mc_engine::fp(&path));
        ch.log(|| t);
        if writeln!(to, "{i}").is_err() { break Err(Viol::new(&[prop], "aborted", "the process died in the middle of the execution")); }
    };
    drop(to);
    let _ = c.kill();
    let _ = c.wait();
    r
}
