//! Command line, evidence files, known findings, replay files.
use crate::*;

static OUTPUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
/// Prints the check's own output to this file instead of standard output.
pub fn output(f: std::fs::File) { *OUTPUT.lock().unwrap() = Some(f) }
pub fn say(s: std::fmt::Arguments<'_>) {
    use std::io::Write;
    match &mut *OUTPUT.lock().unwrap() { Some(f) => { let _ = writeln!(f, "{s}"); } None => println!("{s}") }
}

/// Known findings: `KNOWN-FINDING property=<id> key=<key>` lines of /verif/known-findings.txt.
#[derive(Clone, Debug, Default)]
pub struct Known(pub Vec<(String, String, String)>);
impl Known {
    pub fn load(root: &str) -> Self {
        let mut v = vec![];
        for l in std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default().lines() {
            // finding: property=<id> key=<key> :: <what fails>
            let Some(r) = l.strip_prefix("finding: property=") else { continue };
            let Some((p, r)) = r.split_once(" key=") else { continue };
            let (k, w) = r.split_once(" :: ").unwrap_or((r, ""));
            v.push((p.trim().to_string(), k.trim().to_string(), w.trim().to_string()));
        }
        Known(v)
    }
    pub fn matches(&self, prop: &str, v: &Viol) -> Option<String> {
        self.0.iter().find(|(p, k, _)| p == prop && *k == v.key).map(|(_, k, _)| k.clone())
    }
}

pub struct Args { pub prop: String, pub tier: String, pub seed: i64, pub root: String, pub replay: Option<String>, pub scenario: Option<String>, pub budget: f64, pub threads: usize, pub append: bool }
pub fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        root: std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()),
        replay: None, scenario: None, budget: 0.0, append: false,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.tier = it.next().unwrap(),
            "--append" => { a.append = true; APPEND.store(true, std::sync::atomic::Ordering::Relaxed) }
            "--replay" => a.replay = it.next(),
            "--scenario" => a.scenario = it.next(),
            "--budget" => a.budget = it.next().unwrap().parse().unwrap(),
            "--threads" => a.threads = it.next().unwrap().parse().unwrap(),
            _ => a.prop = x,
        }
    }
    if a.budget == 0.0 { a.budget = if a.tier == "thorough" { 3000.0 } else { 420.0 }; }
    a
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
static CTX: Mutex<Option<(String, String, String, i64, Instant)>> = Mutex::new(None);

pub fn write_violation(root: &str, prop: &str, scenario: &str, v: &Viol, tape: &[u16], trace: &[String]) -> String {
    let dir = format!("{root}/violations");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{:016x}.replay", fp(&(scenario.to_string(), tape.to_vec())));
    let mut s = String::new();
    s.push_str(&format!("property: {prop}\nscenario: {scenario}\ntape: {}\nkey: {}\nmessage: {}\n", tape.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), v.key, v.msg));
    s.push_str("trace:\n");
    for t in trace { s.push_str("  "); s.push_str(t); s.push('\n'); }
    let _ = std::fs::write(&path, s);
    path
}
pub(crate) fn emergency_violation(prop: &str, scenario: &str, v: &Viol, tape: &[u16], execs: u64, transitions: u64) -> ! {
    let (root, _, tier, seed, t0) = CTX.lock().unwrap().clone().unwrap_or(("/verif".into(), String::new(), "quick".into(), 1, Instant::now()));
    let path = write_violation(&root, prop, scenario, v, tape, &["(execution still running)".to_string()]);
    let mut st = Stats { execs, transitions, ..Default::default() };
    st.samples.push(format!("{scenario} tape {tape:?}"));
    write_evidence(&root, prop, &tier, seed, &[(scenario.to_string(), st)], 1, t0.elapsed().as_secs_f64(), &[], &[]);
    crate::say!("{}: {}", scenario, v.msg);
    crate::say!("VIOLATION property={prop} replay={path}");
    exit(1)
}
static APPEND: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// What an earlier part of the same check wrote: (text of the file) -> text between two marks.
fn between<'a>(s: &'a str, a: &str, b: &str) -> &'a str { s.split_once(a).and_then(|(_, r)| r.split_once(b)).map_or("", |x| x.0).trim() }
pub fn write_evidence(root: &str, prop: &str, tier: &str, seed: i64, parts: &[(String, Stats)], violations: usize, wall: f64, assumptions: &[String], extra: &[(String, String)]) {
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    // The second part of a check adds to what the first part wrote.
    let old = if APPEND.load(std::sync::atomic::Ordering::Relaxed) { std::fs::read_to_string(format!("{dir}/{prop}.json")).unwrap_or_default() } else { String::new() };
    let num = |k: &str| between(&old, &format!("{}: ", js(k)), ",").parse::<u64>().unwrap_or(0);
    let join = |a: &str, b: String, sep: &str| if a.is_empty() { b } else if b.is_empty() { a.to_string() } else { format!("{a}{sep}{b}") };
    let sum = |f: &dyn Fn(&Stats) -> u64| parts.iter().map(|(_, s)| f(s)).sum::<u64>();
    let mut o = String::from("{\n");
    o.push_str(&format!("  \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\",\n", js(prop), js(tier)));
    o.push_str("  \"coverage\": {\n");
    o.push_str(&format!("    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n", num("states") + sum(&|s| s.states), num("transitions") + sum(&|s| s.transitions), num("traces_validated_against_impl") + sum(&|s| s.execs)));
    o.push_str(&format!("    \"exhaustive\": {},\n", parts.iter().all(|(_, s)| s.complete) && !parts.is_empty() && !old.contains("\"exhaustive\": false")));
    let samples: Vec<String> = parts.iter().flat_map(|(_, s)| s.samples.iter().take(1)).take(12).map(|s| js(&s.chars().take(900).collect::<String>())).collect();
    o.push_str(&format!("    \"samples\": [{}],\n", join(between(&old, "\"samples\": [", "],\n"), samples.join(", "), ", ")));
    o.push_str("    \"scenarios\": [\n");
    let rows: Vec<String> = parts.iter().map(|(n, s)| {
        let f: Vec<String> = s.foreign.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        format!("      {{\"name\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"state_cuts\": {}, \"max_choice_depth\": {}, \"complete\": {}, \"wall_s\": {:.2}, \"other_deviations\": {{{}}}}}", js(n), s.execs, s.states, s.transitions, s.cuts, s.max_depth, s.complete, s.wall, f.join(", "))
    }).collect();
    let before = between(&old, "\"scenarios\": [\n", "\n    ]");
    o.push_str(&join(&if before.is_empty() { String::new() } else { format!("      {before}") }, rows.join(",\n"), ",\n"));
    o.push_str("\n    ]");
    for (k, v) in extra { o.push_str(&format!(",\n    {}: {}", js(k), v)); }
    o.push_str("\n  },\n");
    o.push_str(&format!("  \"assumptions\": [{}],\n", join(between(&old, "\"assumptions\": [", "],\n"), assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "), ", ")));
    let wall = wall + between(&old, "\"wall_s\": ", ", \"viol").parse::<f64>().unwrap_or(0.0);
    o.push_str(&format!("  \"wall_s\": {wall:.3}, \"violations\": {violations}\n}}\n"));
    std::fs::write(format!("{dir}/{prop}.json"), o).expect("write evidence");
}

pub struct Check { pub prop: &'static str, pub scenarios: Vec<Scenario>, pub assumptions: Vec<String> }

static CLEANUP: Mutex<Option<fn()>> = Mutex::new(None);
/// Registers a function to run before the check exits (removal of scratch directories).
pub fn cleanup(f: fn()) { *CLEANUP.lock().unwrap() = Some(f); }
fn exit(code: i32) -> ! {
    if let Some(f) = *CLEANUP.lock().unwrap() { f() }
    death::leave(code)
}

/// Runs a check and exits with the interface's exit codes.
pub fn drive(a: Args, chk: Check) -> ! {
    install_panic_hook();
    death::install();
    let t0 = Instant::now();
    *CTX.lock().unwrap() = Some((a.root.clone(), a.prop.clone(), a.tier.clone(), a.seed, t0));
    if let Some(path) = &a.replay { replay(path, chk); }
    let known = Known::load(&a.root);
    let mut parts = vec![];
    let mut nviol = 0;
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let deadline = t0 + Duration::from_secs_f64(a.budget);
    for sc in &chk.scenarios {
        if let Some(f) = &a.scenario { if !sc.name.contains(f.as_str()) { continue; } }
        let st = explore(sc, chk.prop, &known, a.threads, deadline, Duration::from_secs(if a.tier == "thorough" { 120 } else { 60 }));
        crate::say!("{:<44} execs={:<9} states={:<8} transitions={:<10} complete={} {:.1}s{}", sc.name, st.execs, st.states, st.transitions, st.complete, st.wall, if st.foreign.is_empty() { String::new() } else { format!(" other={:?}", st.foreign) });
        for (k, n) in &st.known_hits { *hits.entry(k.clone()).or_default() += n; }
        let found = st.found.clone();
        parts.push((sc.name.clone(), st));
        if let Some((v, tape)) = found.first() {
            let mut ch = Ch::replay(tape.clone());
            let _ = run_one(sc, &mut ch);
            let path = write_violation(&a.root, chk.prop, &sc.name, v, tape, &ch.trace);
            crate::say!("  {}", v.msg);
            crate::say!("VIOLATION property={} replay={path}", chk.prop);
            nviol += 1;
            break;
        }
    }
    for (p, k, w) in &known.0 { if p == chk.prop { crate::say!("KNOWN-FINDING: property={p} {k}: {w} (observed {} times in this run)", hits.get(k).copied().unwrap_or(0)); } }
    if nviol == 0 { if let Some((n, _)) = parts.iter().find(|(_, s)| !s.complete) { crate::say!("note: {n} was not exhausted (time budget, or executions that cannot be repeated)"); } }
    write_evidence(&a.root, chk.prop, &a.tier, a.seed, &parts, nviol, t0.elapsed().as_secs_f64(), &chk.assumptions, &[]);
    let tot: u64 = parts.iter().map(|(_, s)| s.execs).sum();
    crate::say!("{}: {} executions in {:.1}s, {} violation(s)", chk.prop, tot, t0.elapsed().as_secs_f64(), nviol);
    if parts.is_empty() || tot == 0 { eprintln!("nothing explored"); exit(4) }
    exit(if nviol > 0 { 1 } else { 0 })
}
fn replay(path: &str, chk: Check) -> ! {
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (name, tape) = (get("scenario:"), get("tape:"));
    let tape: Vec<u16> = tape.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let sc = chk.scenarios.iter().find(|s| s.name == name).expect("scenario of the replay file (same tier?)");
    let mut ch = Ch::replay(tape);
    let r = run_one(sc, &mut ch);
    for t in &ch.trace { crate::say!("  {t}"); }
    match r { Ok(()) => { crate::say!("no violation on replay"); exit(0) } Err(v) => { crate::say!("{}: {}", v.key, v.msg); crate::say!("VIOLATION property={} replay={path}", chk.prop); exit(1) } }
}
