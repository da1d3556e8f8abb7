//! Model checks of the sans-I/O client and server state machines.
mod client;
mod compose;
mod props;
mod refframe;
mod seg;
mod server;
mod wide;

fn main() {
    let a = mc_engine::args();
    let Some(prop) = props::PROPS.iter().find(|p| **p == a.prop).copied() else { eprintln!("usage: mc-core <{}>", props::PROPS.join("|")); std::process::exit(2) };
    let mut scenarios = props::scenarios(prop, a.tier == "thorough");
    wide::scenarios(prop, a.tier == "thorough", &mut scenarios);
    let assumptions = vec![
        "Messages are parsed and encoded by stand-in imap-codec/imap-types crates (the originals are git dependencies that are not available offline); the stand-ins cover the subset of IMAP used here and are validated with the repository's own integration tests.".to_string(),
        "Bounds: the depths, alphabets, stream corpora and cut counts named by the scenarios.".to_string(),
    ];
    mc_engine::drive(a, mc_engine::Check { prop, scenarios, assumptions })
}
