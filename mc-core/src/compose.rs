//! A real client and a real server joined by byte pipes, under every schedule.
use imap_next::{client, server};
use imap_types::{auth::AuthenticateData, command::{Command, CommandBody}, response::Response};
use mc_engine::{viol, Ch, Out, Viol};

use crate::client::*;
use crate::server::*;

#[derive(Clone, Debug)]
pub struct Script {
    pub opts: SrvOpts,
    /// commands the client's user enqueues, in order, at any time
    pub cmds: Vec<&'static str>,
    /// unsolicited responses the server's user enqueues, in order, at any time
    pub unsolicited: Vec<&'static str>,
    /// delivery sizes (0 = everything)
    pub sizes: Vec<usize>,
    /// does the server's user accept IDLE / ask for more authentication data?
    pub idle_accept: bool,
    pub auth_rounds: usize,
    pub prune: bool,
    /// one schedule (everyone in turn) instead of all
    pub fixed: bool,
}

pub fn compose_run(s: &Script, ch: &mut Ch) -> Out {
    let mut c = ClientLab::new(false);
    let mut v = ServerLab::new(s.opts.clone());
    let (mut c2s, mut s2c): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let (mut nc, mut nu) = (0, 0);
    // what the users saw
    let mut got_cmds: Vec<Command<'static>> = vec![];
    let mut sent_cmds: Vec<Command<'static>> = vec![];
    let mut resp_sent: Vec<String> = vec![];
    let mut resp_got: Vec<String> = vec![];
    let mut auth_left = s.auth_rounds;
    let mut auth_tag = String::new();
    let mut idle_tag = String::new();
    let (mut c_wait, mut s_wait) = (false, false);
    let mut rejected: Vec<String> = vec![];
    let limit = if s.fixed { 1_000_000 } else { 2000 };
    for n in 0..limit {
        let mut acts: Vec<u8> = vec![];
        if !s_wait { acts.push(1) }
        if !c_wait { acts.push(0) }
        if !c2s.is_empty() { for i in 0..s.sizes.len() { if i == 0 || s.sizes[i] < c2s.len() { acts.push(10 + i as u8) } } }
        if !s2c.is_empty() { for i in 0..s.sizes.len() { if i == 0 || s.sizes[i] < s2c.len() { acts.push(20 + i as u8) } } }
        if nc < s.cmds.len() { acts.push(2) }
        if nu < s.unsolicited.len() { acts.push(3) }
        if acts.is_empty() { break; }
        if s.prune && ch.seen(mc_engine::fp(&(c.spec.fp(), v.spec.fp(), c2s.clone(), s2c.clone(), (nc, nu, c_wait, s_wait, auth_left), (got_cmds.len(), resp_got.len(), resp_sent.len(), rejected.len()))), 1) { return Ok(()); }
        if n == limit - 1 { return viol!(["X01", "L01"], "livelock", "client and server exchange bytes without end"); }
        match acts[if s.fixed { n % acts.len() } else { ch.choose(acts.len()) }] {
            0 => match c.next(ch)? {
                Step::NeedInput => c_wait = true,
                Step::Output(b) => c2s.extend(b),
                Step::Error => return viol!(["X01"], "client-error", "the client could not interpret what the server sent"),
                Step::Event(e) => match e {
                    client::Event::AuthenticateContinuationRequestReceived { continuation_request, .. } => { resp_got.push(format!("{continuation_request:?}")); c.set_auth(AuthenticateData::r#continue(b"tok\r\n".to_vec()), ch)?; }
                    client::Event::AuthenticateStatusReceived { status, .. } => resp_got.push(format!("{status:?}")),
                    client::Event::IdleAccepted { continuation_request, .. } => { resp_got.push(format!("{continuation_request:?}")); c.set_done(ch)?; }
                    client::Event::IdleRejected { status, .. } => resp_got.push(format!("{status:?}")),
                    client::Event::DataReceived { data } => resp_got.push(format!("{data:?}")),
                    client::Event::StatusReceived { status } => resp_got.push(format!("{status:?}")),
                    client::Event::ContinuationRequestReceived { continuation_request } => resp_got.push(format!("{continuation_request:?}")),
                    client::Event::CommandRejected { command, .. } => rejected.push(format!("{command:?}")),
                    _ => {}
                },
            },
            1 => match v.next(ch)? {
                SStep::NeedInput => s_wait = true,
                SStep::Output(b) => s2c.extend(b),
                SStep::Error(server::Error::LiteralTooLong { .. }) => {}
                SStep::Error(e) => return viol!(["X01"], "server-error", "the server could not interpret what the client sent: {e:?}"),
                SStep::Event(e) => match e {
                    server::Event::CommandReceived { command } => {
                        let r = response(&format!("{} OK done\r\n", command.tag.inner()));
                        got_cmds.push(command);
                        resp_sent.push(inner(&r));
                        v.enqueue(r, ch)?;
                    }
                    server::Event::CommandAuthenticateReceived { command_authenticate } => {
                        auth_tag = command_authenticate.tag.inner().to_string();
                        got_cmds.push(command_authenticate.into());
                        auth_left = s.auth_rounds;
                        auth_step(&mut v, &mut auth_left, &auth_tag, &mut resp_sent, ch)?;
                    }
                    server::Event::AuthenticateDataReceived { authenticate_data } => {
                        if authenticate_data != AuthenticateData::r#continue(b"tok\r\n".to_vec()) { return viol!(["X01"], "auth-data-changed", "authentication data arrived as {authenticate_data:?}"); }
                        auth_step(&mut v, &mut auth_left, &auth_tag, &mut resp_sent, ch)?;
                    }
                    server::Event::IdleCommandReceived { tag } => {
                        idle_tag = tag.inner().to_string();
                        got_cmds.push(Command { tag, body: CommandBody::Idle });
                        if s.idle_accept { let r = ccr("+ idling\r\n"); resp_sent.push(format!("{r:?}")); v.reply(&Reply::IdleAccept(r), ch)?; }
                        else { let r = status(&format!("{idle_tag} NO never\r\n")); resp_sent.push(format!("{r:?}")); v.reply(&Reply::IdleReject(r), ch)?; }
                    }
                    server::Event::IdleDoneReceived => { let r = response(&format!("{idle_tag} OK idle over\r\n")); resp_sent.push(inner(&r)); v.enqueue(r, ch)?; }
                    _ => {}
                },
            },
            2 => { let t = format!("A{nc}"); let k = cmd(s.cmds[nc], &t); nc += 1; sent_cmds.push(k.clone()); c.enqueue(k, ch)?; c_wait = false; }
            3 => { let r = response(s.unsolicited[nu]); nu += 1; resp_sent.push(inner(&r)); v.enqueue(r, ch)?; s_wait = false; }
            a if a < 20 => { let k = match s.sizes[(a - 10) as usize] { 0 => c2s.len(), k => k.min(c2s.len()) }; let b: Vec<u8> = c2s.drain(..k).collect(); v.feed(&b, ch); s_wait = false; }
            a => { let k = match s.sizes[(a - 20) as usize] { 0 => s2c.len(), k => k.min(s2c.len()) }; let b: Vec<u8> = s2c.drain(..k).collect(); c.feed(&b, ch); c_wait = false; }
        }
    }
    if nc < s.cmds.len() || nu < s.unsolicited.len() { return Err(Viol::new(&[], "engine", "MC-ENGINE script not finished")); }
    let want: Vec<&Command<'static>> = sent_cmds.iter().filter(|k| !rejected.contains(&format!("{k:?}"))).collect();
    let got: Vec<&Command<'static>> = got_cmds.iter().collect();
    if want != got { return viol!(["X01"], "commands-differ", "nothing can happen any more; the client sent {want:?}, the server received {got:?} (rejected: {rejected:?})"); }
    if resp_sent != resp_got { return viol!(["X01"], "responses-differ", "nothing can happen any more; the server sent {resp_sent:?}, the client received {resp_got:?}"); }
    if !c.spec.idle() || !v.spec.quiet() || v.spec.mode != Mode::Command { return viol!(["X01", "L01"], "deadlock", "both sides wait although not everything was transferred"); }
    Ok(())
}
fn auth_step(v: &mut ServerLab, left: &mut usize, tag: &str, sent: &mut Vec<String>, ch: &mut Ch) -> Out {
    if *left > 0 { *left -= 1; let r = ccr("+ more\r\n"); sent.push(format!("{r:?}")); v.reply(&Reply::AuthContinue(r), ch) }
    else { let r = status(&format!("{tag} OK authenticated\r\n")); sent.push(format!("{r:?}")); v.reply(&Reply::AuthFinish(r), ch) }
}
fn inner(r: &Response<'static>) -> String { match r { Response::Data(d) => format!("{d:?}"), Response::Status(d) => format!("{d:?}"), Response::CommandContinuationRequest(d) => format!("{d:?}") } }
