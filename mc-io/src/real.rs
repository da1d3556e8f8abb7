//! The real client and the real server, each on its own stream, connected to each other.
use std::cell::RefCell;
use std::rc::Rc;

use imap_codec::{decode::Decoder, encode::Encoder, CommandCodec, GreetingCodec};
use imap_next::client::{self, Client};
use imap_next::server::{self, Server};
use imap_next::stream::Stream;
use imap_types::auth::AuthenticateData;
use imap_types::bounded_static::IntoBoundedStatic;
use imap_types::command::{Command, CommandBody};
use imap_types::response::{CommandContinuationRequest, Status};
use mc_engine::{esc, fp, viol, Ch, Out};
use simrt::Policy;
use tokio::net::TcpStream;

#[derive(Clone, Debug)]
pub struct Real {
    pub tls: Option<bool>,
    pub cap: usize,
    /// commands as they look on the wire (literals as non-synchronizing `{n+}`; they are sent as such or as synchronizing ones)
    pub cmds: Vec<&'static str>,
    pub interrupts: usize,
    pub policy: Policy,
    pub props: &'static [&'static str],
}
pub fn cmd(w: &str) -> Command<'static> { CommandCodec::default().decode(w.as_bytes()).unwrap_or_else(|e| panic!("MC-ENGINE: bad command {w:?}: {e:?}")).1.into_static() }
pub fn wire(c: &Command) -> Vec<u8> { CommandCodec::default().encode(c).dump() }

async fn interrupted<T>(fut: impl std::future::Future<Output = T>, left: &mut usize) -> Option<T> {
    if *left == 0 { return Some(fut.await); }
    let mut polls = 0;
    let tick = std::future::poll_fn(|cx| { polls += 1; if polls > 1 || simrt::choose_dev(2) == 1 { std::task::Poll::Ready(()) } else { cx.waker().wake_by_ref(); std::task::Poll::Pending } });
    tokio::select! { biased; r = fut => Some(r), _ = tick => { *left -= 1; None } }
}
#[derive(Default)]
struct Log { cmds: Vec<Vec<u8>>, stats: Vec<String>, errs: Vec<String>, greeted: bool, responses_sent: usize }

pub fn run(o: &Real, ch: &mut Ch) -> Out {
    let _g = simrt::begin(ch, Policy::none());
    let (a, b) = simrt::pair(1 << 20);
    let (pa, pb) = (a.rx.clone(), b.rx.clone());
    let (sa, sb) = match o.tls { None => (Stream::insecure(TcpStream::from_end(a)), Stream::insecure(TcpStream::from_end(b))), Some(v) => crate::pair::both(a, b, v) };
    for p in [&pa, &pb] { let mut p = p.lock().unwrap(); p.cap = o.cap }
    simrt::set_policy(o.policy);
    let log: Rc<RefCell<Log>> = Default::default();
    let cmds: Vec<Command<'static>> = o.cmds.iter().map(|c| cmd(c)).collect();
    {
        let (log, cmds, mut left, mut s) = (log.clone(), cmds.clone(), o.interrupts, sa);
        simrt::add_task("client", Box::pin(async move {
            let mut c = Client::new(client::Options::default());
            let mut cmds: std::collections::VecDeque<_> = cmds.into();
            loop {
                let Some(r) = interrupted(s.next(&mut c), &mut left).await else { continue };
                match r {
                    Ok(client::Event::GreetingReceived { .. }) => { log.borrow_mut().greeted = true; while let Some(x) = cmds.pop_front() { c.enqueue_command(x); } }
                    Ok(client::Event::StatusReceived { status }) => log.borrow_mut().stats.push(format!("{status:?}")),
                    Ok(client::Event::AuthenticateContinuationRequestReceived { .. }) => { c.set_authenticate_data(AuthenticateData::r#continue(b"tok".to_vec())).unwrap(); }
                    Ok(client::Event::AuthenticateStatusReceived { status, .. }) => log.borrow_mut().stats.push(format!("{status:?}")),
                    Ok(client::Event::IdleAccepted { .. }) => { c.set_idle_done().unwrap(); }
                    Ok(client::Event::IdleRejected { status, .. }) => log.borrow_mut().stats.push(format!("{status:?}")),
                    Ok(client::Event::CommandRejected { .. }) => log.borrow_mut().errs.push("command rejected".into()),
                    Ok(_) => {}
                    Err(e) => { log.borrow_mut().errs.push(format!("client: {e:?}")); return }
                }
            }
        }));
    }
    {
        let (log, mut left, mut s) = (log.clone(), o.interrupts, sb);
        simrt::add_task("server", Box::pin(async move {
            let greeting = GreetingCodec::default().decode(b"* OK hi\r\n").unwrap().1.into_static();
            let mut v = Server::new(server::Options::default(), greeting);
            let mut idle = None;
            let mut auth = None;
            loop {
                let Some(r) = interrupted(s.next(&mut v), &mut left).await else { continue };
                match r {
                    Ok(server::Event::CommandReceived { command }) => { log.borrow_mut().cmds.push(wire(&command)); v.enqueue_status(Status::ok(Some(command.tag), None, "done").unwrap()); }
                    Ok(server::Event::CommandAuthenticateReceived { command_authenticate }) => {
                        let c: Command = command_authenticate.into();
                        log.borrow_mut().cmds.push(wire(&c));
                        auth = Some(c.tag);
                        v.authenticate_continue(CommandContinuationRequest::base64(b"chal".to_vec())).unwrap();
                    }
                    Ok(server::Event::AuthenticateDataReceived { authenticate_data }) => {
                        if authenticate_data != AuthenticateData::r#continue(b"tok".to_vec()) { log.borrow_mut().errs.push("authentication data differs".into()) }
                        v.authenticate_finish(Status::ok(auth.take(), None, "in").unwrap()).unwrap();
                    }
                    Ok(server::Event::IdleCommandReceived { tag }) => { log.borrow_mut().cmds.push(wire(&Command { tag: tag.clone(), body: CommandBody::Idle })); idle = Some(tag); v.idle_accept(CommandContinuationRequest::basic(None, "idling").unwrap()).unwrap(); }
                    Ok(server::Event::IdleDoneReceived) => { v.enqueue_status(Status::ok(idle.take(), None, "done").unwrap()); }
                    Ok(server::Event::ResponseSent { .. }) => log.borrow_mut().responses_sent += 1,
                    Ok(_) => {}
                    Err(e) => { log.borrow_mut().errs.push(format!("server: {e:?}")); return }
                }
            }
        }));
    }
    for n in 0.. {
        if n > 100_000 { return viol!(["T03", "T01", "T02"], "livelock", "client and server never come to rest"); }
        let r = simrt::ready();
        if r.is_empty() { break }
        let i = r[simrt::choose_dev(r.len())];
        simrt::run_task(i);
        if let Some(p) = simrt::panics().first() { return viol!([], format!("panic:{p}"), "panic: {p}"); }
        let l = log.borrow();
        simrt::step(fp(&(i, l.cmds.len(), l.stats.len(), l.responses_sent, l.greeted, pa.lock().unwrap().buf.len(), pb.lock().unwrap().buf.len())));
    }
    let l = log.borrow();
    let bad = |k: &str, m: String| Err(mc_engine::Viol::new(o.props, k.to_string(), m));
    if let Some(e) = l.errs.first() { return bad("unexpected-error", format!("{e} on an intact connection")); }
    let want: Vec<Vec<u8>> = cmds.iter().map(wire).collect();
    if l.cmds != want { return bad("commands-differ", format!("the server received {} commands, the last being {}", l.cmds.len(), l.cmds.last().map(|c| esc(c)).unwrap_or_default())); }
    if l.stats.len() != want.len() { return bad("statuses-missing", format!("{} of {} completions arrived", l.stats.len(), want.len())); }
    for (c, s) in cmds.iter().zip(&l.stats) { if !s.contains(c.tag.inner()) { return bad("statuses-reordered", format!("{s} instead of the completion of {}", c.tag.inner())); } }
    Ok(())
}
