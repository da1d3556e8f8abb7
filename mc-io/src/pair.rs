//! Two real streams connected to each other, driven by two tasks under every schedule.
use std::cell::RefCell;
use std::rc::Rc;

use imap_next::stream::Stream;
use mc_engine::{esc, fp, viol, Ch, Out};
use simrt::Policy;
use tokio::net::TcpStream;

use crate::script::*;
use crate::tls::*;

#[derive(Clone, Debug)]
pub struct Pair {
    pub tls: Option<bool>,
    /// bytes that fit into each direction of the connection
    pub cap: usize,
    pub out: [Vec<Vec<u8>>; 2],
    pub echo: bool,
    /// each side is interrupted by a competing future up to this often
    pub interrupts: usize,
    pub policy: Policy,
    /// schedule deviations are free (every schedule)
    pub free: bool,
    pub props: &'static [&'static str],
}
pub fn both(a: simrt::End, b: simrt::End, v13: bool) -> (Stream, Stream) {
    // Handshake between the two streams themselves.
    use std::future::Future;
    let (mut fa, mut fb) = (Box::pin(accept(a, v13)), Box::pin(connect(b, v13)));
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let (mut ra, mut rb) = (None, None);
    for _ in 0..40 {
        if ra.is_none() { if let std::task::Poll::Ready(s) = fa.as_mut().poll(&mut cx) { ra = Some(s) } }
        if rb.is_none() { if let std::task::Poll::Ready(s) = fb.as_mut().poll(&mut cx) { rb = Some(s) } }
        if ra.is_some() && rb.is_some() { break }
    }
    (ra.expect("MC-ENGINE: handshake"), rb.expect("MC-ENGINE: handshake"))
}
pub fn run(o: &Pair, ch: &mut Ch) -> Out {
    let _g = simrt::begin(ch, Policy::none());
    let (a, b) = simrt::pair(1 << 20);
    let (pa, pb) = (a.rx.clone(), b.rx.clone());
    let (sa, sb) = match o.tls { None => (Stream::insecure(TcpStream::from_end(a)), Stream::insecure(TcpStream::from_end(b))), Some(v) => both(a, b, v) };
    for p in [&pa, &pb] { let mut p = p.lock().unwrap(); p.cap = o.cap }
    simrt::set_policy(o.policy);
    let st = [Script::default(), Script::default()];
    for i in 0..2 { let mut s = st[i].0.lock().unwrap(); s.echo = o.echo && i == 0; s.outq.extend(o.out[i].iter().cloned()) }
    let errs: Rc<RefCell<Vec<String>>> = Default::default();
    let rets: [Rc<RefCell<Vec<Result<Ev, Bad>>>>; 2] = Default::default();
    for (i, mut s) in [sa, sb].into_iter().enumerate() {
        let (st, errs, rets, mut left) = (st[i].clone(), errs.clone(), rets[i].clone(), o.interrupts);
        simrt::add_task(if i == 0 { "left" } else { "right" }, Box::pin(async move {
            loop {
                let r = if left > 0 {
                    // A competing branch that becomes ready after the stream was polled once.
                    let mut polls = 0;
                    let tick = std::future::poll_fn(|cx| { polls += 1; if polls > 1 || simrt::choose_dev(2) == 1 { std::task::Poll::Ready(()) } else { cx.waker().wake_by_ref(); std::task::Poll::Pending } });
                    tokio::select! { biased; r = s.next(st.clone()) => Some(r), _ = tick => { left -= 1; None } }
                } else { Some(s.next(st.clone()).await) };
                match r {
                    None => {}
                    Some(Ok(e)) => rets.borrow_mut().push(Ok(e)),
                    Some(Err(imap_next::stream::Error::State(e))) => rets.borrow_mut().push(Err(e)),
                    Some(Err(e)) => { errs.borrow_mut().push(format!("{e:?}")); return }
                }
            }
        }));
    }
    for n in 0.. {
        if n > 100_000 { return viol!(["T03", "T01"], "livelock", "two streams never come to rest"); }
        let r = simrt::ready();
        if r.is_empty() { break }
        let i = r[if o.free { simrt::choose(r.len()) } else { simrt::choose_dev(r.len()) }];
        simrt::run_task(i);
        if let Some(p) = simrt::panics().first() { return viol!([], format!("panic:{p}"), "panic: {p}"); }
        if let Some(e) = errs.borrow().first() { return Err(mc_engine::Viol::new(o.props, "unexpected-error", format!("a stream failed with {e} on an intact connection"))); }
        for k in 0..2 { if st[k].0.lock().unwrap().emitted != *rets[k].borrow() { return Err(mc_engine::Viol::new(o.props, "event-lost", "an event of the state was not returned".to_string())); } }
        let (x, y) = (st[0].0.lock().unwrap(), st[1].0.lock().unwrap());
        if !x.produced.starts_with(&y.consumed) || !y.produced.starts_with(&x.consumed) { return Err(mc_engine::Viol::new(o.props, "bytes-differ", format!("received {} / {} but sent {} / {}", esc(&y.consumed), esc(&x.consumed), esc(&x.produced), esc(&y.produced)))); }
        simrt::step(fp(&(i, x.produced.len(), x.consumed.len(), y.produced.len(), y.consumed.len(), pa.lock().unwrap().buf.len(), pb.lock().unwrap().buf.len())));
    }
    let (x, y) = (st[0].0.lock().unwrap(), st[1].0.lock().unwrap());
    if !x.outq.is_empty() || !y.outq.is_empty() || x.produced != y.consumed || y.produced != x.consumed {
        return Err(mc_engine::Viol::new(o.props, "deadlock", format!("both sides wait although {} / {} bytes are still to be transferred", x.produced.len() - y.consumed.len(), y.produced.len() - x.consumed.len())));
    }
    Ok(())
}
