//! `block_on` under the default schedule of the explorer.
use std::future::Future;
use std::io;
#[derive(Debug)]
pub struct Runtime(());
pub struct Builder(());
impl Builder {
    pub fn new_current_thread() -> Self { Builder(()) }
    pub fn new_multi_thread() -> Self { Builder(()) }
    pub fn enable_all(&mut self) -> &mut Self { self }
    pub fn enable_io(&mut self) -> &mut Self { self }
    pub fn enable_time(&mut self) -> &mut Self { self }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self { self }
    pub fn build(&mut self) -> io::Result<Runtime> { Ok(Runtime(())) }
}
impl Runtime {
    pub fn new() -> io::Result<Runtime> { Ok(Runtime(())) }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        let out = std::rc::Rc::new(std::cell::RefCell::new(None));
        let o = out.clone();
        let fut: std::pin::Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move { let r = f.await; *o.borrow_mut() = Some(r) });
        // The task is finished (or aborted) before this function returns.
        let fut: std::pin::Pin<Box<dyn Future<Output = ()>>> = unsafe { std::mem::transmute(fut) };
        let id = simrt::add_task("block_on", fut);
        struct Abort(usize);
        impl Drop for Abort { fn drop(&mut self) { if !simrt::task_done(self.0) { simrt::abort_task(self.0) } } }
        let _g = Abort(id);
        while !simrt::task_done(id) {
            let r = simrt::ready();
            if r.is_empty() { if !simrt::advance_time() { panic!("deadlock: no task can run") } continue; }
            simrt::run_task(r[simrt::choose_dev(r.len())]);
        }
        let v = out.borrow_mut().take();
        match v { Some(v) => v, None => panic!("{}", simrt::panics().last().cloned().unwrap_or_default()) }
    }
}
