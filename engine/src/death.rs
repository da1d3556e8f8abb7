//! Code under test that ends the whole process (exit, abort, stack overflow, memory exhaustion) is reported like any
//! other violation instead of taking the check down with it.
use std::cell::RefCell;
use std::ffi::c_int;
use std::sync::atomic::{AtomicBool, Ordering};

use crate::Viol;

/// What the current thread is executing: property, scenario, tape.
type Now = (&'static str, String, Vec<u16>);
thread_local!(static NOW: RefCell<std::mem::ManuallyDrop<Option<Now>>> = const { RefCell::new(std::mem::ManuallyDrop::new(None)) });
pub fn begin(prop: &'static str, scenario: &str, tape: &[u16]) {
    NOW.with(|n| { if let Ok(mut n) = n.try_borrow_mut() { if let Some((p, s, t)) = &mut **n { *p = prop; s.clear(); s.push_str(scenario); t.clear(); t.extend_from_slice(tape) } else { **n = Some((prop, scenario.to_string(), tape.to_vec())) } } });
    ON.with(|o| o.set(true));
}
thread_local!(static ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
pub fn end() { ON.with(|o| o.set(false)) }

thread_local!(static REPORTER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
static DYING: AtomicBool = AtomicBool::new(false);
fn die(key: &str, msg: &str) {
    if !ON.try_with(|o| o.get()).unwrap_or(false) { return }
    if DYING.swap(true, Ordering::SeqCst) {
        // Another thread is reporting the same and then ends the process.
        if !REPORTER.try_with(|r| r.get()).unwrap_or(true) { std::thread::sleep(std::time::Duration::from_secs(20)) }
        return
    }
    let _ = REPORTER.try_with(|r| r.set(true));
    let _ = NOW.try_with(|n| {
        // leaked on purpose: nothing of this thread is cleaned up any more
        let Ok(n) = n.try_borrow() else { return };
        let Some((prop, scenario, tape)) = &**n else { return };
        crate::report::emergency_violation(prop, scenario, &Viol::new(&[], key, msg), tape, 1, 0);
    });
}
extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    fn _exit(c: c_int) -> !;
    fn signal(n: c_int, h: usize) -> usize;
    fn sigaction(n: c_int, new: *const SigAction, old: *mut SigAction) -> c_int;
}
#[repr(C)]
struct SigAction { handler: usize, mask: [u64; 16], flags: c_int, restorer: usize }
/// Takes the place of the C library's function, which `std::process::exit` calls.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    die("process exit", "the code under test ended the process");
    let f = dlsym(usize::MAX as *mut u8, c"exit".as_ptr().cast());
    if f.is_null() { _exit(code) }
    let f: extern "C" fn(c_int) -> ! = std::mem::transmute(f);
    f(code)
}
/// For the end of the check itself, from whatever thread.
pub fn leave(code: i32) -> ! {
    end();
    DYING.store(true, Ordering::SeqCst);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}
extern "C" fn on_abort(_: c_int) {
    die("process abort", "the code under test aborted the process");
    unsafe { signal(6, 0); }
}
pub fn install() {
    // SA_ONSTACK: after a stack overflow there is only the alternate stack
    let a = SigAction { handler: on_abort as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
    unsafe { sigaction(6, &a, std::ptr::null_mut()); }
}
