//! Stand-in for `argh` (not available offline): argument values are set by the harness.
use std::cell::RefCell;
pub use argh_derive_sim::FromArgs;
pub trait FromArgs { fn from_harness() -> Self; }
thread_local!(static ARGS: RefCell<Vec<(String, String)>> = const { RefCell::new(vec![]) });
/// Harness: sets the value of an option.
pub fn set(name: &str, value: &str) { ARGS.with(|a| { let mut a = a.borrow_mut(); a.retain(|x| x.0 != name); a.push((name.into(), value.into())) }) }
pub fn from_env<T: FromArgs>() -> T { T::from_harness() }
pub fn value<T: std::str::FromStr + Default>(name: &str) -> T { ARGS.with(|a| a.borrow().iter().find(|x| x.0 == name).and_then(|x| x.1.parse().ok())).unwrap_or_default() }
