//! Stand-in for `tracing-subscriber`: formats every span and event field (so that building log lines
//! is exercised) and throws the result away. Off unless the harness switches it on.
use std::cell::Cell;
use std::fmt::{Debug, Write};
use std::sync::Once;
use tracing::{field::{Field, Visit}, span, subscriber::Interest, Event, Metadata, Subscriber};
thread_local!(static ON: Cell<bool> = const { Cell::new(false) });
/// Harness: whether log lines are built in this thread.
pub fn verbose(on: bool) { ON.with(|o| o.set(on)) }
struct Sink;
struct V(String);
impl Visit for V { fn record_debug(&mut self, f: &Field, v: &dyn Debug) { let _ = write!(self.0, "{}={v:?}", f.name()); } }
impl Subscriber for Sink {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest { Interest::sometimes() }
    fn enabled(&self, _: &Metadata<'_>) -> bool { ON.with(|o| o.get()) }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id { a.record(&mut V(String::new())); span::Id::from_u64(1) }
    fn record(&self, _: &span::Id, r: &span::Record<'_>) { r.record(&mut V(String::new())) }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) { e.record(&mut V(String::new())) }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
pub fn install() { static O: Once = Once::new(); O.call_once(|| { let _ = tracing::subscriber::set_global_default(Sink); }) }
pub struct EnvFilter;
impl EnvFilter {
    pub fn from_default_env() -> Self { EnvFilter }
    pub fn new<S: AsRef<str>>(_: S) -> Self { EnvFilter }
    pub fn try_from_default_env() -> Result<Self, std::convert::Infallible> { Ok(EnvFilter) }
}
pub struct Builder;
pub fn fmt() -> Builder { Builder }
impl Builder {
    pub fn with_env_filter<T>(self, _: T) -> Self { self }
    pub fn with_target(self, _: bool) -> Self { self }
    pub fn with_file(self, _: bool) -> Self { self }
    pub fn with_line_number(self, _: bool) -> Self { self }
    pub fn with_thread_ids(self, _: bool) -> Self { self }
    pub fn with_thread_names(self, _: bool) -> Self { self }
    pub fn with_level(self, _: bool) -> Self { self }
    pub fn with_ansi(self, _: bool) -> Self { self }
    pub fn with_max_level<T>(self, _: T) -> Self { self }
    pub fn without_time(self) -> Self { self }
    pub fn compact(self) -> Self { self }
    pub fn pretty(self) -> Self { self }
    pub fn init(self) { install() }
    pub fn try_init(self) -> Result<(), std::convert::Infallible> { install(); Ok(()) }
}
