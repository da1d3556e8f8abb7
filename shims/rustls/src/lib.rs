//! The real rustls, with the `ring` provider instead of the default one (which needs a C build).
pub use rustls_real::*;
