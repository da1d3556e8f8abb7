//! Offline stand-in for `imap-types` 2.0.0-alpha.1 (git rev used by imap-next).
//!
//! The original crate is a git dependency and is not available in this sandbox. This crate
//! reproduces the public types imap-next and its proxy use, with the validity rules that matter to
//! them. It contains no code of the repository under verification.
pub use bounded_static;

/// Implements both bounded-static traits for a type with one lifetime.
macro_rules! st {
    ($ty:ident, $this:ident => $e:expr) => {
        impl<'a> bounded_static::IntoBoundedStatic for $ty<'a> {
            type Static = $ty<'static>;
            fn into_static(self) -> $ty<'static> {
                #[allow(unused_imports)]
                use bounded_static::IntoBoundedStatic as _;
                let $this = self;
                $e
            }
        }
        impl<'a> bounded_static::ToBoundedStatic for $ty<'a> {
            type Static = $ty<'static>;
            fn to_static(&self) -> $ty<'static> {
                bounded_static::IntoBoundedStatic::into_static(self.clone())
            }
        }
    };
}
macro_rules! st_copy {
    ($($ty:ident),*) => { $(
        impl bounded_static::IntoBoundedStatic for $ty {
            type Static = $ty;
            fn into_static(self) -> $ty { self }
        }
        impl bounded_static::ToBoundedStatic for $ty {
            type Static = $ty;
            fn to_static(&self) -> $ty { self.clone() }
        }
    )* };
}

pub mod error;
pub mod core;
pub mod secret;
pub mod auth;
pub mod mailbox;
pub mod flag;
pub mod command;
pub mod response;
pub mod extensions;
pub mod utils;
pub mod state;
pub mod body { }
pub mod envelope { }
pub mod datetime { }
pub mod fetch;
pub mod sequence;
pub mod search;
pub mod status;
