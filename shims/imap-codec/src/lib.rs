//! Offline stand-in for `imap-codec` 2.0.0-alpha.1 (git rev used by imap-next).
//!
//! Same interface and the same parsing discipline as the original: streaming decoders that signal a
//! literal announcement at the end of the input (`LiteralFound`), and encoders that produce a
//! sequence of line and literal fragments. It contains no code of the repository under verification.
pub use imap_types;

pub mod b64;
pub mod decode;
pub mod encode;
mod parse;

/// Codec for greetings.
#[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]
pub struct GreetingCodec;
/// Codec for commands.
#[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]
pub struct CommandCodec;
/// Codec for authenticate data lines.
#[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]
pub struct AuthenticateDataCodec;
/// Codec for responses.
#[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]
pub struct ResponseCodec;
/// Codec for idle dones.
#[derive(Clone, Copy, Debug, Default, Eq, Hash, PartialEq)]
pub struct IdleDoneCodec;
impl GreetingCodec { pub fn new() -> Self { Self } }
impl CommandCodec { pub fn new() -> Self { Self } }
impl AuthenticateDataCodec { pub fn new() -> Self { Self } }
impl ResponseCodec { pub fn new() -> Self { Self } }
impl IdleDoneCodec { pub fn new() -> Self { Self } }
