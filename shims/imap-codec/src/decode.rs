use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
use imap_types::{
    auth::AuthenticateData,
    command::Command,
    core::{LiteralMode, Tag},
    extensions::idle::IdleDone,
    response::{Greeting, Response},
};
use crate::{parse::{self, PErr}, AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};

/// Decoder.
pub trait Decoder {
    type Message<'a>: Sized;
    type Error<'a>;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>;
    fn decode_static<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'static>), Self::Error<'static>>
    where
        Self::Message<'a>: IntoBoundedStatic<Static = Self::Message<'static>>,
        Self::Error<'a>: IntoBoundedStatic<Static = Self::Error<'static>>,
    {
        let (r, m) = self.decode(input).map_err(IntoBoundedStatic::into_static)?;
        Ok((r, m.into_static()))
    }
}

/// Error during greeting decoding.
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub enum GreetingDecodeError { Incomplete, Failed }
/// Error during command decoding.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum CommandDecodeError<'a> {
    Incomplete,
    LiteralFound { tag: Tag<'a>, length: u32, mode: LiteralMode },
    Failed,
}
/// Error during authenticate data line decoding.
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub enum AuthenticateDataDecodeError { Incomplete, Failed }
/// Error during response decoding.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum ResponseDecodeError { Incomplete, LiteralFound { length: u32 }, Failed }
/// Error during idle done decoding.
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub enum IdleDoneDecodeError { Incomplete, Failed }

macro_rules! stat { ($($t:ident),*) => { $(
    impl IntoBoundedStatic for $t { type Static = $t; fn into_static(self) -> $t { self } }
    impl ToBoundedStatic for $t { type Static = $t; fn to_static(&self) -> $t { self.clone() } }
    impl std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for $t {}
)* } }
stat!(GreetingDecodeError, AuthenticateDataDecodeError, ResponseDecodeError, IdleDoneDecodeError);
impl<'a> IntoBoundedStatic for CommandDecodeError<'a> {
    type Static = CommandDecodeError<'static>;
    fn into_static(self) -> Self::Static {
        match self {
            Self::Incomplete => CommandDecodeError::Incomplete,
            Self::Failed => CommandDecodeError::Failed,
            Self::LiteralFound { tag, length, mode } => CommandDecodeError::LiteralFound { tag: tag.into_static(), length, mode },
        }
    }
}
impl<'a> ToBoundedStatic for CommandDecodeError<'a> {
    type Static = CommandDecodeError<'static>;
    fn to_static(&self) -> Self::Static { self.clone().into_static() }
}

impl Decoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    type Error<'a> = GreetingDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Greeting<'a>), GreetingDecodeError> {
        parse::run(input, parse::greeting).map_err(|(e, _)| match e { PErr::Incomplete => GreetingDecodeError::Incomplete, _ => GreetingDecodeError::Failed })
    }
}
impl Decoder for CommandCodec {
    type Message<'a> = Command<'a>;
    type Error<'a> = CommandDecodeError<'a>;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Command<'a>), CommandDecodeError<'a>> {
        parse::run(input, parse::command).map_err(|(e, tag)| match e {
            PErr::Incomplete => CommandDecodeError::Incomplete,
            PErr::Literal { length, mode } => match tag { Some(tag) => CommandDecodeError::LiteralFound { tag, length, mode }, None => CommandDecodeError::Failed },
            PErr::Failed => CommandDecodeError::Failed,
        })
    }
}
impl Decoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    type Error<'a> = AuthenticateDataDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], AuthenticateData<'a>), AuthenticateDataDecodeError> {
        parse::run(input, parse::authenticate_data).map_err(|(e, _)| match e { PErr::Incomplete => AuthenticateDataDecodeError::Incomplete, _ => AuthenticateDataDecodeError::Failed })
    }
}
impl Decoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    type Error<'a> = ResponseDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Response<'a>), ResponseDecodeError> {
        parse::run(input, parse::response).map_err(|(e, _)| match e {
            PErr::Incomplete => ResponseDecodeError::Incomplete,
            PErr::Literal { length, .. } => ResponseDecodeError::LiteralFound { length },
            PErr::Failed => ResponseDecodeError::Failed,
        })
    }
}
impl Decoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    type Error<'a> = IdleDoneDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], IdleDone), IdleDoneDecodeError> {
        parse::run(input, parse::idle_done).map_err(|(e, _)| match e { PErr::Incomplete => IdleDoneDecodeError::Incomplete, _ => IdleDoneDecodeError::Failed })
    }
}
