use std::{borrow::Cow, fmt};
use crate::{core::Atom, error::ValidationError, secret::Secret};
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
#[non_exhaustive]
pub enum AuthMechanism<'a> { Plain, Login, OAuthBearer, XOAuth2, ScramSha1, ScramSha1Plus, ScramSha256, ScramSha256Plus, ScramSha3_512, ScramSha3_512Plus, Other(AuthMechanismOther<'a>) }
st!(AuthMechanism, this => match this {
    AuthMechanism::Plain => AuthMechanism::Plain, AuthMechanism::Login => AuthMechanism::Login,
    AuthMechanism::OAuthBearer => AuthMechanism::OAuthBearer, AuthMechanism::XOAuth2 => AuthMechanism::XOAuth2,
    AuthMechanism::ScramSha1 => AuthMechanism::ScramSha1, AuthMechanism::ScramSha1Plus => AuthMechanism::ScramSha1Plus,
    AuthMechanism::ScramSha256 => AuthMechanism::ScramSha256, AuthMechanism::ScramSha256Plus => AuthMechanism::ScramSha256Plus,
    AuthMechanism::ScramSha3_512 => AuthMechanism::ScramSha3_512, AuthMechanism::ScramSha3_512Plus => AuthMechanism::ScramSha3_512Plus,
    AuthMechanism::Other(o) => AuthMechanism::Other(o.into_static()),
});
impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
    fn from(atom: Atom<'a>) -> Self {
        match atom.as_ref().to_ascii_uppercase().as_str() {
            "PLAIN" => Self::Plain, "LOGIN" => Self::Login, "OAUTHBEARER" => Self::OAuthBearer, "XOAUTH2" => Self::XOAuth2,
            "SCRAM-SHA-1" => Self::ScramSha1, "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
            "SCRAM-SHA-256" => Self::ScramSha256, "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
            "SCRAM-SHA3-512" => Self::ScramSha3_512, "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
            _ => Self::Other(AuthMechanismOther(atom)),
        }
    }
}
impl<'a> TryFrom<&'a str> for AuthMechanism<'a> { type Error = ValidationError; fn try_from(v: &'a str) -> Result<Self, ValidationError> { Ok(Atom::try_from(v)?.into()) } }
impl<'a> TryFrom<&'a [u8]> for AuthMechanism<'a> { type Error = ValidationError; fn try_from(v: &'a [u8]) -> Result<Self, ValidationError> { Ok(Atom::try_from(v)?.into()) } }
impl<'a> TryFrom<String> for AuthMechanism<'a> { type Error = ValidationError; fn try_from(v: String) -> Result<Self, ValidationError> { Ok(Atom::try_from(v)?.into()) } }
impl<'a> AsRef<str> for AuthMechanism<'a> {
    fn as_ref(&self) -> &str {
        match self {
            Self::Plain => "PLAIN", Self::Login => "LOGIN", Self::OAuthBearer => "OAUTHBEARER", Self::XOAuth2 => "XOAUTH2",
            Self::ScramSha1 => "SCRAM-SHA-1", Self::ScramSha1Plus => "SCRAM-SHA-1-PLUS",
            Self::ScramSha256 => "SCRAM-SHA-256", Self::ScramSha256Plus => "SCRAM-SHA-256-PLUS",
            Self::ScramSha3_512 => "SCRAM-SHA3-512", Self::ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS",
            Self::Other(o) => o.0.as_ref(),
        }
    }
}
impl<'a> fmt::Display for AuthMechanism<'a> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.as_ref()) } }
#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct AuthMechanismOther<'a>(Atom<'a>);
impl<'a> AuthMechanismOther<'a> { pub fn inner(&self) -> &Atom<'a> { &self.0 } }
st!(AuthMechanismOther, this => AuthMechanismOther(this.0.into_static()));

/// Data line used, e.g., during AUTHENTICATE.
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum AuthenticateData<'a> {
    /// Continue SASL authentication.
    Continue(Secret<Cow<'a, [u8]>>),
    /// Cancel SASL authentication.
    Cancel,
}
impl<'a> AuthenticateData<'a> {
    pub fn r#continue<D: Into<Cow<'a, [u8]>>>(data: D) -> Self { Self::Continue(Secret::new(data.into())) }
}
st!(AuthenticateData, this => match this { AuthenticateData::Continue(s) => AuthenticateData::Continue(s.into_static()), AuthenticateData::Cancel => AuthenticateData::Cancel });
