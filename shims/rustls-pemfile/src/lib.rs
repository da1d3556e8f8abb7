//! Stand-in for `rustls-pemfile` (not available offline) on top of the PEM reader of `rustls-pki-types`.
use rustls::pki_types::{pem::{Error, PemObject}, CertificateDer, PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer};
use std::io;
fn conv(e: Error) -> io::Error { match e { Error::Io(e) => e, e => io::Error::new(io::ErrorKind::InvalidData, format!("{e:?}")) } }
fn all<T: PemObject>(rd: &mut dyn io::BufRead) -> Vec<Result<T, io::Error>> {
    let mut v = vec![];
    for r in T::pem_reader_iter(rd) { let stop = r.is_err(); v.push(r.map_err(conv)); if stop { break } }
    v
}
pub fn certs(rd: &mut dyn io::BufRead) -> impl Iterator<Item = Result<CertificateDer<'static>, io::Error>> + '_ { all(rd).into_iter() }
pub fn pkcs8_private_keys(rd: &mut dyn io::BufRead) -> impl Iterator<Item = Result<PrivatePkcs8KeyDer<'static>, io::Error>> + '_ { all(rd).into_iter() }
pub fn rsa_private_keys(rd: &mut dyn io::BufRead) -> impl Iterator<Item = Result<PrivatePkcs1KeyDer<'static>, io::Error>> + '_ { all(rd).into_iter() }
pub fn ec_private_keys(rd: &mut dyn io::BufRead) -> impl Iterator<Item = Result<PrivateSec1KeyDer<'static>, io::Error>> + '_ { all(rd).into_iter() }
pub fn private_key(rd: &mut dyn io::BufRead) -> Result<Option<PrivateKeyDer<'static>>, io::Error> { all(rd).into_iter().next().transpose() }
