//! Stand-in for `rustls-native-certs` (not available offline): the operating system trusts exactly the test CA.
use rustls::pki_types::{pem::PemObject, CertificateDer};
pub fn load_native_certs() -> Result<Vec<CertificateDer<'static>>, std::io::Error> { Ok(vec![CertificateDer::from_pem_slice(include_bytes!("../../../pki/ca.pem")).unwrap()]) }
