//! Stand-in for `native-tls`: records the certificates a connector trusts.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("tls error") }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone)]
pub struct Certificate(pub Vec<u8>);
/// Whether certificates parse.
pub static mut BAD_CERT: (bool, u64) = (false, 0x6d63_de049695);
impl Certificate {
    pub fn from_pem(b: &[u8]) -> Result<Certificate> {
        if unsafe { BAD_CERT.0 } { Err(Error) } else { Ok(Certificate(b.to_vec())) }
    }
}
#[derive(Clone)]
pub struct TlsConnector { pub roots: Vec<Vec<u8>>, pub lax: bool }
pub struct TlsConnectorBuilder { roots: Vec<Vec<u8>>, lax: bool }
impl TlsConnector {
    pub fn builder() -> TlsConnectorBuilder { TlsConnectorBuilder { roots: Vec::new(), lax: false } }
    pub fn new() -> Result<TlsConnector> { Self::builder().build() }
}
impl TlsConnectorBuilder {
    pub fn add_root_certificate(&mut self, c: Certificate) -> &mut Self { self.roots.push(c.0); self }
    pub fn danger_accept_invalid_certs(&mut self, v: bool) -> &mut Self { self.lax |= v; self }
    pub fn danger_accept_invalid_hostnames(&mut self, v: bool) -> &mut Self { self.lax |= v; self }
    pub fn disable_built_in_roots(&mut self, _v: bool) -> &mut Self { self }
    pub fn build(&self) -> Result<TlsConnector> { Ok(TlsConnector { roots: self.roots.clone(), lax: self.lax }) }
}
