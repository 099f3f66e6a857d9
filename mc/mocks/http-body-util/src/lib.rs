//! Stand-in for `http-body-util`.
use bytes::Bytes;
#[derive(Debug, Clone)]
pub struct Full<D>(pub D);
impl<D> Full<D> { pub fn new(d: D) -> Self { Full(d) } }
impl From<String> for Full<Bytes> { fn from(s: String) -> Self { Full(Bytes::from(s)) } }
impl From<Vec<u8>> for Full<Bytes> { fn from(s: Vec<u8>) -> Self { Full(Bytes::from(s)) } }
impl From<Bytes> for Full<Bytes> { fn from(s: Bytes) -> Self { Full(s) } }
impl From<&'static str> for Full<Bytes> { fn from(s: &'static str) -> Self { Full(Bytes::from(s)) } }
impl hyper::McBody for Full<Bytes> { fn mc_bytes(self) -> Vec<u8> { self.0.into() } }
pub struct Collected(Bytes);
impl Collected { pub fn to_bytes(self) -> Bytes { self.0 } }
#[allow(async_fn_in_trait)]
pub trait BodyExt: hyper::body::Body + Sized {
    async fn collect(self) -> Result<Collected, hyper::Error> {
        let (b, fails) = self.mc_take();
        if fails { Err(hyper::Error) } else { Ok(Collected(Bytes::from(b))) }
    }
}
impl<T: hyper::body::Body> BodyExt for T {}
