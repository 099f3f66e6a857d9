//! Stand-in for `hyper`: connections that carry the requests a harness scripts.
#![allow(static_mut_refs)]
pub use http::{header, HeaderMap, Method, Request, Response, StatusCode, Uri};
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("hyper error") }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod body {
    pub use bytes::Bytes;
    /// A request body; or one that breaks off.
    #[derive(Debug)]
    pub struct Incoming { pub data: Vec<u8>, pub fails: bool }
    pub trait Body { fn mc_take(self) -> (Vec<u8>, bool); }
    impl Body for Incoming { fn mc_take(self) -> (Vec<u8>, bool) { (self.data, self.fails) } }
    pub trait Buf {}
}

/// The requests of each connection, in order: (method, path, content type, body).
pub struct Req { pub conn: u32, pub method: Method, pub path: String, pub content_type: Option<&'static str>, pub body: Vec<u8>, pub fails: bool }
pub static mut REQUESTS: (Vec<Req>, u64) = (Vec::new(), 0x6d63_7c3c1046);
pub struct Rsp { pub conn: u32, pub status: u16, pub headers: HeaderMap, pub body: Vec<u8> }
pub static mut RESPONSES: (Vec<Rsp>, u64) = (Vec::new(), 0x6d63_1a7389f7);
pub trait McBody { fn mc_bytes(self) -> Vec<u8>; }

pub mod service {
    pub struct ServiceFn<F>(pub F);
    pub fn service_fn<F>(f: F) -> ServiceFn<F> { ServiceFn(f) }
}
pub mod server { pub mod conn { pub mod http1 {
    use crate::*;
    pub struct Builder;
    impl Builder {
        pub fn new() -> Self { Builder }
        pub fn keep_alive(&mut self, _v: bool) -> &mut Self { self }
        pub async fn serve_connection<F, Fut, B, E>(&self, io: tokio::net::TcpStream, s: service::ServiceFn<F>) -> Result<()>
        where F: Fn(Request<body::Incoming>) -> Fut, Fut: std::future::Future<Output = std::result::Result<Response<B>, E>>, B: McBody
        {
            let mut i = 0;
            loop {
                let n = unsafe { REQUESTS.0.len() };
                if i >= n { return Ok(()); }
                let r = unsafe { &mut REQUESTS.0[i] };
                i += 1;
                if r.conn != io.id { continue; }
                let mut h = HeaderMap::new();
                if let Some(c) = r.content_type { h.insert("content-type", c); }
                let req = Request::mc_new(r.method.clone(), &r.path, h, body::Incoming { data: r.body.clone(), fails: r.fails });
                match (s.0)(req).await {
                    Ok(rsp) => {
                        let status = rsp.status().as_u16();
                        let (parts, body) = rsp.into_parts();
                        unsafe { RESPONSES.0.push(Rsp { conn: io.id, status, headers: parts.headers, body: body.mc_bytes() }) };
                    }
                    Err(_) => return Err(Error),
                }
            }
        }
    }
} } }
