//! Stand-in for `http`: requests and responses as plain data.
#![allow(non_upper_case_globals)]
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Method(u8);
impl Method {
    pub const GET: Method = Method(0);
    pub const POST: Method = Method(1);
    pub const PUT: Method = Method(2);
    pub const DELETE: Method = Method(3);
    pub const PATCH: Method = Method(4);
    pub const HEAD: Method = Method(5);
    pub const OPTIONS: Method = Method(6);
    pub const TRACE: Method = Method(7);
    pub const CONNECT: Method = Method(8);
    pub fn mc_from(n: u8) -> Method { Method(n) }
    pub fn as_str(&self) -> &str {
        match self.0 { 0 => "GET", 1 => "POST", 2 => "PUT", 3 => "DELETE", 4 => "PATCH", 5 => "HEAD", 6 => "OPTIONS", 7 => "TRACE", _ => "CONNECT" }
    }
}
impl fmt::Display for Method {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.as_str()) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct StatusCode(u16);
#[derive(Clone, Copy, Debug)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("http error") }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const CREATED: StatusCode = StatusCode(201);
    pub const ACCEPTED: StatusCode = StatusCode(202);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const BAD_REQUEST: StatusCode = StatusCode(400);
    pub const UNAUTHORIZED: StatusCode = StatusCode(401);
    pub const FORBIDDEN: StatusCode = StatusCode(403);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode(405);
    pub const CONFLICT: StatusCode = StatusCode(409);
    pub const GONE: StatusCode = StatusCode(410);
    pub const PAYLOAD_TOO_LARGE: StatusCode = StatusCode(413);
    pub const UNSUPPORTED_MEDIA_TYPE: StatusCode = StatusCode(415);
    pub const UNPROCESSABLE_ENTITY: StatusCode = StatusCode(422);
    pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    pub const NOT_IMPLEMENTED: StatusCode = StatusCode(501);
    pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn from_u16(n: u16) -> std::result::Result<StatusCode, Error> {
        if n >= 100 && n < 1000 { Ok(StatusCode(n)) } else { Err(Error) }
    }
    pub fn is_success(&self) -> bool { self.0 >= 200 && self.0 < 300 }
    pub fn canonical_reason(&self) -> Option<&'static str> { None }
    pub fn as_str(&self) -> &str { "status" }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let d = [b'0' + (self.0 / 100 % 10) as u8, b'0' + (self.0 / 10 % 10) as u8, b'0' + (self.0 % 10) as u8];
        f.write_str(std::str::from_utf8(&d).unwrap())
    }
}
impl PartialEq<u16> for StatusCode { fn eq(&self, o: &u16) -> bool { self.0 == *o } }

pub trait IntoStatus { fn into_status(self) -> StatusCode; }
impl IntoStatus for StatusCode { fn into_status(self) -> StatusCode { self } }
impl IntoStatus for u16 { fn into_status(self) -> StatusCode { StatusCode(self) } }
impl IntoStatus for i32 { fn into_status(self) -> StatusCode { StatusCode(self as u16) } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HeaderValue(Vec<u8>);
impl HeaderValue {
    pub const fn mc_empty() -> Self { HeaderValue(Vec::new()) }
    pub fn from_static(s: &'static str) -> Self { HeaderValue(s.as_bytes().to_vec()) }
    pub fn from_str(s: &str) -> Result<Self> { Ok(HeaderValue(s.as_bytes().to_vec())) }
    pub fn to_str(&self) -> Result<&str> { std::str::from_utf8(&self.0).map_err(|_| Error) }
    pub fn as_bytes(&self) -> &[u8] { &self.0 }
}
impl PartialEq<str> for HeaderValue { fn eq(&self, o: &str) -> bool { self.0 == o.as_bytes() } }
impl<'a> PartialEq<&'a str> for HeaderValue { fn eq(&self, o: &&'a str) -> bool { self.0 == o.as_bytes() } }
impl PartialEq<HeaderValue> for str { fn eq(&self, o: &HeaderValue) -> bool { o.0 == self.as_bytes() } }
impl<'a> PartialEq<HeaderValue> for &'a str { fn eq(&self, o: &HeaderValue) -> bool { o.0 == self.as_bytes() } }
impl PartialEq<String> for HeaderValue { fn eq(&self, o: &String) -> bool { self.0 == o.as_bytes() } }
impl From<&'static str> for HeaderValue { fn from(s: &'static str) -> Self { HeaderValue(s.as_bytes().to_vec()) } }
impl From<String> for HeaderValue { fn from(s: String) -> Self { HeaderValue(s.into_bytes()) } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HeaderName(&'static str);
impl HeaderName {
    pub const fn from_static(s: &'static str) -> HeaderName { HeaderName(s) }
    pub fn as_str(&self) -> &str { self.0 }
}
impl AsRef<str> for HeaderName { fn as_ref(&self) -> &str { self.0 } }
pub mod header {
    pub use super::{HeaderMap, HeaderName, HeaderValue};
    pub const CONTENT_TYPE: HeaderName = HeaderName::from_static("content-type");
    pub const CONTENT_LENGTH: HeaderName = HeaderName::from_static("content-length");
    pub const ACCEPT: HeaderName = HeaderName::from_static("accept");
    pub const AUTHORIZATION: HeaderName = HeaderName::from_static("authorization");
    pub const LOCATION: HeaderName = HeaderName::from_static("location");
    pub const ALLOW: HeaderName = HeaderName::from_static("allow");
    pub const CACHE_CONTROL: HeaderName = HeaderName::from_static("cache-control");
}
pub trait KeyName { fn key(&self) -> &str; }
impl KeyName for &str { fn key(&self) -> &str { self } }
impl KeyName for String { fn key(&self) -> &str { self } }
impl KeyName for HeaderName { fn key(&self) -> &str { self.0 } }
impl KeyName for &HeaderName { fn key(&self) -> &str { self.0 } }
#[derive(Clone, Debug, Default)]
pub struct HeaderMap(Vec<(String, HeaderValue)>);
impl HeaderMap {
    pub fn new() -> Self { HeaderMap(Vec::new()) }
    pub fn get<K: KeyName>(&self, k: K) -> Option<&HeaderValue> {
        for (n, v) in self.0.iter() {
            if n.eq_ignore_ascii_case(k.key()) { return Some(v); }
        }
        None
    }
    pub fn contains_key<K: KeyName>(&self, k: K) -> bool { self.get(k).is_some() }
    pub fn insert<K: KeyName, V: Into<HeaderValue>>(&mut self, k: K, v: V) { self.0.push((String::from(k.key()), v.into())) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Uri(pub String);
impl Uri {
    pub fn path(&self) -> &str {
        match self.0.find('?') { Some(i) => &self.0[..i], None => &self.0 }
    }
    pub fn query(&self) -> Option<&str> {
        match self.0.find('?') { Some(i) => Some(&self.0[i + 1..]), None => None }
    }
}
impl fmt::Display for Uri {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) }
}

pub mod request {
    use super::*;
    #[derive(Debug)]
    pub struct Parts { pub method: Method, pub uri: Uri, pub headers: HeaderMap }
    #[derive(Debug)]
    pub struct Request<B> { pub(crate) parts: Parts, pub(crate) body: B }
    impl<B> Request<B> {
        pub fn mc_new(method: Method, path: &str, headers: HeaderMap, body: B) -> Self {
            Request { parts: Parts { method, uri: Uri(String::from(path)), headers }, body }
        }
        pub fn into_parts(self) -> (Parts, B) { (self.parts, self.body) }
        pub fn from_parts(parts: Parts, body: B) -> Self { Request { parts, body } }
        pub fn method(&self) -> &Method { &self.parts.method }
        pub fn uri(&self) -> &Uri { &self.parts.uri }
        pub fn headers(&self) -> &HeaderMap { &self.parts.headers }
        pub fn body(&self) -> &B { &self.body }
        pub fn body_mut(&mut self) -> &mut B { &mut self.body }
        pub fn into_body(self) -> B { self.body }
    }
}
pub use request::Request;
pub mod response {
    use super::*;
    #[derive(Debug)]
    pub struct Parts { pub status: StatusCode, pub headers: HeaderMap }
    #[derive(Debug)]
    pub struct Response<B> { parts: Parts, body: B }
    pub struct Builder { parts: Parts }
    impl Response<()> {
        pub fn builder() -> Builder { Builder { parts: Parts { status: StatusCode::OK, headers: HeaderMap::new() } } }
    }
    impl<B> Response<B> {
        pub fn new(body: B) -> Self { Response { parts: Parts { status: StatusCode::OK, headers: HeaderMap::new() }, body } }
        pub fn status(&self) -> StatusCode { self.parts.status }
        pub fn status_mut(&mut self) -> &mut StatusCode { &mut self.parts.status }
        pub fn headers(&self) -> &HeaderMap { &self.parts.headers }
        pub fn headers_mut(&mut self) -> &mut HeaderMap { &mut self.parts.headers }
        pub fn body(&self) -> &B { &self.body }
        pub fn into_body(self) -> B { self.body }
        pub fn into_parts(self) -> (Parts, B) { (self.parts, self.body) }
    }
    impl Builder {
        pub fn new() -> Builder { Response::builder() }
        pub fn status<S: IntoStatus>(mut self, s: S) -> Builder { self.parts.status = s.into_status(); self }
        pub fn header<K: KeyName, V: Into<HeaderValue>>(mut self, k: K, v: V) -> Builder { self.parts.headers.insert(k, v); self }
        pub fn body<B>(self, body: B) -> Result<Response<B>> { Ok(Response { parts: self.parts, body }) }
    }
}
pub use response::Response;
