//! Stand-in for `bytes`.
use std::ops::{Deref, DerefMut};
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Bytes(Vec<u8>);
impl Bytes {
    pub fn new() -> Self { Bytes(Vec::new()) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn from_static(b: &'static [u8]) -> Self { Bytes(b.to_vec()) }
    pub fn copy_from_slice(b: &[u8]) -> Self { Bytes(b.to_vec()) }
}
impl Deref for Bytes { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Bytes { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Vec<u8>> for Bytes { fn from(v: Vec<u8>) -> Self { Bytes(v) } }
impl From<String> for Bytes { fn from(v: String) -> Self { Bytes(v.into_bytes()) } }
impl From<&'static str> for Bytes { fn from(v: &'static str) -> Self { Bytes(v.as_bytes().to_vec()) } }
impl From<&'static [u8]> for Bytes { fn from(v: &'static [u8]) -> Self { Bytes(v.to_vec()) } }
impl From<Bytes> for Vec<u8> { fn from(v: Bytes) -> Self { v.0 } }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct BytesMut(Vec<u8>);
impl BytesMut {
    pub fn new() -> Self { BytesMut(Vec::new()) }
    pub fn with_capacity(n: usize) -> Self { BytesMut(Vec::with_capacity(n)) }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn extend_from_slice(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    pub fn freeze(self) -> Bytes { Bytes(self.0) }
}
impl Deref for BytesMut { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl DerefMut for BytesMut { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl AsRef<[u8]> for BytesMut { fn as_ref(&self) -> &[u8] { &self.0 } }
macro_rules! puts { ($($n:ident, $t:ty, $f:ident;)*) => { $( fn $n(&mut self, v: $t) { self.put_slice(&v.$f()) } )* } }
pub trait BufMut {
    fn put_slice(&mut self, b: &[u8]);
    fn put<B: AsRef<[u8]>>(&mut self, b: B) where Self: Sized { self.put_slice(b.as_ref()) }
    fn put_u8(&mut self, v: u8) { self.put_slice(&[v]) }
    puts! { put_u16, u16, to_be_bytes; put_u16_le, u16, to_le_bytes; put_u32, u32, to_be_bytes;
            put_u32_le, u32, to_le_bytes; put_u64, u64, to_be_bytes; put_u64_le, u64, to_le_bytes; }
}
impl BufMut for BytesMut { fn put_slice(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
impl BufMut for Vec<u8> { fn put_slice(&mut self, b: &[u8]) { self.extend_from_slice(b) } }
pub trait Buf { fn remaining(&self) -> usize; }
impl Buf for Bytes { fn remaining(&self) -> usize { self.0.len() } }
