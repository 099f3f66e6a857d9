//! The real `std::ffi`, with an owned C string that remembers its length.
pub use ::std::ffi::*;
use ::std::vec::Vec;
use mcenv::{cstr, nd};

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Hash)]
pub struct CString {
    b: Vec<u8>,
}

impl CString {
    pub fn new<T: Into<Vec<u8>>>(t: T) -> Result<CString, NulError> {
        let mut b: Vec<u8> = t.into();
        if unsafe { cstr::LENGTH.0 } != 0 {
            let n = cstr::length(b.len());
            let mut c: Vec<u8> = Vec::with_capacity(n + 1);
            let mut i = 0;
            while i < n {
                nd::assume(b[i] != 0);
                c.push(b[i]);
                i += 1;
            }
            c.push(0);
            return Ok(CString { b: c });
        }
        if unsafe { cstr::CHECK_NUL.0 } {
            let s: &[u8] = &b;
            let mut i = 0;
            while i < s.len() {
                if s[i] == 0 {
                    return Err(::std::ffi::CString::new(vec![0u8]).unwrap_err());
                }
                i += 1;
            }
        } else {
            let s: &[u8] = &b;
            let mut i = 0;
            while i < s.len() {
                nd::assume(s[i] != 0);
                i += 1;
            }
        }
        b.push(0);
        Ok(CString { b })
    }
    pub fn as_ptr(&self) -> *const c_char {
        cstr::register(self.b.as_ptr(), self.b.len() - 1);
        self.b.as_ptr() as *const c_char
    }
    pub fn into_raw(self) -> *mut c_char {
        let mut s = ::std::mem::ManuallyDrop::new(self);
        let p = s.b.as_mut_ptr();
        cstr::register(p, s.b.len() - 1);
        p as *mut c_char
    }
    pub unsafe fn from_raw(p: *mut c_char) -> CString {
        let n = cstr::find(p as *const u8).unwrap();
        cstr::forget(p as *const u8);
        CString { b: Vec::from_raw_parts(p as *mut u8, n + 1, n + 1) }
    }
    pub fn into_string(self) -> Result<String, IntoStringError> {
        Ok(unsafe { String::from_utf8_unchecked(self.into_bytes()) })
    }
    pub fn into_bytes(mut self) -> Vec<u8> {
        self.b.pop();
        self.b
    }
    pub fn into_bytes_with_nul(self) -> Vec<u8> {
        self.b
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.b[..self.b.len() - 1]
    }
    pub fn as_bytes_with_nul(&self) -> &[u8] {
        &self.b
    }
    pub fn to_bytes(&self) -> &[u8] {
        self.as_bytes()
    }
    pub fn to_str(&self) -> Result<&str, ::std::str::Utf8Error> {
        Ok(unsafe { ::std::str::from_utf8_unchecked(self.as_bytes()) })
    }
    pub fn as_c_str(&self) -> &CStr {
        self.as_ptr();
        unsafe { CStr::from_bytes_with_nul_unchecked(&self.b) }
    }
}

impl ::std::ops::Deref for CString {
    type Target = CStr;
    fn deref(&self) -> &CStr {
        self.as_c_str()
    }
}
impl AsRef<CStr> for CString {
    fn as_ref(&self) -> &CStr {
        self.as_c_str()
    }
}
impl ::std::fmt::Debug for CString {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("CString")
    }
}
impl Default for CString {
    fn default() -> Self {
        CString { b: vec![0] }
    }
}
