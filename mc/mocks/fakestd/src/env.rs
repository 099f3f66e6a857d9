//! The environment variables a harness sets up.
pub use ::std::env::VarError;
use ::std::ffi::{OsStr, OsString};

/// The modelled environment, in order.
pub static mut VARS: (Vec<(String, String)>, u64) = (Vec::new(), 0x6d63_4540215f);

pub fn mc_vars() -> &'static mut Vec<(String, String)> {
    unsafe { &mut *::std::ptr::addr_of_mut!(VARS.0) }
}

pub struct Vars {
    i: ::std::vec::IntoIter<(String, String)>,
}
impl Iterator for Vars {
    type Item = (String, String);
    fn next(&mut self) -> Option<(String, String)> {
        self.i.next()
    }
}
pub fn vars() -> Vars {
    Vars { i: mc_vars().clone().into_iter() }
}
pub struct VarsOs {
    i: ::std::vec::IntoIter<(String, String)>,
}
impl Iterator for VarsOs {
    type Item = (OsString, OsString);
    fn next(&mut self) -> Option<(OsString, OsString)> {
        self.i.next().map(|(k, v)| (OsString::from(k), OsString::from(v)))
    }
}
pub fn vars_os() -> VarsOs {
    VarsOs { i: mc_vars().clone().into_iter() }
}
pub fn var<K: AsRef<OsStr>>(key: K) -> Result<String, VarError> {
    let key = key.as_ref().to_str().unwrap_or("");
    for (k, v) in mc_vars().iter() {
        if k == key {
            return Ok(v.clone());
        }
    }
    Err(VarError::NotPresent)
}
pub fn var_os<K: AsRef<OsStr>>(key: K) -> Option<OsString> {
    var(key).ok().map(OsString::from)
}
pub fn args() -> ::std::vec::IntoIter<String> {
    Vec::new().into_iter()
}
pub fn temp_dir() -> ::std::path::PathBuf {
    ::std::path::PathBuf::from("/tmp")
}
pub fn current_dir() -> crate::io::Result<::std::path::PathBuf> {
    Ok(::std::path::PathBuf::from("/"))
}
