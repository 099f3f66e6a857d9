//! Stand-in for `rmp-serde` over document trees.
pub mod decode {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("decode error")
        }
    }
    impl std::error::Error for Error {}
    pub fn from_slice<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, Error> {
        match mcserde::lookup(b) {
            Some(v) => mcserde::from_value(v.clone(), false).map_err(|_| Error),
            None => Err(Error),
        }
    }
}
pub mod encode {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("encode error")
        }
    }
    impl std::error::Error for Error {}
    pub fn to_vec_named<T: serde::Serialize + ?Sized>(t: &T) -> Result<Vec<u8>, Error> {
        match mcserde::to_value(t, false) {
            Ok(v) => Ok(mcserde::file(v)),
            Err(_) => Err(Error),
        }
    }
}
pub use decode::from_slice;
pub use encode::to_vec_named;
