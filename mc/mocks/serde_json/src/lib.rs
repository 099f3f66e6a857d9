//! Stand-in for `serde_json` over document trees.
#![allow(unused, static_mut_refs)]
pub use mcserde::Value;

pub mod error {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("json error")
        }
    }
    impl std::error::Error for Error {}
    impl From<Error> for fakestd::io::Error {
        fn from(_: Error) -> Self {
            fakestd::io::Error::from(fakestd::io::ErrorKind::InvalidData)
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
pub use error::{Error, Result};

/// The document any reader yields.
pub static mut READER_DOC: (Option<Value>, u64) = (None, 0x6d63_e3779b10);
/// Documents written, in order.
pub static mut WRITTEN: (Vec<Value>, u64) = (Vec::new(), 0x6d63_81af14c1);

pub fn from_slice<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T> {
    match mcserde::lookup(b) {
        Some(v) => mcserde::from_value(v.clone(), true).map_err(|_| Error),
        None => Err(Error),
    }
}
pub fn from_str<T: serde::de::DeserializeOwned>(s: &str) -> Result<T> {
    from_slice(s.as_bytes())
}
pub fn from_reader<R, T: serde::de::DeserializeOwned>(_r: R) -> Result<T> {
    match unsafe { &READER_DOC.0 } {
        Some(v) => mcserde::from_value(v.clone(), true).map_err(|_| Error),
        None => Err(Error),
    }
}
pub fn from_value<T: serde::de::DeserializeOwned>(v: Value) -> Result<T> {
    mcserde::from_value(v, true).map_err(|_| Error)
}
pub fn to_value<T: serde::Serialize>(t: T) -> Result<Value> {
    mcserde::to_value(&t, true).map_err(|_| Error)
}
/// The bytes that stand for the document: readable ones, as a string is wanted.
pub fn to_string<T: serde::Serialize + ?Sized>(t: &T) -> Result<String> {
    match mcserde::to_value(t, true) {
        Ok(v) => Ok(String::from_utf8(mcserde::file(v)).unwrap()),
        Err(_) => Err(Error),
    }
}
pub fn to_string_pretty<T: serde::Serialize + ?Sized>(t: &T) -> Result<String> {
    to_string(t)
}
pub fn to_vec<T: serde::Serialize + ?Sized>(t: &T) -> Result<Vec<u8>> {
    match mcserde::to_value(t, true) {
        Ok(v) => Ok(mcserde::file(v)),
        Err(_) => Err(Error),
    }
}
pub fn to_writer<W, T: serde::Serialize + ?Sized>(_w: W, t: &T) -> Result<()> {
    match mcserde::to_value(t, true) {
        Ok(v) => {
            unsafe { (*std::ptr::addr_of_mut!(WRITTEN.0)).push(v) };
            Ok(())
        }
        Err(_) => Err(Error),
    }
}

/// Keys of `json!` objects.
pub trait Key {
    fn key(self) -> Value;
}
impl Key for &str {
    fn key(self) -> Value {
        Value::Str(String::from(self))
    }
}
impl Key for String {
    fn key(self) -> Value {
        Value::Str(self)
    }
}
impl Key for &String {
    fn key(self) -> Value {
        Value::Str(self.clone())
    }
}


pub struct Map(pub Vec<Box<(Value, Value)>>);
impl Map {
    pub fn new() -> Self {
        Map(Vec::new())
    }
    pub fn insert(&mut self, k: Value, v: Value) {
        self.0.push(Box::new((k, v)))
    }
}
#[macro_export(local_inner_macros)]
macro_rules! json {
    ($($json:tt)+) => {
        json_internal!($($json)+)
    };
}
#[macro_export(local_inner_macros)]
#[doc(hidden)]
macro_rules! json_internal {
    (@array [$($elems:expr,)*]) => {
        json_internal_vec![$($elems,)*]
    };
    (@array [$($elems:expr),*]) => {
        json_internal_vec![$($elems),*]
    };
    (@array [$($elems:expr,)*] null $($rest:tt)*) => {
        json_internal!(@array [$($elems,)* json_internal!(null)] $($rest)*)
    };
    (@array [$($elems:expr,)*] true $($rest:tt)*) => {
        json_internal!(@array [$($elems,)* json_internal!(true)] $($rest)*)
    };
    (@array [$($elems:expr,)*] false $($rest:tt)*) => {
        json_internal!(@array [$($elems,)* json_internal!(false)] $($rest)*)
    };
    (@array [$($elems:expr,)*] [$($array:tt)*] $($rest:tt)*) => {
        json_internal!(@array [$($elems,)* json_internal!([$($array)*])] $($rest)*)
    };
    (@array [$($elems:expr,)*] {$($map:tt)*} $($rest:tt)*) => {
        json_internal!(@array [$($elems,)* json_internal!({$($map)*})] $($rest)*)
    };
    (@array [$($elems:expr,)*] $next:expr, $($rest:tt)*) => {
        json_internal!(@array [$($elems,)* json_internal!($next),] $($rest)*)
    };
    (@array [$($elems:expr,)*] $last:expr) => {
        json_internal!(@array [$($elems,)* json_internal!($last)])
    };
    (@array [$($elems:expr),*] , $($rest:tt)*) => {
        json_internal!(@array [$($elems,)*] $($rest)*)
    };
    (@array [$($elems:expr),*] $unexpected:tt $($rest:tt)*) => {
        json_unexpected!($unexpected)
    };
    (@object $object:ident () () ()) => {};
    (@object $object:ident [$($key:tt)+] ($value:expr) , $($rest:tt)*) => {
        let _ = $object.insert($crate::Key::key($($key)+), $value);
        json_internal!(@object $object () ($($rest)*) ($($rest)*));
    };
    (@object $object:ident [$($key:tt)+] ($value:expr) $unexpected:tt $($rest:tt)*) => {
        json_unexpected!($unexpected);
    };
    (@object $object:ident [$($key:tt)+] ($value:expr)) => {
        let _ = $object.insert($crate::Key::key($($key)+), $value);
    };
    (@object $object:ident ($($key:tt)+) (: null $($rest:tt)*) $copy:tt) => {
        json_internal!(@object $object [$($key)+] (json_internal!(null)) $($rest)*);
    };
    (@object $object:ident ($($key:tt)+) (: true $($rest:tt)*) $copy:tt) => {
        json_internal!(@object $object [$($key)+] (json_internal!(true)) $($rest)*);
    };
    (@object $object:ident ($($key:tt)+) (: false $($rest:tt)*) $copy:tt) => {
        json_internal!(@object $object [$($key)+] (json_internal!(false)) $($rest)*);
    };
    (@object $object:ident ($($key:tt)+) (: [$($array:tt)*] $($rest:tt)*) $copy:tt) => {
        json_internal!(@object $object [$($key)+] (json_internal!([$($array)*])) $($rest)*);
    };
    (@object $object:ident ($($key:tt)+) (: {$($map:tt)*} $($rest:tt)*) $copy:tt) => {
        json_internal!(@object $object [$($key)+] (json_internal!({$($map)*})) $($rest)*);
    };
    (@object $object:ident ($($key:tt)+) (: $value:expr , $($rest:tt)*) $copy:tt) => {
        json_internal!(@object $object [$($key)+] (json_internal!($value)) , $($rest)*);
    };
    (@object $object:ident ($($key:tt)+) (: $value:expr) $copy:tt) => {
        json_internal!(@object $object [$($key)+] (json_internal!($value)));
    };
    (@object $object:ident ($($key:tt)+) (:) $copy:tt) => {
        json_internal!();
    };
    (@object $object:ident ($($key:tt)+) () $copy:tt) => {
        json_internal!();
    };
    (@object $object:ident () (: $($rest:tt)*) ($colon:tt $($copy:tt)*)) => {
        json_unexpected!($colon);
    };
    (@object $object:ident ($($key:tt)*) (, $($rest:tt)*) ($comma:tt $($copy:tt)*)) => {
        json_unexpected!($comma);
    };
    (@object $object:ident () (($key:expr) : $($rest:tt)*) $copy:tt) => {
        json_internal!(@object $object ($key) (: $($rest)*) (: $($rest)*));
    };
    (@object $object:ident ($($key:tt)*) (: $($unexpected:tt)+) $copy:tt) => {
        json_expect_expr_comma!($($unexpected)+);
    };
    (@object $object:ident ($($key:tt)*) ($tt:tt $($rest:tt)*) $copy:tt) => {
        json_internal!(@object $object ($($key)* $tt) ($($rest)*) ($($rest)*));
    };

    (null) => {
        $crate::Value::Null
    };

    (true) => {
        $crate::Value::Bool(true)
    };

    (false) => {
        $crate::Value::Bool(false)
    };

    ([]) => {
        $crate::Value::Seq(json_internal_vec![])
    };

    ([ $($tt:tt)+ ]) => {
        $crate::Value::Seq(json_internal!(@array [] $($tt)+))
    };

    ({}) => {
        $crate::Value::Map($crate::Map::new().0)
    };

    ({ $($tt:tt)+ }) => {
        $crate::Value::Map({
            let mut object = $crate::Map::new();
            json_internal!(@object object () ($($tt)+) ($($tt)+));
            object.0
        })
    };
    ($other:expr) => {
        $crate::to_value(&$other).unwrap()
    };
}
#[macro_export]
#[doc(hidden)]
macro_rules! json_internal_vec {
    ($($content:tt)*) => {
        vec![$($content)*]
    };
}

#[macro_export]
#[doc(hidden)]
macro_rules! json_unexpected {
    () => {};
}

#[macro_export]
#[doc(hidden)]
macro_rules! json_expect_expr_comma {
    ($e:expr , $($tt:tt)*) => {};
}
