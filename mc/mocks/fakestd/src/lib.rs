//! Stand-in for `std`: everything of the real one, except the parts that act
//! on the environment (files, environment variables, clocks, process exit) or
//! that a solver cannot take apart (tree and hash maps, the packed io::Error),
//! which are replaced by simple models with the same interface.
#![allow(unused, static_mut_refs, incomplete_features)]
#![feature(specialization, allocator_api)]

pub use ::std::*;

// Shadow the glob re-exports above.
pub mod collections;
pub mod env;
pub mod ffi;
pub mod fs;
pub mod io;
pub mod process;
pub mod stubs;
pub mod sync;
pub mod thread;
pub mod time;

/// When set, `format!` yields a short fixed string: for harnesses where message
/// text is not the subject.
pub static mut STUB_FORMAT: (bool, u64) = (false, 0x6d63_6a99b44c);

pub fn mc_format(args: ::std::fmt::Arguments<'_>) -> String {
    if unsafe { STUB_FORMAT.0 } {
        String::from("~")
    } else {
        ::std::fmt::format(args)
    }
}

/// Likewise for integers whose digits are symbolic.
pub static mut STUB_INT: (bool, u64) = (false, 0x6d63_08d12dfd);
/// The number of digits of every (non-negative) integer formatted; 0 for any.
pub static mut DIGITS: (usize, u64) = (0, 0x6d63_a708a7ae);

pub mod mcfmt;
pub use mcfmt_macro::format;

pub mod string {
    pub use ::std::string::*;
    pub use crate::mcfmt::ToString;
}
pub mod prelude {
    pub use ::std::prelude::*;
    pub mod rust_2021 {
        pub use ::std::prelude::rust_2021::*;
        pub use crate::mcfmt::ToString;
    }
    pub mod v1 {
        pub use ::std::prelude::v1::*;
        pub use crate::mcfmt::ToString;
    }
}

#[macro_export]
macro_rules! println {
    ($($arg:tt)*) => {{ if false { let _ = ::core::format_args!($($arg)*); } }};
}
#[macro_export]
macro_rules! eprintln {
    ($($arg:tt)*) => {{ if false { let _ = ::core::format_args!($($arg)*); } }};
}
#[macro_export]
macro_rules! print {
    ($($arg:tt)*) => {{ if false { let _ = ::core::format_args!($($arg)*); } }};
}
#[macro_export]
macro_rules! eprint {
    ($($arg:tt)*) => {{ if false { let _ = ::core::format_args!($($arg)*); } }};
}
