pub use ::std::thread::*;
pub fn sleep(_d: ::std::time::Duration) {}
