//! The real `futures`, with the stand-in `futures-util`.
#![no_std]
pub use real::*;
pub use util::stream;
pub use util::stream::StreamExt;
