//! Stand-in for `log`: messages are not observable behaviour here.
#[macro_export]
macro_rules! error { ($($a:tt)*) => {{ if false { $crate::mc_args!($($a)*); } }}; }
#[macro_export]
macro_rules! warn { ($($a:tt)*) => {{ if false { $crate::mc_args!($($a)*); } }}; }
#[macro_export]
macro_rules! info { ($($a:tt)*) => {{ if false { $crate::mc_args!($($a)*); } }}; }
#[macro_export]
macro_rules! debug { ($($a:tt)*) => {{ if false { $crate::mc_args!($($a)*); } }}; }
#[macro_export]
macro_rules! trace { ($($a:tt)*) => {{ if false { $crate::mc_args!($($a)*); } }}; }
#[macro_export]
macro_rules! mc_args {
    (target: $t:expr, $($a:tt)*) => { let _ = ::core::format_args!($($a)*); };
    ($($a:tt)*) => { let _ = ::core::format_args!($($a)*); };
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level { Error = 1, Warn, Info, Debug, Trace }
#[macro_export]
macro_rules! log_enabled { ($($a:tt)*) => { false }; }
