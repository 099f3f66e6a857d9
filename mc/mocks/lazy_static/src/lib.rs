//! Stand-in for `lazy_static`: evaluated at first use, single-threaded.
#![no_std]
extern crate std;
pub struct Lazy<T: 'static>(pub core::cell::UnsafeCell<core::option::Option<T>>);
unsafe impl<T> Sync for Lazy<T> {}
impl<T: 'static> Lazy<T> {
    pub const fn new() -> Self { Lazy(core::cell::UnsafeCell::new(core::option::Option::None)) }
    #[inline(always)]
    pub fn get<F: FnOnce() -> T>(&'static self, f: F) -> &'static T {
        unsafe {
            if (*self.0.get()).is_none() {
                *self.0.get() = core::option::Option::Some(f());
            }
            match *self.0.get() {
                core::option::Option::Some(ref v) => v,
                core::option::Option::None => core::unreachable!(),
            }
        }
    }
}
#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::lazy_one!($(#[$a])* (), $N, $T, $e); $crate::lazy_static!($($t)*);
    };
    ($(#[$a:meta])* pub static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::lazy_one!($(#[$a])* (pub), $N, $T, $e); $crate::lazy_static!($($t)*);
    };
    ($(#[$a:meta])* pub ($($v:tt)+) static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
        $crate::lazy_one!($(#[$a])* (pub ($($v)+)), $N, $T, $e); $crate::lazy_static!($($t)*);
    };
    () => {};
}
#[macro_export]
macro_rules! lazy_one {
    ($(#[$a:meta])* ($($v:tt)*), $N:ident, $T:ty, $e:expr) => {
        #[allow(non_camel_case_types)]
        $(#[$a])*
        $($v)* struct $N { _p: () }
        #[allow(dead_code)]
        $($v)* static $N: $N = $N { _p: () };
        impl ::core::ops::Deref for $N {
            type Target = $T;
            fn deref(&self) -> &$T {
                static L: $crate::Lazy<$T> = $crate::Lazy::new();
                L.get(|| $e)
            }
        }
    };
}
pub trait LazyStatic {}
pub fn initialize<T: core::ops::Deref>(t: &T) { let _ = &**t; }
