//! Stand-in for `clap`: the arguments are the ones a harness sets.
pub use clap_derive::Parser;
pub trait Parser: Sized + 'static {
    fn mc_default() -> Self;
    fn parse() -> Self;
}
static mut ARGS: (*mut u8, u64) = (std::ptr::null_mut(), 0x6d63_f1bbcd88);
pub fn mc_set<T: 'static>(v: T) { unsafe { ARGS.0 = Box::into_raw(Box::new(v)) as *mut u8 } }
pub fn mc_take<T: 'static>() -> T {
    unsafe { let p = ARGS.0; ARGS.0 = std::ptr::null_mut(); assert!(!p.is_null()); *Box::from_raw(p as *mut T) }
}
