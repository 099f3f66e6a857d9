pub use ::std::process::{ExitCode, Termination};
pub fn exit(code: i32) -> ! {
    mcenv::kernel::k().exit(code)
}
pub fn abort() -> ! {
    mcenv::kernel::k().exit(134)
}
pub fn id() -> u32 {
    42
}
