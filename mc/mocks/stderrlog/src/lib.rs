//! Stand-in for `stderrlog`.
pub enum Timestamp { Off, Second, Millisecond, Microsecond, Nanosecond }
pub struct StdErrLog;
#[derive(Debug)]
pub struct E;
pub fn new() -> StdErrLog { StdErrLog }
impl StdErrLog {
    pub fn module<T>(&mut self, _m: T) -> &mut Self { self }
    pub fn verbosity<T>(&mut self, _v: T) -> &mut Self { self }
    pub fn quiet(&mut self, _v: bool) -> &mut Self { self }
    pub fn timestamp(&mut self, _t: Timestamp) -> &mut Self { self }
    pub fn init(&mut self) -> Result<(), E> { Ok(()) }
}
