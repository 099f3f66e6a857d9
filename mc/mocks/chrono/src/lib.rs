//! Stand-in for `chrono`: wall-clock times, whose text is not modelled.
use fakestd::time::SystemTime;
use std::marker::PhantomData;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Utc;
impl Utc {
    pub fn now() -> DateTime<Utc> { DateTime { t: SystemTime::now(), p: PhantomData } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DateTime<T> { pub t: SystemTime, p: PhantomData<T> }
impl<T> DateTime<T> {
    pub fn to_rfc3339(&self) -> String {
        // The time in microseconds, as eight bytes of text.
        let mut s = String::new();
        let mut v = self.t.0;
        let mut i = 0;
        while i < 8 { s.push(char::from(b'0' + (v & 7) as u8)); v >>= 3; i += 1; }
        s
    }
    pub fn timestamp(&self) -> i64 { (self.t.0 / 1_000_000) as i64 }
}
impl From<SystemTime> for DateTime<Utc> {
    fn from(t: SystemTime) -> Self { DateTime { t, p: PhantomData } }
}
