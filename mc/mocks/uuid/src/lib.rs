//! Stand-in for `uuid`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Uuid(u8);
impl Uuid { pub fn new_v4() -> Uuid { Uuid(0) } }
impl std::fmt::Display for Uuid {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("uuid") }
}
