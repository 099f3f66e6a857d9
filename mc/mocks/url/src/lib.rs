//! Stand-in for `url`: the text of a URL.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Url(pub String);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ParseError;
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("url error") }
}
impl std::error::Error for ParseError {}
impl Url {
    pub fn parse(s: &str) -> Result<Url, ParseError> { Ok(Url(String::from(s))) }
    pub fn as_str(&self) -> &str { &self.0 }
}
impl std::fmt::Display for Url {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
