//! Stand-in for `tungstenite`: the message and error types.
pub mod protocol {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct CloseFrame;
    #[derive(Debug, Clone, PartialEq, Eq)]
    #[repr(u8)]
    pub enum Message {
        Text(String),
        Binary(Vec<u8>),
        Ping(Vec<u8>),
        Pong(Vec<u8>),
        Close(Option<CloseFrame>),
        Frame(()),
    }
    impl Message {
        pub fn binary<B: Into<Vec<u8>>>(b: B) -> Message { Message::Binary(b.into()) }
        pub fn text<B: Into<String>>(b: B) -> Message { Message::Text(b.into()) }
        pub fn is_binary(&self) -> bool { matches!(self, Message::Binary(_)) }
        pub fn is_close(&self) -> bool { matches!(self, Message::Close(_)) }
        pub fn is_ping(&self) -> bool { matches!(self, Message::Ping(_)) }
        pub fn into_data(self) -> Vec<u8> {
            match self { Message::Binary(b) | Message::Ping(b) | Message::Pong(b) => b, _ => Vec::new() }
        }
    }
    #[derive(Debug, Clone, Copy, Default)]
    pub struct WebSocketConfig;
}
pub use protocol::Message;
pub mod error {
    #[derive(Debug)]
    pub enum Error { ConnectionClosed, AlreadyClosed, Io, Tls, Protocol, SendQueueFull, Utf8, Url, Http }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("websocket error") }
    }
    impl std::error::Error for Error {}
    pub type Result<T, E = Error> = std::result::Result<T, E>;
}
pub use error::{Error, Result};
pub mod handshake { pub mod client { #[derive(Debug)] pub struct Response; } }
