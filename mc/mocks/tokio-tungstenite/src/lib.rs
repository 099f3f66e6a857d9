//! Stand-in for `tokio-tungstenite`: a websocket whose peer is the harness.
#![allow(static_mut_refs)]
pub use tungstenite;
use futures_util::{Sink, Stream};
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll};
use tungstenite::{Error, Message};

pub enum Connector { Plain, NativeTls(native_tls::TlsConnector) }
pub struct MaybeTlsStream<S>(PhantomData<S>);

/// What the peer does next.
#[repr(u8)]
pub enum Step { Wait, Msg(Message), Fail, End }

/// Gives whether connection attempt number `n` (from 0) succeeds.
pub static mut ON_CONNECT: (Option<fn(u32, &url::Url, &Connector) -> bool>, u64) = (None, 0x6d63_c6ef3620);
/// Gives what connection `n` receives next.
pub static mut ON_NEXT: (Option<fn(u32) -> Step>, u64) = (None, 0x6d63_6526afd1);
/// Takes a message sent on connection `n`; false when the send fails.
pub static mut ON_SEND: (Option<fn(u32, &Message) -> bool>, u64) = (None, 0x6d63_035e2982);
/// Whether closing works.
pub static mut ON_CLOSE: (Option<fn(u32) -> bool>, u64) = (None, 0x6d63_a195a333);
pub static mut ATTEMPTS: (u32, u64) = (0, 0x6d63_3fcd1ce4);

pub struct WebSocketStream<S> { pub id: u32, closed: bool, ended: bool, p: PhantomData<S> }
impl<S> Unpin for WebSocketStream<S> {}

pub async fn connect_async_tls_with_config(
    url: &url::Url,
    _config: Option<tungstenite::protocol::WebSocketConfig>,
    _disable_nagle: bool,
    connector: Option<Connector>,
) -> Result<(WebSocketStream<MaybeTlsStream<tokio::net::TcpStream>>, tungstenite::handshake::client::Response), Error> {
    let n = unsafe { ATTEMPTS.0 };
    unsafe { ATTEMPTS.0 += 1 };
    let c = connector.unwrap_or(Connector::Plain);
    let ok = match unsafe { ON_CONNECT.0 } { Some(f) => f(n, url, &c), None => true };
    // Connecting takes at least one turn of the event loop.
    tokio::task::yield_now().await;
    if ok {
        Ok((WebSocketStream { id: n, closed: false, ended: false, p: PhantomData }, tungstenite::handshake::client::Response))
    } else {
        Err(Error::Io)
    }
}

impl<S> Stream for WebSocketStream<S> {
    type Item = Result<Message, Error>;
    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.ended {
            return Poll::Ready(None);
        }
        if self.closed {
            self.ended = true;
            return Poll::Ready(None);
        }
        match unsafe { ON_NEXT.0 } {
            None => Poll::Pending,
            Some(f) => match f(self.id) {
                Step::Wait => Poll::Pending,
                Step::Msg(m) => Poll::Ready(Some(Ok(m))),
                Step::Fail => { self.ended = true; Poll::Ready(Some(Err(Error::Io))) }
                Step::End => { self.ended = true; Poll::Ready(None) }
            },
        }
    }
}
impl<S> Sink<Message> for WebSocketStream<S> {
    type Error = Error;
    fn poll_ready(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> {
        if self.closed {
            return Err(Error::AlreadyClosed);
        }
        match unsafe { ON_SEND.0 } {
            Some(f) => if f(self.id, &m) { Ok(()) } else { Err(Error::Io) },
            None => Ok(()),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        self.closed = true;
        let ok = match unsafe { ON_CLOSE.0 } { Some(f) => f(self.id), None => true };
        Poll::Ready(if ok { Ok(()) } else { Err(Error::Io) })
    }
}
