use fakestd::io::Result;
use std::net::SocketAddr;
use std::task::Poll;

/// A TCP connection; only its number is modelled.
#[derive(Debug)]
pub struct TcpStream {
    pub id: u32,
}
/// Connections waiting to be accepted.
pub static mut WAITING: (u32, u64) = (0, 0x6d63_fa8cfb85);
static mut ACCEPTED: (u32, u64) = (0, 0x6d63_98c47536);
/// The address a listener was bound to.
pub static mut BOUND: (Option<SocketAddr>, u64) = (None, 0x6d63_36fbeee7);

#[derive(Debug)]
pub struct TcpListener;
impl TcpListener {
    pub async fn bind(addr: SocketAddr) -> Result<TcpListener> {
        unsafe { BOUND.0 = Some(addr) };
        Ok(TcpListener)
    }
    pub async fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|_| unsafe {
            if ACCEPTED.0 < WAITING.0 {
                ACCEPTED.0 += 1;
                Poll::Ready(Ok((
                    TcpStream { id: ACCEPTED.0 - 1 },
                    ([127, 0, 0, 1], 1234u16).into(),
                )))
            } else {
                Poll::Pending
            }
        })
        .await
    }
}
