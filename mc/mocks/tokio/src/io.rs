use fakestd::io::{Error, ErrorKind, Result};
use std::task::{Context, Poll};

/// Something that can be read, or tried to.
pub trait AsyncRead {
    fn mc_poll_read(&mut self, buf: &mut [u8]) -> Poll<Result<usize>>;
}
impl<T: AsyncRead + ?Sized> AsyncRead for &mut T {
    fn mc_poll_read(&mut self, buf: &mut [u8]) -> Poll<Result<usize>> {
        (**self).mc_poll_read(buf)
    }
}

async fn read_full<R: AsyncRead + ?Sized>(r: &mut R, buf: &mut [u8]) -> Result<usize> {
    let mut pos = 0;
    while pos < buf.len() {
        let n = std::future::poll_fn(|_| r.mc_poll_read(&mut buf[pos..])).await?;
        if n == 0 {
            return Err(Error::from(ErrorKind::UnexpectedEof));
        }
        pos += n;
    }
    Ok(pos)
}

macro_rules! ints {
    ($($name:ident, $t:ty, $conv:ident;)*) => { $(
        async fn $name(&mut self) -> Result<$t> {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            read_full(self, &mut b).await?;
            Ok(<$t>::$conv(b))
        }
    )* };
}

#[allow(async_fn_in_trait)]
pub trait AsyncReadExt: AsyncRead {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        std::future::poll_fn(|_| self.mc_poll_read(buf)).await
    }
    async fn read_exact(&mut self, buf: &mut [u8]) -> Result<usize> {
        read_full(self, buf).await
    }
    async fn read_to_end(&mut self, out: &mut Vec<u8>) -> Result<usize> {
        let mut total = 0;
        loop {
            let mut b = [0u8; 16];
            let n = std::future::poll_fn(|_| self.mc_poll_read(&mut b)).await?;
            if n == 0 {
                return Ok(total);
            }
            out.extend_from_slice(&b[..n]);
            total += n;
        }
    }
    async fn read_buf<B: Extend<u8>>(&mut self, out: &mut B) -> Result<usize> {
        let mut b = [0u8; 16];
        let n = std::future::poll_fn(|_| self.mc_poll_read(&mut b)).await?;
        out.extend(b[..n].iter().copied());
        Ok(n)
    }
    ints! {
        read_u8, u8, from_be_bytes;
        read_u16, u16, from_be_bytes;
        read_u16_le, u16, from_le_bytes;
        read_u32, u32, from_be_bytes;
        read_u32_le, u32, from_le_bytes;
        read_u64, u64, from_be_bytes;
        read_u64_le, u64, from_le_bytes;
    }
}
impl<R: AsyncRead + ?Sized> AsyncReadExt for R {}
