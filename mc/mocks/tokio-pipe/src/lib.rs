//! Stand-in for `tokio-pipe`: the async read end of a modelled pipe.
#![allow(unused, static_mut_refs)]
use fakestd::io::{Error, Result};
use mcenv::kernel::{self, k, Data};
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd, RawFd};
use std::task::Poll;

/// How a read from a pipe proceeds: how many of the available bytes to hand
/// over (0 for "not yet"); when nothing is left, whether to report the end.
pub static mut ON_READ: (Option<fn(u8, usize) -> ReadStep>, u64) = (None, 0x6d63_8ff34739);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ReadStep {
    Wait,
    Bytes(usize),
    End,
    Fail(i32),
}

#[derive(Debug)]
pub struct PipeRead {
    fd: RawFd,
}
impl PipeRead {
    pub fn from_raw_fd_checked(fd: RawFd) -> Result<PipeRead> {
        if !k().valid(fd) {
            return Err(Error::from_raw_os_error(kernel::EBADF));
        }
        if k().fds[fd as usize].kind != kernel::K_PIPE_R {
            return Err(Error::from_raw_os_error(kernel::EINVAL));
        }
        Ok(PipeRead { fd })
    }
}
impl Drop for PipeRead {
    fn drop(&mut self) {
        k().close(self.fd);
    }
}
impl AsRawFd for PipeRead {
    fn as_raw_fd(&self) -> RawFd {
        self.fd
    }
}
impl IntoRawFd for PipeRead {
    fn into_raw_fd(self) -> RawFd {
        let fd = self.fd;
        std::mem::forget(self);
        fd
    }
}
impl FromRawFd for PipeRead {
    unsafe fn from_raw_fd(fd: RawFd) -> Self {
        PipeRead { fd }
    }
}
impl tokio::io::AsyncRead for PipeRead {
    fn mc_poll_read(&mut self, buf: &mut [u8]) -> Poll<Result<usize>> {
        let id = k().fds[self.fd as usize].id;
        let d: &mut Data = &mut k().pipes[id as usize];
        let avail = d.bytes.len() - d.off;
        let step = match unsafe { ON_READ.0 } {
            Some(f) => f(id, avail),
            None => {
                if avail > 0 {
                    ReadStep::Bytes(avail)
                } else {
                    ReadStep::End
                }
            }
        };
        match step {
            ReadStep::Wait => Poll::Pending,
            ReadStep::End => Poll::Ready(Ok(0)),
            ReadStep::Fail(e) => Poll::Ready(Err(Error::from_raw_os_error(e))),
            ReadStep::Bytes(n) => {
                let n = if n < avail { n } else { avail };
                let n = if n < buf.len() { n } else { buf.len() };
                let mut i = 0;
                while i < n {
                    buf[i] = d.bytes[d.off + i];
                    i += 1;
                }
                d.off += n;
                Poll::Ready(Ok(n))
            }
        }
    }
}
