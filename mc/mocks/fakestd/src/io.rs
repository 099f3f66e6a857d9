//! A plain io::Error, and the readers and writers the program uses.
pub use ::std::io::{ErrorKind, SeekFrom};
use ::std::fmt;

pub type Result<T> = ::std::result::Result<T, Error>;
pub type RawOsError = i32;

pub struct Error {
    pub os: i32,
    pub kind: ErrorKind,
}
impl Error {
    pub fn last_os_error() -> Error {
        Error::from_raw_os_error(mcenv::kernel::k().errno)
    }
    pub fn from_raw_os_error(os: i32) -> Error {
        let kind = match os {
            1 | 13 => ErrorKind::PermissionDenied,
            2 => ErrorKind::NotFound,
            4 => ErrorKind::Interrupted,
            11 => ErrorKind::WouldBlock,
            12 => ErrorKind::OutOfMemory,
            17 => ErrorKind::AlreadyExists,
            22 => ErrorKind::InvalidInput,
            32 => ErrorKind::BrokenPipe,
            _ => ErrorKind::Other,
        };
        Error { os, kind }
    }
    pub fn new<E>(kind: ErrorKind, _e: E) -> Error {
        Error { os: 0, kind }
    }
    pub fn other<E>(_e: E) -> Error {
        Error { os: 0, kind: ErrorKind::Other }
    }
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
    pub fn raw_os_error(&self) -> Option<i32> {
        if self.os == 0 {
            None
        } else {
            Some(self.os)
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("io error")
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("io error")
    }
}
impl ::std::error::Error for Error {}
impl From<ErrorKind> for Error {
    fn from(kind: ErrorKind) -> Error {
        Error { os: 0, kind }
    }
}
impl From<::std::ffi::NulError> for Error {
    fn from(_: ::std::ffi::NulError) -> Error {
        Error { os: 0, kind: ErrorKind::InvalidInput }
    }
}
impl From<::std::string::FromUtf8Error> for Error {
    fn from(_: ::std::string::FromUtf8Error) -> Error {
        Error { os: 0, kind: ErrorKind::InvalidData }
    }
}

pub trait Read {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize>;
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let mut pos = 0;
        while pos < buf.len() {
            match self.read(&mut buf[pos..]) {
                Ok(0) => return Err(Error::from(ErrorKind::UnexpectedEof)),
                Ok(n) => pos += n,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    fn read_to_end(&mut self, out: &mut Vec<u8>) -> Result<usize> {
        let mut total = 0;
        loop {
            let mut buf = [0u8; 16];
            match self.read(&mut buf) {
                Ok(0) => return Ok(total),
                Ok(n) => {
                    out.extend_from_slice(&buf[..n]);
                    total += n;
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
    }
    fn read_to_string(&mut self, out: &mut String) -> Result<usize> {
        let mut v = Vec::new();
        let n = self.read_to_end(&mut v)?;
        out.push_str(&String::from_utf8(v)?);
        Ok(n)
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
    fn take(self, limit: u64) -> Take<Self>
    where
        Self: Sized,
    {
        Take { r: self, left: limit }
    }
}
impl<R: Read + ?Sized> Read for &mut R {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        (**self).read(buf)
    }
}
pub struct Take<R> {
    r: R,
    left: u64,
}
impl<R: Read> Take<R> {
    pub fn into_inner(self) -> R {
        self.r
    }
}
impl<R: Read> Read for Take<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.left == 0 {
            return Ok(0);
        }
        let n = if (buf.len() as u64) < self.left { buf.len() } else { self.left as usize };
        let n = self.r.read(&mut buf[..n])?;
        self.left -= n as u64;
        Ok(n)
    }
}
impl Read for &[u8] {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = if buf.len() < self.len() { buf.len() } else { self.len() };
        let (a, b) = self.split_at(n);
        buf[..n].copy_from_slice(a);
        *self = b;
        Ok(n)
    }
}
pub trait Write {
    fn write(&mut self, buf: &[u8]) -> Result<usize>;
    fn flush(&mut self) -> Result<()>;
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        let mut pos = 0;
        while pos < buf.len() {
            match self.write(&buf[pos..]) {
                Ok(0) => return Err(Error::from(ErrorKind::WriteZero)),
                Ok(n) => pos += n,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    fn write_fmt(&mut self, args: fmt::Arguments<'_>) -> Result<()> {
        let s = crate::mc_format(args);
        self.write_all(s.as_bytes())
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
}
impl<W: Write + ?Sized> Write for &mut W {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        (**self).write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        (**self).flush()
    }
}
impl Write for Vec<u8> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
pub trait Seek {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64>;
    fn rewind(&mut self) -> Result<()> {
        self.seek(SeekFrom::Start(0))?;
        Ok(())
    }
    fn stream_position(&mut self) -> Result<u64> {
        self.seek(SeekFrom::Current(0))
    }
}
pub trait BufRead: Read {}
pub struct BufReader<R> {
    r: R,
}
impl<R: Read> BufReader<R> {
    pub fn new(r: R) -> Self {
        Self { r }
    }
    pub fn into_inner(self) -> R {
        self.r
    }
}
impl<R: Read> Read for BufReader<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.r.read(buf)
    }
}
impl<R: Read> BufRead for BufReader<R> {}
pub struct BufWriter<W> {
    w: W,
}
impl<W: Write> BufWriter<W> {
    pub fn new(w: W) -> Self {
        Self { w }
    }
}
impl<W: Write> Write for BufWriter<W> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.w.write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        self.w.flush()
    }
}
/// What was written to standard output.
pub static mut STDOUT: (Vec<u8>, u64) = (Vec::new(), 0x6d63_cc623a9b);
#[derive(Debug)]
pub struct Stdout;
#[derive(Debug)]
pub struct Stderr;
#[derive(Debug)]
pub struct Stdin;
pub type StdoutLock<'a> = Stdout;
pub type StdinLock<'a> = Stdin;
pub fn stdout() -> Stdout {
    Stdout
}
pub fn stderr() -> Stderr {
    Stderr
}
pub fn stdin() -> Stdin {
    Stdin
}
impl Stdout {
    pub fn lock(&self) -> Stdout {
        Stdout
    }
}
impl Stdin {
    pub fn lock(&self) -> Stdin {
        Stdin
    }
}
impl Write for Stdout {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        unsafe { (*::std::ptr::addr_of_mut!(STDOUT.0)).extend_from_slice(buf) };
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Write for Stderr {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Read for Stdin {
    fn read(&mut self, _buf: &mut [u8]) -> Result<usize> {
        Ok(0)
    }
}
impl BufRead for Stdin {}
