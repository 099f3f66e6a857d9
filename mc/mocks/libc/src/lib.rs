//! Stand-in for `libc`: the real types and constants, with the calls that act
//! on the system replaced by the kernel model in `mcenv`.
#![feature(unboxed_closures, fn_traits)]
#![allow(unused, non_camel_case_types, non_upper_case_globals, static_mut_refs)]

pub use real_libc::*;

use mcenv::kernel::{self, k, ExecRec};
use real_libc as r;

unsafe fn bytes(p: *const c_char) -> Vec<u8> {
    let n = match mcenv::cstr::find(p as *const u8) {
        Some(n) => n,
        None => {
            let mut n = 0usize;
            while *p.wrapping_add(n) != 0 {
                n += 1;
            }
            n
        }
    };
    let mut v = Vec::with_capacity(n);
    let mut i = 0usize;
    while i < n {
        v.push(*p.wrapping_add(i) as u8);
        i += 1;
    }
    v
}

unsafe fn strv(p: *const *const c_char) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut i = 0usize;
    loop {
        let s = *p.wrapping_add(i);
        if s.is_null() {
            break;
        }
        v.push(bytes(s));
        i += 1;
    }
    v
}

pub unsafe fn __errno_location() -> *mut c_int {
    std::ptr::addr_of_mut!(k().errno)
}

pub unsafe fn close(fd: c_int) -> c_int {
    k().close(fd)
}
pub unsafe fn dup(fd: c_int) -> c_int {
    k().dupfd(fd, 0, false)
}
pub unsafe fn dup2(fd: c_int, fd2: c_int) -> c_int {
    k().dup2(fd, fd2, false)
}
pub unsafe fn dup3(fd: c_int, fd2: c_int, flags: c_int) -> c_int {
    if fd == fd2 {
        return k().err(kernel::EINVAL);
    }
    k().dup2(fd, fd2, flags & r::O_CLOEXEC != 0)
}
pub unsafe fn pipe(fds: *mut c_int) -> c_int {
    pipe2(fds, 0)
}
pub unsafe fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    let (rd, wr) = k().pipe(flags & r::O_CLOEXEC != 0);
    if rd < 0 {
        return -1;
    }
    *fds = rd;
    *fds.add(1) = wr;
    0
}
pub unsafe fn mkstemp(template: *mut c_char) -> c_int {
    mkostemp(template, 0)
}
pub unsafe fn mkostemp(template: *mut c_char, flags: c_int) -> c_int {
    let fd = k().tmp(flags & r::O_CLOEXEC != 0);
    if fd >= 0 {
        // Fill in the last character only; names are distinct for the few
        // files a harness makes.
        let mut n = 0usize;
        while *template.add(n) != 0 {
            n += 1;
        }
        *template.add(n - 1) = (b'a' + (k().tmps.len() - 1) as u8) as c_char;
    }
    fd
}
pub unsafe fn memfd_create(_name: *const c_char, flags: c_uint) -> c_int {
    let fd = k().tmp(flags & r::MFD_CLOEXEC != 0);
    if fd >= 0 {
        let n = k().tmps.len() - 1;
        k().tmps[n].unlinked = true;
    }
    fd
}
pub unsafe fn unlink(_path: *const c_char) -> c_int {
    let n = k().tmps.len();
    if n > 0 {
        k().tmps[n - 1].unlinked = true;
    }
    k().unlinks += 1;
    0
}
pub unsafe fn creat(path: *const c_char, mode: c_int) -> c_int {
    k().open(bytes(path), r::O_WRONLY | r::O_CREAT | r::O_TRUNC, mode)
}

pub unsafe fn fcntl2(fd: c_int, cmd: c_int, arg: c_int) -> c_int {
    let k = k();
    match cmd {
        r::F_DUPFD => return k.dupfd(fd, arg, false),
        r::F_DUPFD_CLOEXEC => return k.dupfd(fd, arg, true),
        _ => {}
    }
    if k.fault() {
        return -1;
    }
    if !k.valid(fd) {
        return k.err(kernel::EBADF);
    }
    match cmd {
        r::F_GETFD => {
            if k.fds[fd as usize].cloexec {
                r::FD_CLOEXEC
            } else {
                0
            }
        }
        r::F_SETFD => {
            k.fds[fd as usize].cloexec = arg & r::FD_CLOEXEC != 0;
            0
        }
        r::F_GETFL => match k.fds[fd as usize].kind {
            kernel::K_PIPE_W => r::O_WRONLY,
            kernel::K_PIPE_R => r::O_RDONLY,
            _ => r::O_RDWR,
        },
        r::F_SETFL => 0,
        _ => k.err(kernel::EINVAL),
    }
}


/// Defines a C variadic function, callable with each of the listed argument
/// lists, as a constant whose type implements the call operators.
macro_rules! variadic {
    ($name:ident, $ty:ident, $( ($($a:ident : $at:ty),*) => $body:expr ; )* ) => {
        #[derive(Clone, Copy)]
        pub struct $ty;
        pub const $name: $ty = $ty;
        $(
            impl FnOnce<($($at,)*)> for $ty {
                type Output = c_int;
                #[inline(always)]
                extern "rust-call" fn call_once(self, ($($a,)*): ($($at,)*)) -> c_int {
                    #[allow(unused_unsafe)]
                    unsafe { $body }
                }
            }
            impl FnMut<($($at,)*)> for $ty {
                #[inline(always)]
                extern "rust-call" fn call_mut(&mut self, ($($a,)*): ($($at,)*)) -> c_int {
                    #[allow(unused_unsafe)]
                    unsafe { $body }
                }
            }
            impl Fn<($($at,)*)> for $ty {
                #[inline(always)]
                extern "rust-call" fn call(&self, ($($a,)*): ($($at,)*)) -> c_int {
                    #[allow(unused_unsafe)]
                    unsafe { $body }
                }
            }
        )*
    };
}

variadic!(fcntl, FcntlFn,
    (fd: c_int, cmd: c_int) => fcntl2(fd, cmd, 0);
    (fd: c_int, cmd: c_int, arg: c_int) => fcntl2(fd, cmd, arg);
);
variadic!(open, OpenFn,
    (path: *const c_char, oflag: c_int) => k().open(bytes(path), oflag, 0);
    (path: *const c_char, oflag: c_int, mode: c_int) => k().open(bytes(path), oflag, mode);
    (path: *const c_char, oflag: c_int, mode: c_uint) => k().open(bytes(path), oflag, mode as c_int);
);
variadic!(open64, Open64Fn,
    (path: *const c_char, oflag: c_int) => k().open(bytes(path), oflag, 0);
    (path: *const c_char, oflag: c_int, mode: c_int) => k().open(bytes(path), oflag, mode);
    (path: *const c_char, oflag: c_int, mode: c_uint) => k().open(bytes(path), oflag, mode as c_int);
);

pub unsafe fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let k = k();
    if k.fault() {
        return -1;
    }
    match k.data(fd) {
        None => k.err(kernel::EBADF) as ssize_t,
        Some(d) => {
            let avail = if d.off < d.bytes.len() { d.bytes.len() - d.off } else { 0 };
            let n = if n < avail { n } else { avail };
            let mut i = 0;
            while i < n {
                *(buf as *mut u8).wrapping_add(i) = d.bytes[d.off + i];
                i += 1;
            }
            d.off += n;
            if n > 0 {
                d.seeks += 1;
            }
            n as ssize_t
        }
    }
}
pub unsafe fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    let k = k();
    if k.fault() {
        return -1;
    }
    if off < 0 {
        return k.err(kernel::EINVAL) as ssize_t;
    }
    match k.data(fd) {
        None => k.err(kernel::EBADF) as ssize_t,
        Some(d) => {
            let off = off as usize;
            let avail = if off < d.bytes.len() { d.bytes.len() - off } else { 0 };
            let n = if n < avail { n } else { avail };
            let mut i = 0;
            while i < n {
                *(buf as *mut u8).wrapping_add(i) = d.bytes[off + i];
                i += 1;
            }
            n as ssize_t
        }
    }
}
pub unsafe fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    pread(fd, buf, n, off)
}
pub unsafe fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let k = k();
    if k.fault_writes && k.fault() {
        return -1;
    }
    if k.in_child && k.child_silent {
        panic!("the child reports an error");
    }
    let max = k.write_max;
    match k.data(fd) {
        None => k.err(kernel::EBADF) as ssize_t,
        Some(d) => {
            let n = if max > 0 && n > max { max } else { n };
            d.bytes.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, n));
            n as ssize_t
        }
    }
}
pub unsafe fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    let k = k();
    if k.fault() {
        return -1;
    }
    match k.data(fd) {
        None => k.err(kernel::EBADF) as off_t,
        Some(d) => {
            let base = match whence {
                r::SEEK_SET => 0,
                r::SEEK_CUR => d.off as i64,
                _ => d.bytes.len() as i64,
            };
            let p = match base.checked_add(off) {
                Some(p) if p >= 0 => p,
                _ => return { mcenv::kernel::k().err(kernel::EINVAL) as off_t },
            };
            if p as usize != d.off {
                d.seeks += 1;
            }
            d.off = p as usize;
            p
        }
    }
}
pub unsafe fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek(fd, off, whence)
}
pub unsafe fn fstat(fd: c_int, st: *mut stat) -> c_int {
    let k = k();
    if k.fault() {
        return -1;
    }
    match k.data(fd) {
        None => k.err(kernel::EBADF),
        Some(d) => {
            let len = d.bytes.len();
            std::ptr::write_bytes(st, 0, 1);
            (*st).st_size = len as off_t;
            0
        }
    }
}

pub unsafe fn fork() -> pid_t {
    k().fork()
}
pub unsafe fn vfork() -> pid_t {
    k().fork()
}
pub unsafe fn execve(
    exe: *const c_char,
    argv: *const *const c_char,
    env: *const *const c_char,
) -> c_int {
    let rec = ExecRec { exe: bytes(exe), argv: strv(argv), env: strv(env) };
    k().exec(rec)
}
pub unsafe fn execv(exe: *const c_char, argv: *const *const c_char) -> c_int {
    let rec = ExecRec { exe: bytes(exe), argv: strv(argv), env: Vec::new() };
    k().exec(rec)
}
pub unsafe fn execvp(exe: *const c_char, argv: *const *const c_char) -> c_int {
    execv(exe, argv)
}
pub unsafe fn execvpe(
    exe: *const c_char,
    argv: *const *const c_char,
    env: *const *const c_char,
) -> c_int {
    execve(exe, argv, env)
}
pub unsafe fn _exit(code: c_int) -> ! {
    k().exit(code)
}
pub unsafe fn exit(code: c_int) -> ! {
    k().exit(code)
}
pub unsafe fn abort() -> ! {
    k().exit(134)
}
pub unsafe fn setsid() -> pid_t {
    if k().fault() {
        return -1;
    }
    k().setsid_done = true;
    k().next_pid
}
pub unsafe fn setpgid(_p: pid_t, _g: pid_t) -> c_int {
    0
}
pub unsafe fn kill(pid: pid_t, sig: c_int) -> c_int {
    let k = k();
    match k.on_kill {
        Some(f) => {
            let e = f(pid, sig);
            if e != 0 {
                return k.err(e);
            }
        }
        None => k.kills.push((pid, sig)),
    }
    0
}
pub unsafe fn killpg(pgrp: pid_t, sig: c_int) -> c_int {
    kill(-pgrp, sig)
}
pub unsafe fn wait4(pid: pid_t, status: *mut c_int, options: c_int, ru: *mut rusage) -> pid_t {
    let k = k();
    k.wait_calls += 1;
    let (res, st) = match k.on_wait {
        Some(f) => f(pid, options),
        None => (-kernel::ECHILD, 0),
    };
    if res < 0 {
        return k.err(-res);
    }
    if res > 0 {
        if !status.is_null() {
            *status = st;
        }
        if !ru.is_null() {
            std::ptr::write_bytes(ru, 0, 1);
        }
    }
    res
}
pub unsafe fn waitpid(pid: pid_t, status: *mut c_int, options: c_int) -> pid_t {
    wait4(pid, status, options, std::ptr::null_mut())
}

pub unsafe fn getpid() -> pid_t {
    42
}
pub unsafe fn getppid() -> pid_t {
    41
}
pub unsafe fn getuid() -> uid_t {
    1000
}
pub unsafe fn geteuid() -> uid_t {
    1000
}
pub unsafe fn getgid() -> gid_t {
    1000
}
pub unsafe fn getegid() -> gid_t {
    1000
}
pub unsafe fn getpwuid(_uid: uid_t) -> *mut passwd {
    std::ptr::null_mut()
}
pub unsafe fn getgrgid(_gid: gid_t) -> *mut group {
    std::ptr::null_mut()
}
pub unsafe fn gethostname(buf: *mut c_char, n: size_t) -> c_int {
    if n > 0 {
        *buf = b'h' as c_char;
    }
    if n > 1 {
        *buf.add(1) = 0;
    }
    0
}
pub unsafe fn sysconf(name: c_int) -> c_long {
    match name {
        r::_SC_CLK_TCK => 100,
        r::_SC_PAGESIZE => 4096,
        _ => -1,
    }
}
