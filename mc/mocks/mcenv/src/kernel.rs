//! A small POSIX kernel: descriptor table, pipes, files, fork/exec/wait/kill.
//!
//! Only what procstar's process management relies on; the documented contract
//! of each call, with failures injected where a harness asks for them.

use crate::nd;

pub const NFD: usize = 24;
pub const NOBJ: usize = 24;

// Object kinds.
pub const K_NONE: u8 = 0;
/// Inherited at startup; id is the original descriptor number.
pub const K_INHERIT: u8 = 1;
pub const K_PIPE_R: u8 = 2;
pub const K_PIPE_W: u8 = 3;
/// Unlinked temporary file.
pub const K_TMP: u8 = 4;
/// Opened file; id indexes `opens`.
pub const K_FILE: u8 = 5;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fd {
    pub kind: u8,
    pub id: u8,
    pub cloexec: bool,
}

pub const FD_NONE: Fd = Fd { kind: K_NONE, id: 0, cloexec: false };

/// A pipe or the contents of a file.
#[derive(Clone, Debug)]
pub struct Data {
    pub bytes: Vec<u8>,
    /// Shared file offset, or read position of a pipe.
    pub off: usize,
    /// A temp file's offset as seen by anyone sharing the description.
    pub unlinked: bool,
    /// Number of times the offset was moved through this description by us.
    pub seeks: u32,
}

#[derive(Clone, Debug)]
pub struct OpenRec {
    pub path: Vec<u8>,
    pub oflag: i32,
    pub mode: i32,
    /// Directory entry existed before the call.
    pub existed: bool,
}

#[derive(Clone, Debug)]
pub struct ExecRec {
    pub exe: Vec<u8>,
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
}

pub struct Kernel {
    pub fds: [Fd; NFD],
    pub pipes: Vec<Data>,
    pub tmps: Vec<Data>,
    pub opens: Vec<OpenRec>,
    pub errno: i32,

    /// Which fork's child to follow; forks other than this return in the parent.
    pub follow_child: i32,
    pub forks: i32,
    pub in_child: bool,
    pub next_pid: i32,
    pub setsid_done: bool,

    /// Called at a successful execve, before the path ends.
    pub on_exec: Option<fn(&Kernel, &ExecRec)>,
    /// Called when a child exits without having exec'ed.
    pub on_child_exit: Option<fn(&Kernel, i32)>,
    /// Called when the main process calls exit.
    pub on_exit: Option<fn(&Kernel, i32)>,
    /// Called at fork in the parent, before returning; gets the fork number.
    pub on_fork: Option<fn(&Kernel, i32)>,

    /// Whether execve fails, and with what.
    pub exec_errno: i32,

    /// Fault injection: the call number that fails, counted over fallible
    /// calls; 0 for none.
    pub fault_at: u32,
    pub fault_errno: i32,
    pub calls: u32,
    pub faults_hit: u32,
    /// Count faults only in this context: 0 both, 1 parent only, 2 child only.
    pub fault_where: u8,
    /// Whether writes are among the fallible calls.
    pub fault_writes: bool,

    /// Signals sent: (pid, signum).
    pub kills: Vec<(i32, i32)>,
    /// Called at kill; gives the result (0 or errno).
    pub on_kill: Option<fn(i32, i32) -> i32>,
    /// wait4 script: gives (result, status).
    pub on_wait: Option<fn(i32, i32) -> (i32, i32)>,
    pub wait_calls: u32,
    /// Reads from a pipe in the parent: gives the number of bytes read.
    pub bad_close: u32,
    pub double_close: u32,
    pub unlinks: u32,
    /// Largest chunk a write accepts (short writes), 0 for all.
    pub write_max: usize,
    /// The followed child is not supposed to report an error: says so and ends the path.
    pub child_silent: bool,
}

pub static mut K: Kernel = Kernel {
    fds: [FD_NONE; NFD],
    pipes: Vec::new(),
    tmps: Vec::new(),
    opens: Vec::new(),
    errno: 0,
    follow_child: -1,
    forks: 0,
    in_child: false,
    next_pid: 100,
    setsid_done: false,
    on_exec: None,
    on_child_exit: None,
    on_exit: None,
    on_fork: None,
    exec_errno: 0,
    fault_at: 0,
    fault_errno: 24,
    calls: 0,
    faults_hit: 0,
    fault_where: 0,
    fault_writes: false,
    kills: Vec::new(),
    on_kill: None,
    on_wait: None,
    wait_calls: 0,
    bad_close: 0,
    double_close: 0,
    unlinks: 0,
    write_max: 0,
    child_silent: false,
};

pub fn k() -> &'static mut Kernel {
    unsafe { &mut *std::ptr::addr_of_mut!(K) }
}

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const ESRCH: i32 = 3;
pub const EINTR: i32 = 4;
pub const EBADF: i32 = 9;
pub const ECHILD: i32 = 10;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;

impl Kernel {
    /// Opens stdin/stdout/stderr and `extra` close-on-exec descriptors, the
    /// ones the runtime itself holds.
    pub fn boot(&mut self, extra: usize) {
        let mut i = 0;
        while i < 3 {
            self.fds[i] = Fd { kind: K_INHERIT, id: i as u8, cloexec: false };
            i += 1;
        }
        while i < 3 + extra {
            self.fds[i] = Fd { kind: K_INHERIT, id: i as u8, cloexec: true };
            i += 1;
        }
    }

    pub fn err(&mut self, e: i32) -> i32 {
        self.errno = e;
        -1
    }

    /// Whether this call is the one chosen to fail.
    pub fn fault(&mut self) -> bool {
        if self.fault_at == 0 {
            return false;
        }
        if self.fault_where == 1 && self.in_child || self.fault_where == 2 && !self.in_child {
            return false;
        }
        self.calls += 1;
        if self.calls == self.fault_at {
            self.faults_hit += 1;
            self.errno = self.fault_errno;
            true
        } else {
            false
        }
    }

    pub fn valid(&self, fd: i32) -> bool {
        fd >= 0 && (fd as usize) < NFD && self.fds[fd as usize].kind != K_NONE
    }

    pub fn lowest(&self, from: usize) -> i32 {
        let mut i = from;
        while i < NFD {
            if self.fds[i].kind == K_NONE {
                return i as i32;
            }
            i += 1;
        }
        -1
    }

    pub fn alloc(&mut self, from: usize, kind: u8, id: u8, cloexec: bool) -> i32 {
        let fd = self.lowest(from);
        if fd < 0 {
            return self.err(EMFILE);
        }
        self.fds[fd as usize] = Fd { kind, id, cloexec };
        fd
    }

    pub fn close(&mut self, fd: i32) -> i32 {
        if !self.valid(fd) {
            self.bad_close += 1;
            return self.err(EBADF);
        }
        self.fds[fd as usize] = FD_NONE;
        0
    }

    pub fn dup2(&mut self, fd: i32, fd2: i32, cloexec: bool) -> i32 {
        if self.fault() {
            return -1;
        }
        if !self.valid(fd) {
            return self.err(EBADF);
        }
        if fd2 < 0 || fd2 as usize >= NFD {
            return self.err(EBADF);
        }
        if fd == fd2 {
            return fd2;
        }
        let mut e = self.fds[fd as usize];
        e.cloexec = cloexec;
        self.fds[fd2 as usize] = e;
        fd2
    }

    pub fn dupfd(&mut self, fd: i32, from: i32, cloexec: bool) -> i32 {
        if self.fault() {
            return -1;
        }
        if !self.valid(fd) {
            return self.err(EBADF);
        }
        if from < 0 {
            return self.err(EINVAL);
        }
        let e = self.fds[fd as usize];
        self.alloc(from as usize, e.kind, e.id, cloexec)
    }

    pub fn new_pipe(&mut self) -> u8 {
        self.pipes.push(Data { bytes: Vec::new(), off: 0, unlinked: false, seeks: 0 });
        (self.pipes.len() - 1) as u8
    }

    pub fn pipe(&mut self, cloexec: bool) -> (i32, i32) {
        if self.fault() {
            return (-1, -1);
        }
        let id = self.new_pipe();
        let r = self.alloc(0, K_PIPE_R, id, cloexec);
        if r < 0 {
            return (-1, -1);
        }
        let w = self.alloc(0, K_PIPE_W, id, cloexec);
        if w < 0 {
            self.fds[r as usize] = FD_NONE;
            return (-1, -1);
        }
        (r, w)
    }

    pub fn tmp(&mut self, cloexec: bool) -> i32 {
        if self.fault() {
            return -1;
        }
        self.tmps.push(Data { bytes: Vec::new(), off: 0, unlinked: false, seeks: 0 });
        let id = (self.tmps.len() - 1) as u8;
        self.alloc(0, K_TMP, id, cloexec)
    }

    pub fn open(&mut self, path: Vec<u8>, oflag: i32, mode: i32) -> i32 {
        if self.fault() {
            return -1;
        }
        self.opens.push(OpenRec { path, oflag, mode, existed: false });
        let id = (self.opens.len() - 1) as u8;
        self.alloc(0, K_FILE, id, oflag & 0o2000000 != 0)
    }

    pub fn fork(&mut self) -> i32 {
        if self.fault() {
            return -1;
        }
        self.forks += 1;
        if self.follow_child == self.forks {
            self.in_child = true;
            return 0;
        }
        let pid = self.next_pid;
        self.next_pid += 1;
        if let Some(f) = self.on_fork {
            f(self, self.forks);
        }
        pid
    }

    pub fn exec(&mut self, rec: ExecRec) -> i32 {
        if self.exec_errno != 0 {
            self.errno = self.exec_errno;
            return -1;
        }
        let mut i = 0;
        while i < NFD {
            if self.fds[i].cloexec {
                self.fds[i] = FD_NONE;
            }
            i += 1;
        }
        if let Some(f) = self.on_exec {
            f(self, &rec);
        }
        crate::end_path()
    }

    pub fn exit(&mut self, code: i32) -> ! {
        if self.in_child {
            if let Some(f) = self.on_child_exit {
                f(self, code);
            }
        } else if let Some(f) = self.on_exit {
            f(self, code);
        }
        crate::end_path()
    }

    pub fn data(&mut self, fd: i32) -> Option<&mut Data> {
        if !self.valid(fd) {
            return None;
        }
        let e = self.fds[fd as usize];
        match e.kind {
            K_PIPE_R | K_PIPE_W => Some(&mut self.pipes[e.id as usize]),
            K_TMP => Some(&mut self.tmps[e.id as usize]),
            _ => None,
        }
    }

    /// Whether any descriptor in the table is the write end of pipe `id`.
    pub fn has_write_end(&self, id: u8) -> bool {
        let mut i = 0;
        while i < NFD {
            if self.fds[i].kind == K_PIPE_W && self.fds[i].id == id {
                return true;
            }
            i += 1;
        }
        false
    }

    pub fn count_open(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < NFD {
            if self.fds[i].kind != K_NONE {
                n += 1;
            }
            i += 1;
        }
        n
    }
}
