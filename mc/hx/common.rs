//! Shared by the harnesses of all properties.
pub use crate::*;
pub use mcenv::kernel::{self, k, ExecRec, Kernel, FD_NONE, K_FILE, K_INHERIT, K_NONE, K_PIPE_R, K_PIPE_W, K_TMP, NFD};
pub use mcenv::nd;
pub use mcenv::rt;
pub use std::collections::BTreeMap;

/// harness!(name, tier (q quick / t thorough only), unwind bound, number of
/// witnesses it has to reach, "bounds in words", { body });
#[macro_export]
macro_rules! harness {
    ($n:ident, $t:ident, $u:expr, $w:expr, $b:expr, $body:block) => {
        pub fn $n() $body
    };
}
/// A point that some execution within the bounds must reach.
#[macro_export]
macro_rules! reach {
    ($m:expr) => {
        #[cfg(kani)]
        kani::cover!(true, $m);
    };
}

pub fn st(s: &str) -> String {
    String::from(s)
}
pub fn strs(a: &[&str]) -> Vec<String> {
    let mut v = Vec::with_capacity(a.len());
    let mut i = 0;
    while i < a.len() {
        v.push(String::from(a[i]));
        i += 1;
    }
    v
}
/// A symbolic ASCII character other than NUL.
pub fn ch() -> u8 {
    let b = nd::u8();
    nd::assume(b != 0 && b < 128);
    b
}
pub fn from_bytes(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// A symbolic ASCII string of `n` characters.
pub fn sym(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(ch());
        i += 1;
    }
    from_bytes(v)
}
pub fn proc_spec(argv: Vec<String>) -> spec::Proc {
    let mut p = spec::Proc::default();
    p.argv = argv;
    p.env.inherit = spec::EnvInherit::None;
    p
}
/// One quick process named "a" running "/x".
pub fn one(p: spec::Proc) -> spec::Procs {
    let mut s = spec::Procs::new();
    s.insert(st("a"), p);
    s
}
pub fn two(p: spec::Proc, q: spec::Proc) -> spec::Procs {
    let mut s = one(p);
    s.insert(st("b"), q);
    s
}
/// Whether two byte strings are equal, without an early exit.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    let mut i = 0;
    while i < a.len() {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}
/// The bytes the followed child wrote to the pipe with this id.
pub fn pipe_bytes(id: usize) -> &'static [u8] {
    &k().pipes[id].bytes
}
/// Boots the kernel model; message texts are replaced by a fixed one.
pub fn boot() {
    unsafe { std::STUB_FORMAT.0 = true };
    k().boot(1);
}
/// Cuts the path: what follows is outside the harness.
pub fn done() -> ! {
    mcenv::end_path()
}
/// Forgets everything and boots again.
pub fn reboot() {
    let k = k();
    k.fds = [FD_NONE; NFD];
    k.pipes = Vec::new();
    k.tmps = Vec::new();
    k.opens = Vec::new();
    k.follow_child = -1;
    k.forks = 0;
    k.in_child = false;
    k.next_pid = 100;
    k.setsid_done = false;
    std::mem::forget(std::mem::replace(rt::tasks(), Vec::new()));
    k.boot(1);
}
/// Puts into every pipe and temporary file a text that tells which it is; it
/// also reads as a message of an error pipe.
pub fn mark() {
    let k = k();
    let mut i = 0;
    while i < k.pipes.len() {
        k.pipes[i].bytes = std::vec::Vec::from([1, 0, b'A' + i as u8]);
        i += 1;
    }
    i = 0;
    while i < k.tmps.len() {
        k.tmps[i].bytes = std::vec::Vec::from([1, 0, b'a' + i as u8]);
        i += 1;
    }
}
/// After `mark`: the pipe or temporary file that the capture of `fd` reads.
pub fn captured(procs: &procs::SharedProcs, id: &str, fd: i32) -> (u8, u8) {
    let p = procs.get(id).unwrap();
    let p = p.borrow();
    match p.get_fd_data(fd, 0, None) {
        Ok(Some(d)) => {
            assert!(d.data.len() == 3, "captured data is missing or has extra bytes");
            let c = d.data[2];
            if c >= b'a' { (K_TMP, c - b'a') } else { (K_PIPE_W, c - b'A') }
        }
        _ => panic!("no captured data"),
    }
}
/// The record of a process with this pid, as it is right after the start.
pub fn record(pid: i32) -> std::rc::Rc<std::cell::RefCell<procs::Proc>> {
    let p = procs::Proc::new(pid, chrono::Utc::now(), std::time::Instant::now(), Vec::new());
    std::rc::Rc::new(std::cell::RefCell::new(p))
}
/// What `wait` gives for a process that ended.
pub fn ended(pid: i32, status: i32) -> sys::WaitInfo {
    (pid, status, unsafe { std::mem::zeroed() })
}
/// The states a process record can be in.
#[derive(Clone, Copy, PartialEq)]
pub enum Rec {
    Running,
    Ended,
    /// Failed to start, and not yet reaped.
    Failed,
    FailedEnded,
}
pub fn record_in(pid: i32, s: Rec) -> std::rc::Rc<std::cell::RefCell<procs::Proc>> {
    let r = record(pid);
    {
        let mut p = r.borrow_mut();
        if s == Rec::Ended || s == Rec::FailedEnded {
            p.wait_info = Some(ended(pid, 0));
        }
        if s == Rec::Failed || s == Rec::FailedEnded {
            p.errors.push(st("e"));
        }
    }
    r
}
/// What has been announced to a subscriber and not yet fetched: one line per
/// notification.
#[derive(Clone, PartialEq)]
pub struct Noti {
    /// S started, N not running, D deleted, 0-2 shutdown states.
    pub kind: u8,
    pub id: Vec<u8>,
}
pub fn announced(sub: &mut procs::NotificationSub) -> Option<Noti> {
    let mut fut = std::pin::pin!(sub.recv());
    match rt::poll_once(fut.as_mut()) {
        std::task::Poll::Pending => None,
        std::task::Poll::Ready(None) => panic!("the notifications have ended"),
        std::task::Poll::Ready(Some(n)) => Some(match n {
            procs::Notification::Start(i) => Noti { kind: b'S', id: i.into_bytes() },
            procs::Notification::NotRunning(i) => Noti { kind: b'N', id: i.into_bytes() },
            procs::Notification::Delete(i) => Noti { kind: b'D', id: i.into_bytes() },
            procs::Notification::ShutDown(s) => Noti { kind: stage(&s), id: Vec::new() },
        }),
    }
}
pub fn stage(s: &shutdown::State) -> u8 {
    match s {
        shutdown::State::Active => b'0',
        shutdown::State::Idling => b'1',
        shutdown::State::Done => b'2',
    }
}
/// The next announcement is this one.
pub fn expect(sub: &mut procs::NotificationSub, kind: u8, id: &str) {
    match announced(sub) {
        None => panic!("an announcement is missing"),
        Some(n) => {
            assert!(n.kind == kind, "another kind of announcement");
            assert!(same(&n.id, id.as_bytes()), "an announcement for another process");
        }
    }
}
pub fn expect_none(sub: &mut procs::NotificationSub) {
    assert!(announced(sub).is_none(), "an announcement of nothing");
}
/// Any one of the cases 0 to n-1; the number is concrete on each path.
pub fn cases<F: Fn(u8)>(n: u8, f: F) -> ! {
    let c = nd::u8();
    let mut i = 0;
    while i < n {
        if c == i {
            f(i);
            done();
        }
        i += 1;
    }
    done()
}

/// A start request gone through once for each of its processes, up to the execution of its
/// program, and once for procstar itself; all from the same state at the beginning.
pub struct Passes {
    pub specs: Option<spec::Procs>,
    /// procstar's own descriptors to begin with.
    pub own: [kernel::Fd; NFD],
    pub ids: Vec<String>,
    pub next: usize,
    /// What each program starts with.
    pub fds: [[kernel::Fd; NFD]; 3],
    pub opens: Vec<Vec<kernel::OpenRec>>,
    /// Looks at procstar right after it has started the processes.
    pub started: Option<fn(&Passes)>,
    /// Checks everything in the end.
    pub check: Option<fn(&Passes, &procs::SharedProcs)>,
}
pub static mut PASSES: (Passes, u64) = (
    Passes { specs: None, own: [FD_NONE; NFD], ids: Vec::new(), next: 0, fds: [[FD_NONE; NFD]; 3], opens: Vec::new(), started: None, check: None },
    0x6d63_91ab3c07,
);
pub fn passes() -> &'static mut Passes {
    unsafe { &mut PASSES.0 }
}
/// `own`: descriptors procstar is started with besides (or, if closed, among) the standard ones.
pub fn start_in_passes(specs: spec::Procs, own: &[(usize, bool)], started: fn(&Passes), check: fn(&Passes, &procs::SharedProcs)) -> ! {
    boot();
    let p = passes();
    p.own = k().fds;
    let mut i = 0;
    while i < own.len() {
        let (fd, open) = own[i];
        p.own[fd] = if open { kernel::Fd { kind: K_INHERIT, id: fd as u8, cloexec: false } } else { FD_NONE };
        i += 1;
    }
    p.ids = specs.keys().cloned().collect();
    p.specs = Some(specs);
    p.next = 0;
    p.started = Some(started);
    p.check = Some(check);
    pass()
}
fn pass() -> ! {
    let p = passes();
    reboot();
    k().fds = p.own;
    let procs = procs::SharedProcs::new();
    let specs = p.specs.as_ref().unwrap().clone();
    if p.next < p.ids.len() {
        p.next += 1;
        k().follow_child = p.next as i32;
        k().on_exec = Some(|k, _| {
            let p = passes();
            p.fds[p.next - 1] = k.fds;
            p.opens.push(k.opens.clone());
            pass()
        });
        k().on_child_exit = Some(|_, _| panic!("the program is not executed"));
        _ = procs::start_procs(specs, &procs);
        panic!("not all processes are started")
    } else {
        assert!(procs::start_procs(specs, &procs).is_ok(), "the request is refused");
        assert!(k().forks == p.ids.len() as i32, "another number of processes");
        (p.started.unwrap())(p);
        mark();
        rt::run_rounds(3);
        (p.check.unwrap())(p, &procs);
        done()
    }
}
/// The pipes that procstar doesn't read from: after `start_in_passes`, those between processes.
pub fn unread(id: u8) -> bool {
    k().pipes[id as usize].off == 0
}
pub fn fds(mut p: spec::Proc, f: &[(&str, spec::Fd)]) -> spec::Proc {
    let mut v = Vec::with_capacity(f.len());
    let mut i = 0;
    while i < f.len() {
        v.push((st(f[i].0), f[i].1.clone()));
        i += 1;
    }
    p.fds = v;
    p
}
pub fn memory() -> spec::Fd {
    spec::Fd::Capture { mode: spec::CaptureMode::Memory, encoding: None, attached: true }
}
pub fn tempfile() -> spec::Fd {
    spec::Fd::Capture { mode: spec::CaptureMode::TempFile, encoding: None, attached: true }
}
pub fn null() -> spec::Fd {
    spec::Fd::Null { flags: spec::OpenFlag::Default }
}
pub fn file(path: &str) -> spec::Fd {
    spec::Fd::File { path: st(path), flags: spec::OpenFlag::ReadWrite, mode: 0o600 }
}
pub fn dup(fd: i32) -> spec::Fd {
    spec::Fd::Dup { fd }
}
pub fn reader(id: &str, fd: &str) -> spec::Fd {
    spec::Fd::PipeRead { proc_id: st(id), fd: st(fd) }
}
/// Compares the descriptors each program starts with to what its spec says.
pub fn check_tables(p: &Passes, procs: &procs::SharedProcs) {
    let specs = p.specs.as_ref().unwrap();
    let mut n = 0;
    while n < p.ids.len() {
        let id = &p.ids[n];
        let spec = specs.get(id).unwrap();
        let is = &p.fds[n];
        let mut want = p.own;
        // Paths of the files opened, by descriptor.
        let mut paths: [Option<&[u8]>; NFD] = [None; NFD];
        let mut i = 0;
        while i < NFD {
            if want[i].cloexec {
                want[i] = FD_NONE;
            }
            i += 1;
        }
        i = 0;
        while i < spec.fds.len() {
            let (name, s) = &spec.fds[i];
            let fd = spec::parse_fd(name).unwrap() as usize;
            let some = |kind, id| kernel::Fd { kind, id, cloexec: false };
            let mut path = None;
            match s {
                spec::Fd::Inherit => path = paths[fd],
                spec::Fd::Close => want[fd] = FD_NONE,
                spec::Fd::Null { .. } => {
                    want[fd] = some(K_FILE, 0);
                    path = Some("/dev/null".as_bytes());
                }
                spec::Fd::File { path: f, .. } => {
                    want[fd] = some(K_FILE, 0);
                    path = Some(f.as_bytes());
                }
                spec::Fd::Dup { fd: from } => {
                    want[fd] = want[*from as usize];
                    path = paths[*from as usize];
                }
                spec::Fd::Capture { .. } => {
                    let (kind, c) = captured(procs, id, fd as i32);
                    want[fd] = some(kind, c);
                }
                // Which pipe is checked with the processes of both ends.
                spec::Fd::PipeWrite => want[fd] = some(K_PIPE_W, is[fd].id),
                spec::Fd::PipeRead { .. } => want[fd] = some(K_PIPE_R, is[fd].id),
            }
            paths[fd] = path;
            i += 1;
        }
        i = 0;
        while i < NFD {
            assert!(is[i].kind != K_NONE || want[i].kind == K_NONE, "a descriptor isn't open in the program");
            assert!(want[i].kind != K_NONE || is[i].kind == K_NONE, "a descriptor is open in the program that shouldn't be");
            assert!(is[i].kind == want[i].kind, "a descriptor is connected to something else");
            if want[i].kind == K_FILE {
                assert!(same(&p.opens[n][is[i].id as usize].path, paths[i].unwrap()), "a descriptor is connected to another file");
            } else if want[i].kind != K_NONE {
                assert!(is[i].id == want[i].id, "a descriptor is connected to something else of its kind");
            }
            i += 1;
        }
        n += 1;
    }
}
