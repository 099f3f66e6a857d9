//! C22: files are opened in the child exactly as the spec's flags say.
//% outside: paths longer than 3 bytes; more than one file per process; umask and what the file system does
//% assume: no NUL bytes (see C04)
use super::common::*;
use spec::OpenFlag::*;

struct Want {
    fd: i32,
    path: String,
    flag: spec::OpenFlag,
    mode: i32,
    check_mode: bool,
}
static mut W: (Option<Want>, u64) = (None, 0x6d63_22aa0001);

/// Access mode and creation flags, from the documentation of each flag.
fn wanted(f: spec::OpenFlag, fd: i32) -> i32 {
    const RDONLY: i32 = 0;
    const WRONLY: i32 = 1;
    const RDWR: i32 = 2;
    const CREAT: i32 = 0o100;
    const EXCL: i32 = 0o200;
    const TRUNC: i32 = 0o1000;
    const APPEND: i32 = 0o2000;
    match f {
        Default if fd == 0 => RDONLY,
        Default if fd == 1 || fd == 2 => WRONLY | CREAT | TRUNC,
        Default => RDWR | CREAT | TRUNC,
        Read => RDONLY,
        Write => WRONLY | CREAT | TRUNC,
        Create => WRONLY | CREAT | EXCL,
        Replace => WRONLY | TRUNC,
        CreateAppend => WRONLY | CREAT | APPEND,
        Append => WRONLY | APPEND,
        ReadWrite => RDWR | CREAT | TRUNC,
    }
}
fn go(name: &str, fd: i32, f: spec::Fd, path: String, flag: spec::OpenFlag, mode: i32, check_mode: bool) {
    boot();
    unsafe {
        std::stubs::ALL_UTF8.0 = true;
        mcenv::cstr::LENGTH.0 = path.len();
    }
    let mut p = proc_spec(strs(&[if path.len() == 2 { "/x" } else { "/bin/prog" }]));
    p.fds.push((st(name), f));
    unsafe { W.0 = Some(Want { fd, path, flag, mode, check_mode }) };
    k().follow_child = 1;
    k().child_silent = true;
    k().on_exec = Some(|k, _| {
        let w = unsafe { W.0.as_ref().unwrap() };
        let f = k.fds[w.fd as usize];
        assert!(f.kind == K_FILE, "the descriptor is not open to the file");
        let o = &k.opens[f.id as usize];
        assert!(same(&o.path, w.path.as_bytes()), "another path is opened");
        // Close-on-exec, no controlling terminal, large files: no matter.
        let flags = o.oflag & !(0o2000000 | 0o400 | 0o100000);
        let want = wanted(w.flag, w.fd);
        assert!(flags == want, "opened with other access or creation flags than documented");
        assert!(!w.check_mode || want & 0o100 == 0 || o.mode == w.mode, "created with another mode");
        crate::reach!("opened");
    });
    k().on_child_exit = Some(|_, _| panic!("the program is not executed"));
    let procs = procs::SharedProcs::new();
    let r = procs::start_procs(one(p), &procs);
    assert!(false, "no process is started");
}
fn any_flag() -> spec::OpenFlag {
    match nd::below(9) {
        0 => Default,
        1 => Read,
        2 => Write,
        3 => Create,
        4 => Replace,
        5 => CreateAppend,
        6 => Append,
        7 => ReadWrite,
        _ => Default,
    }
}
fn file(name: &str, fd: i32) {
    let (path, flags, mode) = (sym(2), any_flag(), nd::i32());
    nd::assume(mode >= 0 && mode <= 0o7777);
    go(name, fd, spec::Fd::File { path: path.clone(), flags, mode }, path, flags, mode, true);
}
fn null(name: &str, fd: i32) {
    let flags = any_flag();
    go(name, fd, spec::Fd::Null { flags }, st("/dev/null"), flags, 0, false);
}
harness!(c22_stdin, q, 28, 1, "a file on stdin: every flag, every mode up to 07777, every path of 2 characters", { file("stdin", 0) });
harness!(c22_stdout, q, 28, 1, "a file on stdout: every flag, every mode up to 07777, every path of 2 characters", { file("stdout", 1) });
harness!(c22_stderr, t, 28, 1, "a file on stderr: every flag, every mode up to 07777, every path of 2 characters", { file("stderr", 2) });
harness!(c22_fd5, q, 28, 1, "a file on 5: every flag, every mode up to 07777, every path of 2 characters", { file("5", 5) });
harness!(c22_fd1, t, 28, 1, "a file on 1: every flag, every mode up to 07777, every path of 2 characters", { file("1", 1) });
harness!(c22_fd3, t, 28, 1, "a file on 3: every flag, every mode up to 07777, every path of 2 characters", { file("3", 3) });
harness!(c22_null_stdin, t, 28, 1, "the null device on stdin: every flag", { null("stdin", 0) });
harness!(c22_null_stdout, q, 28, 1, "the null device on stdout: every flag", { null("stdout", 1) });
harness!(c22_null_fd4, t, 28, 1, "the null device on 4: every flag", { null("4", 4) });
harness!(c22_null_stderr, t, 28, 1, "the null device on stderr: every flag", { null("stderr", 2) });
