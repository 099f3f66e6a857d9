//! C10: how a process ended is decoded correctly for every wait status.
//% outside: CPU times of more than 2^31 seconds; statuses of stopped or continued processes, which wait4 without WUNTRACED cannot return
use super::common::*;
use std::time::Instant;

const NAMES: [&str; 32] = [
    "", "SIGHUP", "SIGINT", "SIGQUIT", "SIGILL", "SIGTRAP", "SIGABRT", "SIGBUS", "SIGFPE", "SIGKILL", "SIGUSR1", "SIGSEGV",
    "SIGUSR2", "SIGPIPE", "SIGALRM", "SIGTERM", "SIGSTKFLT", "SIGCHLD", "SIGCONT", "SIGSTOP", "SIGTSTP", "SIGTTIN", "SIGTTOU",
    "SIGURG", "SIGXCPU", "SIGXFSZ", "SIGVTALRM", "SIGPROF", "SIGWINCH", "SIGIO", "SIGPWR", "SIGSYS",
];

harness!(c10_exit, t, 50, 1, "every exit code", {
    boot();
    let code = nd::u8();
    let s = res::Status::new((code as i32) << 8);
    assert!(s.status == (code as i32) << 8);
    assert!(s.exit_code == Some(code as i32), "the exit code differs");
    assert!(s.signum == None && s.signal.is_none() && !s.core_dump, "a signal is reported for an exit");
    reach!("exit");
});
harness!(c10_signal, q, 50, 2, "every signal 1-64 with and without core dump", {
    boot();
    let sig = nd::u8() as i32;
    nd::assume(sig >= 1 && sig <= 64);
    let core = nd::bool();
    let status = sig | if core { 0x80 } else { 0 };
    let s = res::Status::new(status);
    assert!(s.status == status);
    assert!(s.exit_code == None, "an exit code is reported for a signal");
    assert!(s.signum == Some(sig), "the signal number differs");
    assert!(s.core_dump == core, "the core dump flag differs");
    match &s.signal {
        Some(n) => {
            assert!(sig < 32, "a name is reported for a signal without one");
            assert!(same(n.as_bytes(), NAMES[sig as usize].as_bytes()), "the name of another signal is reported");
            reach!("named");
        }
        None => {
            assert!(sig >= 32, "the name of the signal is missing");
            reach!("not named");
        }
    }
});
fn usage() -> libc::rusage {
    let mut r: libc::rusage = unsafe { core::mem::zeroed() };
    r
}
fn pos() -> i64 {
    let v = nd::i64();
    nd::assume(v >= 0 && v < 1 << 50);
    v
}
harness!(c10_rusage, q, 50, 1, "every count below 2^50", {
    boot();
    let mut r = usage();
    r.ru_maxrss = pos();
    r.ru_minflt = pos();
    r.ru_majflt = pos();
    r.ru_nswap = pos();
    r.ru_inblock = pos();
    r.ru_oublock = pos();
    r.ru_nvcsw = pos();
    r.ru_nivcsw = pos();
    let u = res::ResourceUsage::new(&r);
    assert!(u.maxrss == r.ru_maxrss as u64 * 1024, "maxrss is not in bytes");
    assert!(u.minflt == r.ru_minflt as u64 && u.majflt == r.ru_majflt as u64, "page faults differ");
    assert!(u.nswap == r.ru_nswap as u64);
    assert!(u.inblock == r.ru_inblock as u64 && u.oublock == r.ru_oublock as u64, "block operations differ");
    assert!(u.nvcsw == r.ru_nvcsw as u64 && u.nivcsw == r.ru_nivcsw as u64, "context switches differ");
    reach!("usage");
});
/// |t - (sec + usec * 1e-6)| is below half a microsecond.
fn near(t: f64, sec: i64, usec: i64) -> bool {
    let (lo, hi) = (sec as f64, (sec + 1) as f64);
    // The fraction, in units of 2^-20 s.
    let f = (t - lo) * 1048576.0;
    let f = f as i64;
    let d = f * 1000000 - usec * 1048576;
    t >= lo && t < hi && d > -2 * 1048576 && d < 2 * 1048576
}
harness!(c10_utime, q, 50, 1, "every user and system time below 2^8 s in units of 2^-6 s", {
    boot();
    let mut r = usage();
    let (us, uu, ss, su) = (nd::u8() as i64, nd::below(64) as i64 * 15625, nd::u8() as i64, nd::below(64) as i64 * 15625);
    r.ru_utime = libc::timeval { tv_sec: us, tv_usec: uu };
    r.ru_stime = libc::timeval { tv_sec: ss, tv_usec: su };
    let u = res::ResourceUsage::new(&r);
    assert!(near(u.utime, us, uu), "the user time differs");
    assert!(near(u.stime, ss, su), "the system time differs");
    reach!("times");
});
fn result(status: i32) -> res::Status {
    let mut r = usage();
    r.ru_nvcsw = pos();
    let mut p = procs::Proc::new(100, chrono::Utc::now(), Instant::now(), std::vec::Vec::new());
    p.wait_info = Some((100, status, r));
    let res = p.to_result();
    assert!(res.state == state::State::Terminated);
    assert!(res.pid == 100);
    assert!(res.rusage.unwrap().nvcsw == r.ru_nvcsw as u64);
    let s = res.status.unwrap();
    assert!(s.status == status);
    s
}
harness!(c10_result_exit, q, 50, 1, "the result of a process that ended with every exit code", {
    boot();
    let code = nd::u8() as i32;
    let s = result(code << 8);
    assert!(s.exit_code == Some(code) && s.signum == None);
    reach!("exit");
});
harness!(c10_result_signal, q, 50, 1, "the result of a process killed by signal 9 or 11, the latter with core dump", {
    boot();
    let core = nd::bool();
    let s = if core { result(11 | 0x80) } else { result(9) };
    assert!(s.exit_code == None && s.signum == Some(if core { 11 } else { 9 }) && s.core_dump == core);
    reach!("signal");
});
