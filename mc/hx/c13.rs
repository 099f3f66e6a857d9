//! C13: signals go only to the live process asked for.
//% outside: what the kernel does with a signal; more than three processes
//% assume: none
use super::common::*;
use proto::{IncomingMessage, OutgoingMessage};

/// Signals seen by pid 100, 101, 102 and by anyone else; the last signal number.
static mut SEEN: ([u32; 4], u64) = ([0; 4], 0x6d63_13aa0001);
static mut SIG: ([i32; 4], u64) = ([0; 4], 0x6d63_13aa0002);
/// What the kernel answers for each.
static mut ANSWER: ([i32; 4], u64) = ([0; 4], 0x6d63_13aa0003);

fn start() {
    boot();
    k().on_kill = Some(|pid, sig| unsafe {
        let i = if pid >= 100 && pid < 103 { (pid - 100) as usize } else { 3 };
        SEEN.0[i] += 1;
        SIG.0[i] = sig;
        ANSWER.0[i]
    });
}
fn seen(i: usize) -> u32 {
    unsafe { SEEN.0[i] }
}
fn sig(i: usize) -> i32 {
    unsafe { SIG.0[i] }
}
/// 0, ESRCH, EPERM or EINVAL.
fn answers() {
    let mut i = 0;
    while i < 3 {
        let a = nd::u8();
        nd::assume(a == 0 || a == 3 || a == 1 || a == 22);
        unsafe { ANSWER.0[i] = a as i32 };
        i += 1;
    }
}

fn direct(s: Rec) {
    start();
    answers();
    let pid = nd::i32();
    nd::assume(pid > 0);
    unsafe { ANSWER.0[3] = ANSWER.0[0] };
    let (n, want) = (nd::i32(), if pid >= 100 && pid < 103 { (pid - 100) as usize } else { 3 });
    let p = record_in(pid, s);
    k().on_kill = Some(|pid, sig| unsafe {
        SEEN.0[0] += 1;
        SIG.0[0] = sig;
        SIG.0[1] = pid;
        ANSWER.0[0]
    });
    let r = p.borrow().send_signal(n);
    let reaped = s == Rec::Ended || s == Rec::FailedEnded;
    if reaped {
        assert!(seen(0) == 0, "a signal is sent to the pid of a process that has been reaped");
        assert!(r.is_err(), "signalling a process that has ended succeeds");
    } else {
        assert!(seen(0) == 1, "not exactly one signal is sent");
        assert!(sig(0) == n, "another signal is sent");
        assert!(sig(1) == pid, "the signal is sent to another pid");
        assert!(r.is_ok() == (unsafe { ANSWER.0[0] } == 0), "the requester is told otherwise than the kernel answered");
    }
    crate::reach!("signalled");
}
harness!(c13_running, q, 40, 1, "a running process: every pid, signal number and kernel answer", { direct(Rec::Running) });
harness!(c13_ended, q, 40, 1, "an ended process: every pid and signal number", { direct(Rec::Ended) });
harness!(c13_failed, t, 40, 1, "a process that failed to start, not yet reaped", { direct(Rec::Failed) });
harness!(c13_failed_ended, q, 40, 1, "a process that failed to start, reaped", { direct(Rec::FailedEnded) });

fn three(a: Rec, b: Rec, c: Rec) -> procs::SharedProcs {
    start();
    answers();
    let procs = procs::SharedProcs::new();
    procs.insert(st("a"), record_in(100, a));
    procs.insert(st("b"), record_in(101, b));
    procs.insert(st("c"), record_in(102, c));
    procs
}
/// A process that failed to start but isn't reaped may be signalled or not.
fn expect_all(i: usize, s: Rec, n: i32) {
    match s {
        Rec::Running => assert!(seen(i) == 1 && sig(i) == n, "a running process isn't sent the signal once"),
        Rec::Failed => assert!(seen(i) == 0 || seen(i) == 1 && sig(i) == n),
        _ => assert!(seen(i) == 0, "a process that has ended is sent a signal"),
    }
}
fn all(a: Rec, b: Rec, c: Rec) {
    let procs = three(a, b, c);
    let n = nd::i32();
    let _ = procs.send_signal_all(n);
    expect_all(0, a, n);
    expect_all(1, b, n);
    expect_all(2, c, n);
    assert!(seen(3) == 0, "another process is sent a signal");
    crate::reach!("all");
}
use Rec::*;
harness!(c13_all_rrr, t, 40, 1, "to all of three running; every signal number and kernel answer for each", { all(Running, Running, Running) });
harness!(c13_all_rer, q, 40, 1, "to all: running, ended, running", { all(Running, Ended, Running) });
harness!(c13_all_ere, q, 40, 1, "to all: ended, running, ended", { all(Ended, Running, Ended) });
harness!(c13_all_frx, t, 40, 1, "to all: failed, running, failed and reaped", { all(Failed, Running, FailedEnded) });
harness!(c13_all_xer, t, 40, 1, "to all: failed and reaped, ended, running", { all(FailedEnded, Ended, Running) });

fn message(a: Rec, b: Rec, c: Rec, id: &str, to: usize) {
    let procs = three(a, b, c);
    let n = nd::i32();
    let state = if to == 0 { a } else if to == 1 { b } else if to == 2 { c } else { Ended };
    let m = IncomingMessage::ProcSignalRequest { proc_id: st(id), signum: n };
    let rsp = rt::block(proto::handle_incoming(&procs, m));
    let mut i = 0;
    while i < 4 {
        if i == to && (state == Running || state == Failed) {
            assert!(seen(i) == 1 && sig(i) == n, "the process isn't sent the signal once");
        } else {
            assert!(seen(i) == 0, "another process, or one that has ended, is sent a signal");
        }
        i += 1;
    }
    if to == 3 {
        match rsp {
            Some(OutgoingMessage::ProcUnknown { proc_id }) => assert!(same(proc_id.as_bytes(), id.as_bytes())),
            _ => panic!("an unknown process isn't reported"),
        }
    } else {
        let fails = state == Ended || state == FailedEnded || unsafe { ANSWER.0[to] } != 0;
        match rsp {
            None => assert!(!fails, "a failure isn't reported"),
            Some(OutgoingMessage::RequestError { .. }) => assert!(fails, "a success is reported as a failure"),
            Some(_) => panic!("another answer"),
        }
    }
    crate::reach!("answered");
}
harness!(c13_msg_first, t, 40, 1, "agent request: the first of three, running", { message(Running, Running, Running, "a", 0) });
harness!(c13_msg_second, q, 40, 1, "agent request: the second of three, running", { message(Running, Running, Ended, "b", 1) });
harness!(c13_msg_ended, q, 40, 1, "agent request: the last of three, ended", { message(Running, Running, Ended, "c", 2) });
harness!(c13_msg_failed, t, 40, 1, "agent request: failed, not reaped", { message(Failed, Running, Running, "a", 0) });
harness!(c13_msg_failed_ended, t, 40, 1, "agent request: failed and reaped", { message(Running, FailedEnded, Running, "b", 1) });
harness!(c13_msg_unknown, q, 40, 1, "agent request: unknown process", { message(Running, Running, Running, "d", 3) });
harness!(c13_msg_prefix, t, 40, 1, "agent request: unknown process whose id starts like a known one", { message(Running, Running, Running, "aa", 3) });
