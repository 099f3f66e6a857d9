//! C21: signal names and numbers agree with the system.
//% outside: strings longer than 9 bytes, decimal numbers longer than 4 characters; alternative names (SIGPOLL, SIGIOT, SIGCLD) and names of real-time signals
use super::common::*;

const NAMES: [&str; 32] = [
    "", "SIGHUP", "SIGINT", "SIGQUIT", "SIGILL", "SIGTRAP", "SIGABRT", "SIGBUS", "SIGFPE", "SIGKILL", "SIGUSR1", "SIGSEGV",
    "SIGUSR2", "SIGPIPE", "SIGALRM", "SIGTERM", "SIGSTKFLT", "SIGCHLD", "SIGCONT", "SIGSTOP", "SIGTSTP", "SIGTTIN", "SIGTTOU",
    "SIGURG", "SIGXCPU", "SIGXFSZ", "SIGVTALRM", "SIGPROF", "SIGWINCH", "SIGIO", "SIGPWR", "SIGSYS",
];

/// The number a string denotes, if any; None if the property leaves it open.
fn expected(s: &[u8]) -> Option<Option<i32>> {
    let mut i = 1;
    while i < 32 {
        if same(s, NAMES[i].as_bytes()) {
            return Some(Some(i as i32));
        }
        i += 1;
    }
    // Signs are left open; SIGPOLL, SIGIOT, SIGCLD too.
    if s.len() > 0 && (s[0] == b'+' || s[0] == b'-') || same(s, b"SIGPOLL") || same(s, b"SIGIOT") || same(s, b"SIGCLD") {
        return None;
    }
    let mut n = 0i32;
    let mut ok = s.len() > 0;
    let mut i = 0;
    while i < s.len() {
        let d = s[i] >= b'0' && s[i] <= b'9';
        ok &= d;
        if d {
            n = n * 10 + (s[i] - b'0') as i32;
        }
        i += 1;
    }
    Some(if ok { Some(n) } else { None })
}
fn check(s: String) {
    let r = sig::parse_signum(&s);
    if let Some(e) = expected(s.as_bytes()) {
        assert!(r == e, "a string is taken for another signal, or wrongly accepted or rejected");
        if r.is_some() {
            reach!("accepted");
        } else {
            reach!("rejected");
        }
    }
}
fn len(n: usize) {
    boot();
    check(sym(n));
}
harness!(c21_0, q, 50, 1, "the empty string", { len(0) });
harness!(c21_1, t, 50, 2, "every string of 1 byte", { len(1) });
harness!(c21_2, q, 50, 2, "every string of 2 bytes", { len(2) });
harness!(c21_3, t, 50, 2, "every string of 3 bytes", { len(3) });
harness!(c21_5, q, 50, 2, "every string of 5 bytes", { len(5) });
harness!(c21_6, t, 50, 2, "every string of 6 bytes", { len(6) });
harness!(c21_7, q, 50, 2, "every string of 7 bytes", { len(7) });
harness!(c21_8, t, 50, 2, "every string of 8 bytes", { len(8) });
harness!(c21_9, q, 50, 2, "every string of 9 bytes", { len(9) });
harness!(c21_abbrev, q, 50, 2, "every number", {
    boot();
    let n = nd::i32();
    match sig::get_abbrev(n) {
        Some(a) => {
            assert!(n >= 1 && n < 32, "a name is reported for a number without one");
            assert!(same(a.as_bytes(), NAMES[n as usize].as_bytes()), "another signal's name is reported");
            reach!("named");
        }
        None => {
            assert!(n < 1 || n >= 32, "the name of a signal is missing");
            reach!("not named");
        }
    }
});
