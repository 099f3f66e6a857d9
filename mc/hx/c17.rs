//! C17: the agent registers first, reconnects, backs off and gives up as configured.
//% outside: the contents of TLS connections and of the websocket handshake; configurations other than those listed; intervals that aren't whole microseconds
//% assume: futures are polled by one thread; a connection attempt and a sleep each end at a later poll
//% boxed: yes
//% unwindset: memcmp=20
use super::common::*;
use std::time::Duration;
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::Step;

/// What becomes of a connection attempt.
#[derive(Clone, Copy, PartialEq)]
enum Try {
    Refused,
    /// Connected, but the registration isn't accepted.
    Wrong,
    Garbage,
    Text,
    CloseFirst,
    FailFirst,
    EndFirst,
    /// Sending the registration fails.
    Unsent,
    /// The server never answers.
    Silent,
    /// Accepted, and then lost.
    LostEnd,
    LostFail,
    LostClose,
    /// Accepted, and stays.
    Stays,
}
use Try::*;

static mut PLAN: (fn(u32) -> Try, u64) = (|_| Refused, 0x6d63_17aa0001);
/// Messages received, per connection.
static mut GOT: ([u8; 8], u64) = ([0; 8], 0x6d63_17aa0002);
/// Messages sent, per connection.
static mut SENT: ([u8; 8], u64) = ([0; 8], 0x6d63_17aa0003);
/// Which of the connections were accepted.
static mut ACCEPTED: ([bool; 8], u64) = ([false; 8], 0x6d63_17aa0004);
static mut KINDS: ([u8; 8], u64) = ([0; 8], 0x6d63_17aa0005);

fn message(kind: &'static str) -> Step {
    Step::Msg(Message::Binary(mcserde::file(mcserde::map([("type", mcserde::s(kind))]))))
}
/// The first byte of the type of a message, which tells those here apart.
fn kind(m: &Message) -> u8 {
    match m {
        Message::Binary(b) => {
            let k = mcserde::lookup(b).unwrap().get("type").unwrap().as_str().unwrap();
            if k == "Register" { b'R' } else if k == "ShutDown" { b'S' } else { b'?' }
        }
        _ => b'-',
    }
}
fn attempts() -> u32 {
    unsafe { tokio_tungstenite::ATTEMPTS.0 }
}
fn setup(plan: fn(u32) -> Try) -> procs::SharedProcs {
    boot();
    unsafe {
        PLAN.0 = plan;
        tokio::time::REAL_SLEEP.0 = false;
        tokio_tungstenite::ON_CONNECT.0 = Some(|n, _, _| (PLAN.0)(n) != Refused);
        tokio_tungstenite::ON_NEXT.0 = Some(|id| {
            let i = id as usize;
            assert!(SENT.0[i] > 0, "the agent waits for a message before it has registered");
            let n = GOT.0[i];
            GOT.0[i] += 1;
            let t = (PLAN.0)(id);
            if n == 0 {
                match t {
                    Wrong => message("ProcidListRequest"),
                    Garbage => Step::Msg(Message::Binary(std::vec::Vec::from([200, 0]))),
                    Text => Step::Msg(Message::Text(st("x"))),
                    CloseFirst => Step::Msg(Message::Close(None)),
                    FailFirst => Step::Fail,
                    EndFirst => Step::End,
                    Silent => Step::Wait,
                    _ => {
                        ACCEPTED.0[i] = true;
                        message("Registered")
                    }
                }
            } else if !ACCEPTED.0[i] {
                if t != Silent {
                    panic!("a connection is used that isn't accepted");
                }
                Step::Wait
            } else {
                match t {
                    LostEnd => Step::End,
                    LostFail => Step::Fail,
                    LostClose => Step::Msg(Message::Close(None)),
                    _ => Step::Wait,
                }
            }
        });
        tokio_tungstenite::ON_SEND.0 = Some(|id, m| {
            let i = id as usize;
            let k = kind(m);
            if SENT.0[i] == 0 {
                assert!(k == b'R', "the first message isn't the registration");
            } else {
                assert!(ACCEPTED.0[i], "a message is sent before the registration is accepted");
                assert!(k != b'R', "the agent registers again on the same connection");
            }
            KINDS.0[i] = k;
            SENT.0[i] += 1;
            (PLAN.0)(id) != Unsent
        });
    }
    procs::SharedProcs::new()
}
struct Cfg {
    start: u64,
    mult: (u64, u64),
    max: u64,
    tries: u64,
}
type Run = std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), err::Error>>>>;
fn run(procs: &procs::SharedProcs, c: &Cfg) -> Run {
    let url = url::Url::parse("wss://h/").unwrap();
    let conn = agent::Connection::new(&url, Some("c"), Some("g"));
    let mut cfg = agent::ConnectConfig::new();
    cfg.interval_start = Duration::from_micros(c.start);
    cfg.interval_mult = c.mult.0 as f64 / c.mult.1 as f64;
    cfg.interval_max = Duration::from_micros(c.max);
    cfg.count_max = c.tries;
    let cfg: &'static agent::ConnectConfig = Box::leak(Box::new(cfg));
    let procs = procs.clone();
    Box::pin(async move { Box::pin(agent::run(conn, procs, cfg)).await })
}
/// Polls until attempt `n` has been made, and one time more.
fn until(f: &mut Run, n: u32) -> std::task::Poll<Result<(), err::Error>> {
    let mut i = 0;
    while i < 20 {
        if let std::task::Poll::Ready(r) = rt::poll_once(f.as_mut()) {
            return std::task::Poll::Ready(r);
        }
        if attempts() > n {
            break;
        }
        i += 1;
    }
    std::task::Poll::Pending
}
/// Attempts `n` times as in the plan, and looks at the pauses between.
fn go(plan: fn(u32) -> Try, n: u32, c: Cfg) -> ! {
    let procs = setup(plan);
    let mut f = run(&procs, &c);
    let r = until(&mut f, n);
    // What should have happened.
    let mut want = std::vec::Vec::new();
    let first = if c.start < c.max { c.start } else { c.max };
    let mut at = first;
    let mut failed = 0;
    let mut gives_up = false;
    let mut i = 0;
    while i < n && !gives_up {
        match plan(i) {
            LostEnd | LostFail | LostClose => {
                at = first;
                failed = 0;
            }
            _ => {
                failed += 1;
                if failed >= c.tries {
                    gives_up = true;
                } else {
                    want.push(at);
                    at = at * c.mult.0 / c.mult.1;
                    if at > c.max {
                        at = c.max;
                    }
                }
            }
        }
        i += 1;
    }
    match r {
        std::task::Poll::Ready(Ok(())) => panic!("the agent stops though nothing is shutting down"),
        std::task::Poll::Ready(Err(_)) => assert!(gives_up, "the agent gives up too early"),
        std::task::Poll::Pending => assert!(!gives_up, "the agent doesn't give up"),
    }
    assert!(attempts() == if gives_up { i } else { n + 1 }, "another number of attempts");
    let slept = unsafe { &tokio::time::SLEEPS.0 };
    assert!(slept.len() == want.len(), "another number of pauses");
    let mut i = 0;
    while i < want.len() {
        assert!(slept[i] == want[i], "a pause is too short or too long");
        i += 1;
    }
    crate::reach!("seen");
    done()
}
const S: u64 = 1_000_000;
harness!(c17_backoff, q, 40, 1, "5 refusals: from 1 s doubling up to 5 s", {
    go(|_| Refused, 5, Cfg { start: S, mult: (2, 1), max: 5 * S, tries: u64::MAX })
});
harness!(c17_backoff_max, t, 40, 1, "2 refusals: a start above the maximum; 3 refusals: factor 3/2", {
    cases(2, |i| if i == 0 {
        go(|_| Refused, 2, Cfg { start: 3 * S, mult: (2, 1), max: 2 * S, tries: u64::MAX })
    } else {
        go(|_| Refused, 3, Cfg { start: S / 2, mult: (3, 2), max: 60 * S, tries: 4 })
    })
});
harness!(c17_backoff_more, t, 40, 1, "3 refusals: factors 1 and 1/2", {
    cases(2, |i| if i == 0 {
        go(|_| Refused, 3, Cfg { start: S, mult: (1, 1), max: 60 * S, tries: 4 })
    } else {
        go(|_| Refused, 3, Cfg { start: S, mult: (1, 2), max: 60 * S, tries: 4 })
    })
});
harness!(c17_gives_up, q, 40, 1, "1 and 3 attempts allowed", {
    cases(2, |i| if i == 0 {
        go(|_| Refused, 2, Cfg { start: S, mult: (2, 1), max: 60 * S, tries: 1 })
    } else {
        go(|_| Refused, 4, Cfg { start: S, mult: (2, 1), max: 60 * S, tries: 3 })
    })
});
fn first(i: u8) -> Try {
    match i {
        0 => Wrong,
        1 => Garbage,
        2 => Text,
        3 => CloseFirst,
        4 => FailFirst,
        5 => EndFirst,
        _ => Unsent,
    }
}
static mut WHICH: (u8, u64) = (0, 0x6d63_17aa0006);
fn unaccepted(i: u8) -> ! {
    unsafe { WHICH.0 = i };
    go(|n| if n == 0 { first(unsafe { WHICH.0 }) } else { Refused }, 1, Cfg { start: S, mult: (2, 1), max: 60 * S, tries: 4 })
}
harness!(c17_unaccepted, q, 40, 1, "the registration answered with a request, or by ending the connection: not used, and tried again after a pause", {
    cases(2, |i| if i == 0 { unaccepted(0) } else { unaccepted(5) })
});
harness!(c17_unaccepted_garbage, t, 40, 1, "the registration answered with garbage or with text", { cases(2, |i| if i == 0 { unaccepted(1) } else { unaccepted(2) }) });
harness!(c17_unaccepted_close, t, 40, 1, "the registration answered by closing or failing", { cases(2, |i| if i == 0 { unaccepted(3) } else { unaccepted(4) }) });
harness!(c17_unsent, t, 40, 1, "the registration can't be sent", { unaccepted(6) });
harness!(c17_reset, q, 40, 1, "two attempts fail, the third connection is accepted and ends, two more fail with 3 allowed", {
    go(|n| if n == 2 { LostEnd } else { Refused }, 5, Cfg { start: S, mult: (2, 1), max: 60 * S, tries: 3 })
});
harness!(c17_lost_fail, t, 40, 1, "a connection that fails, then one failed attempt", {
    go(|n| if n == 1 { LostFail } else { Refused }, 3, Cfg { start: S, mult: (2, 1), max: 60 * S, tries: 2 })
});
harness!(c17_lost_close, t, 40, 1, "a connection that is closed, then one failed attempt", {
    go(|n| if n == 1 { LostClose } else { Refused }, 3, Cfg { start: S, mult: (2, 1), max: 60 * S, tries: 2 })
});
/// Shutdown is done after `polls` polls of the agent.
fn stop(plan: fn(u32) -> Try, polls: usize, told: bool) -> ! {
    let procs = setup(plan);
    let c = Cfg { start: S, mult: (2, 1), max: 60 * S, tries: u64::MAX };
    let mut f = run(&procs, &c);
    let mut i = 0;
    while i < polls {
        assert!(rt::poll_once(f.as_mut()).is_pending(), "the agent stops by itself");
        i += 1;
    }
    procs.set_shutdown(shutdown::State::Idling);
    assert!(stage(&procs.get_shutdown()) == b'2', "shutdown isn't done");
    let mut i = 0;
    let mut ready = false;
    while i < 4 && !ready {
        match rt::poll_once(f.as_mut()) {
            std::task::Poll::Ready(r) => {
                assert!(r.is_ok(), "shutdown is an error");
                ready = true;
            }
            _ => {}
        }
        i += 1;
    }
    assert!(ready, "the agent doesn't stop");
    if told {
        assert!(unsafe { KINDS.0[0] } == b'S', "the server isn't told of the shutdown");
    }
    crate::reach!("stopped");
    done()
}
harness!(c17_stop, q, 40, 1, "shutdown is done before the agent starts, and while it connects", {
    cases(2, |i| if i == 0 { stop(|_| Stays, 0, false) } else { stop(|_| Stays, 1, false) })
});
harness!(c17_stop_silent, q, 40, 1, "shutdown is done while the server doesn't answer, and during a pause", {
    cases(2, |i| if i == 0 { stop(|_| Silent, 3, false) } else { stop(|_| Refused, 2, false) })
});
harness!(c17_stop_connected, q, 40, 1, "shutdown is done while connected: the server is told", { stop(|_| Stays, 2, true) });
