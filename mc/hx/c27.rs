//! C27: the agent server learns of every change.
//% outside: more than two process records; data in the results (see C07, C08); the contents of a result beyond pid, state, status and errors; connections that are lost while a message is under way
//% assume: a change made before the server accepted the registration is known to the server if it is in the registration or is sent afterwards
//% boxed: yes
//% unwindset: memcmp=20
use super::common::*;
use mcserde::Value;
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::Step;
use Rec::*;

/// The messages sent: on which connection, and what.
static mut SENT: (std::vec::Vec<(u32, &'static Value)>, u64) = (std::vec::Vec::new(), 0x6d63_27aa0001);
/// How many messages have been looked at.
static mut SEEN: (usize, u64) = (0, 0x6d63_27aa0002);
/// Whether the server accepts a registration now; how often it has on the connection.
static mut ACCEPT: (bool, u64) = (true, 0x6d63_27aa0003);
static mut GOT: ([u8; 4], u64) = ([0; 4], 0x6d63_27aa0004);
/// The connection that is lost after acceptance, when `LOSE` is set.
static mut LOSE: (bool, u64) = (false, 0x6d63_27aa0005);
static mut REFUSE: (bool, u64) = (false, 0x6d63_27aa0006);

fn setup() -> procs::SharedProcs {
    boot();
    unsafe {
        tokio::time::REAL_SLEEP.0 = false;
        tokio_tungstenite::ON_CONNECT.0 = Some(|_, _, _| !REFUSE.0);
        tokio_tungstenite::ON_NEXT.0 = Some(|id| {
            let i = id as usize;
            if GOT.0[i] == 0 {
                if !ACCEPT.0 {
                    return Step::Wait;
                }
                GOT.0[i] = 1;
                return Step::Msg(Message::Binary(mcserde::file(mcserde::map([("type", mcserde::s("Registered"))]))));
            }
            if LOSE.0 {
                LOSE.0 = false;
                return Step::End;
            }
            Step::Wait
        });
        tokio_tungstenite::ON_SEND.0 = Some(|id, m| {
            if let Message::Binary(b) = m {
                SENT.0.push((id, mcserde::lookup(b).unwrap()));
            }
            true
        });
    }
    procs::SharedProcs::new()
}
type Run = std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), err::Error>>>>;
fn run(procs: &procs::SharedProcs) -> Run {
    let url = url::Url::parse("wss://h/").unwrap();
    let conn = agent::Connection::new(&url, Some("c"), Some("g"));
    let cfg: &'static agent::ConnectConfig = Box::leak(Box::new(agent::ConnectConfig::new()));
    let procs = procs.clone();
    Box::pin(async move { Box::pin(agent::run(conn, procs, cfg)).await })
}
fn polls(f: &mut Run, n: usize) {
    let mut i = 0;
    while i < n {
        assert!(rt::poll_once(f.as_mut()).is_pending(), "the agent stops");
        i += 1;
    }
}
fn next() -> &'static Value {
    unsafe {
        assert!(SEEN.0 < SENT.0.len(), "the server isn't told");
        SEEN.0 += 1;
        SENT.0[SEEN.0 - 1].1
    }
}
fn none() {
    unsafe { assert!(SEEN.0 == SENT.0.len(), "the server is told of something else") }
}
fn text(v: &'static Value, k: &str) -> &'static str {
    v.get(k).unwrap().as_str().unwrap()
}
fn told_result(id: &str, pid: i64, state: &str, status: Option<i64>, errors: usize) {
    let v = next();
    assert!(text(v, "type") == "ProcResult", "another message");
    assert!(text(v, "proc_id") == id, "the message is for another process");
    let r = v.get("res").unwrap();
    assert!(r.get("pid").unwrap().as_i64() == Some(pid), "the result of another process");
    assert!(text(r, "state") == state, "another state");
    match status {
        None => assert!(r.get("status").unwrap().is_null(), "a status"),
        Some(n) => assert!(r.get("status").unwrap().get("status").unwrap().as_i64() == Some(n), "another status"),
    }
    assert!(r.get("errors").unwrap().as_seq().unwrap().len() == errors, "messages are missing, or there are others");
}
fn told_delete(id: &str) {
    let v = next();
    assert!(text(v, "type") == "ProcDelete", "another message");
    assert!(text(v, "proc_id") == id, "the message is for another process");
}
fn told_shutdown(s: &str) {
    let v = next();
    assert!(text(v, "type") == "ShutDown", "another message");
    assert!(text(v, "shutdown_state") == s, "another state");
}
/// A registration with just these ids.
fn registered(ids: &[&str], stage: &str) {
    let v = next();
    assert!(text(v, "type") == "Register", "another message");
    assert!(text(v, "shutdown_state") == stage, "another shutdown state is registered");
    let l = v.get("proc_ids").unwrap().as_seq().unwrap();
    assert!(l.len() == ids.len(), "another number of processes is registered");
    let mut i = 0;
    while i < ids.len() {
        assert!(l[i].as_str().unwrap() == ids[i], "another process is registered");
        i += 1;
    }
}
fn connected(procs: &procs::SharedProcs) -> Run {
    let mut f = run(procs);
    polls(&mut f, 2);
    registered(&[], "active");
    none();
    f
}
fn start(two: bool) -> ! {
    let procs = setup();
    let mut f = connected(&procs);
    procs.insert(st("b"), record_in(101, Failed));
    if two {
        procs.insert(st("a"), record_in(100, Running));
    }
    polls(&mut f, 2);
    told_result("b", 101, "error", None, 1);
    if two {
        told_result("a", 100, "running", None, 0);
    }
    none();
    crate::reach!("told");
    done()
}
harness!(c27_start, q, 40, 1, "while connected: a process that fails is started", { start(false) });
harness!(c27_start_two, t, 40, 1, "while connected: two processes start at once, one of which fails", { start(true) });
harness!(c27_delete, t, 40, 1, "while connected: a process that ended is deleted; one is started and deleted at once", {
    let procs = setup();
    let mut f = connected(&procs);
    procs.insert(st("a"), record_in(100, Ended));
    polls(&mut f, 1);
    told_result("a", 100, "terminated", Some(0), 0);
    procs.insert(st("b"), record_in(101, FailedEnded));
    assert!(procs.remove_if_not_running(&st("b")).is_ok());
    assert!(procs.remove_if_not_running(&st("a")).is_ok());
    polls(&mut f, 3);
    told_delete("b");
    told_delete("a");
    none();
    crate::reach!("told");
    done()
});
harness!(c27_reused, q, 40, 1, "while connected: a process that ended is deleted, and one that fails is started with its id at once", {
    let procs = setup();
    let mut f = connected(&procs);
    procs.insert(st("a"), record_in(100, Ended));
    polls(&mut f, 1);
    told_result("a", 100, "terminated", Some(0), 0);
    assert!(procs.remove_if_not_running(&st("a")).is_ok());
    procs.insert(st("a"), record_in(101, Failed));
    polls(&mut f, 2);
    told_delete("a");
    told_result("a", 101, "error", None, 1);
    none();
    crate::reach!("told");
    done()
});
harness!(c27_shutdown, q, 40, 1, "while connected: idling, the last deletion, done", {
    let procs = setup();
    procs.insert(st("a"), record_in(100, Ended));
    let mut f = run(&procs);
    polls(&mut f, 2);
    registered(&["a"], "active");
    procs.set_shutdown(shutdown::State::Idling);
    polls(&mut f, 1);
    told_shutdown("idling");
    none();
    assert!(procs.remove_if_not_running(&st("a")).is_ok());
    let mut i = 0;
    while i < 4 {
        if rt::poll_once(f.as_mut()).is_ready() {
            break;
        }
        i += 1;
    }
    // In either order.
    let v = unsafe { SENT.0[SEEN.0].1 };
    if text(v, "type") == "ProcDelete" {
        told_delete("a");
        told_shutdown("done");
    } else {
        told_shutdown("done");
        told_delete("a");
    }
    none();
    crate::reach!("told");
    done()
});
harness!(c27_connecting, q, 40, 1, "a process starts while the agent connects; one of another is deleted, and idling begins, while the server hasn't accepted the registration", {
    let procs = setup();
    unsafe { ACCEPT.0 = false };
    procs.insert(st("a"), record_in(100, Ended));
    let mut f = run(&procs);
    polls(&mut f, 1);
    procs.insert(st("b"), record_in(101, Running));
    polls(&mut f, 1);
    registered(&["a", "b"], "active");
    assert!(procs.remove_if_not_running(&st("a")).is_ok());
    procs.set_shutdown(shutdown::State::Idling);
    polls(&mut f, 1);
    none();
    unsafe { ACCEPT.0 = true };
    polls(&mut f, 4);
    // That the process started may be announced again.
    let v = unsafe { SENT.0[SEEN.0].1 };
    if text(v, "type") == "ProcResult" {
        told_result("b", 101, "running", None, 0);
    }
    told_delete("a");
    told_shutdown("idling");
    none();
    crate::reach!("told");
    done()
});
harness!(c27_lost, q, 40, 1, "a process starts while the connection is lost, and one is deleted during the pause after a refusal", {
    let procs = setup();
    procs.insert(st("a"), record_in(100, Ended));
    let mut f = run(&procs);
    polls(&mut f, 2);
    registered(&["a"], "active");
    unsafe {
        LOSE.0 = true;
        REFUSE.0 = true;
    }
    polls(&mut f, 2);
    assert!(unsafe { tokio_tungstenite::ATTEMPTS.0 } == 2, "the agent doesn't connect again");
    assert!(procs.remove_if_not_running(&st("a")).is_ok());
    procs.insert(st("b"), record_in(101, Running));
    unsafe { REFUSE.0 = false };
    polls(&mut f, 4);
    assert!(unsafe { tokio_tungstenite::ATTEMPTS.0 } == 3, "the agent doesn't connect again");
    registered(&["b"], "active");
    crate::reach!("told");
    done()
});
harness!(c27_end, t, 40, 1, "a process is started by request and ends: its result, running and ended", {
    let procs = setup();
    let mut f = connected(&procs);
    let at = rt::tasks().len();
    assert!(procs::start_procs(one(proc_spec(strs(&["/x"]))), &procs).is_ok());
    polls(&mut f, 1);
    let pid = procs.get("a").unwrap().borrow().pid as i64;
    told_result("a", pid, "running", None, 0);
    k().on_wait = Some(|pid, _| (pid, 3 << 8));
    tokio::signal::unix::deliver(17);
    rt::run_rounds(4);
    polls(&mut f, 1);
    told_result("a", pid, "terminated", Some(3 << 8), 0);
    none();
    crate::reach!("told");
    done()
});
