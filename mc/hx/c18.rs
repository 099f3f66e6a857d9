//! C18: every agent request gets its right answer, and bad messages are harmless.
//% outside: the encoding of messages as bytes; signals, data, deletion and starts in detail (see C13, C08, C12, C04)
//% boxed: yes
//% unwindset: memcmp=20
use super::common::*;
use proto::{IncomingMessage, OutgoingMessage};
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::Step;
use Rec::*;

fn nm(i: usize) -> &'static str {
    match i {
        0 => "a",
        1 => "b",
        _ => "c",
    }
}
fn setup(s: &[Rec]) -> (procs::SharedProcs, procs::NotificationSub) {
    boot();
    let procs = procs::SharedProcs::new();
    let mut i = 0;
    while i < s.len() {
        procs.insert(st(nm(i)), record_in(100 + i as i32, s[i]));
        i += 1;
    }
    let sub = procs.subscribe();
    (procs, sub)
}
fn ask(procs: &procs::SharedProcs, m: IncomingMessage) -> Option<OutgoingMessage> {
    rt::block(proto::handle_incoming(procs, m))
}
/// The records are as they were, and nothing is announced.
fn unchanged(procs: &procs::SharedProcs, sub: &mut procs::NotificationSub, s: &[Rec]) {
    expect_none(sub);
    assert!(procs.len() == s.len(), "a record is added or removed");
    let mut i = 0;
    while i < s.len() {
        let p = procs.get(nm(i)).unwrap();
        let p = p.borrow();
        assert!(p.pid == 100 + i as i32, "another process has the id");
        assert!(p.wait_info.is_some() == (s[i] == Ended || s[i] == FailedEnded), "a process has changed its state");
        i += 1;
    }
}
fn list(s: &[Rec]) -> ! {
    let (procs, mut sub) = setup(s);
    match ask(&procs, IncomingMessage::ProcidListRequest {}) {
        Some(OutgoingMessage::ProcidList { proc_ids }) => {
            assert!(proc_ids.len() == s.len(), "ids are missing, or there are others");
            let mut i = 0;
            while i < s.len() {
                let mut n = 0;
                let mut j = 0;
                while j < s.len() {
                    if same(proc_ids[j].as_bytes(), nm(i).as_bytes()) {
                        n += 1;
                    }
                    j += 1;
                }
                assert!(n == 1, "a process isn't listed once");
                i += 1;
            }
        }
        _ => panic!("another answer"),
    }
    unchanged(&procs, &mut sub, s);
    crate::reach!("listed");
    done()
}
harness!(c18_list, q, 40, 1, "list of none, one and three processes in all states", {
    cases(3, |i| match i {
        0 => list(&[]),
        1 => list(&[FailedEnded]),
        _ => list(&[Ended, Running, Failed]),
    })
});
fn result(s: &[Rec], id: usize) -> ! {
    let (procs, mut sub) = setup(s);
    match ask(&procs, IncomingMessage::ProcResultRequest { proc_id: st(nm(id)) }) {
        Some(OutgoingMessage::ProcResult { proc_id, res }) => {
            assert!(id < s.len(), "a result of an unknown process");
            assert!(same(proc_id.as_bytes(), nm(id).as_bytes()), "the answer is for another process");
            assert!(res.pid == 100 + id as i32, "the result of another process");
            let state = match s[id] {
                Running => state::State::Running,
                Ended => state::State::Terminated,
                _ => state::State::Error,
            };
            assert!(res.state == state, "another state");
            let over = s[id] == Ended || s[id] == FailedEnded;
            assert!(res.status.is_some() == over, "the status is missing or too early");
            assert!(res.rusage.is_some() == over, "the usage is missing or too early");
            let failed = s[id] == Failed || s[id] == FailedEnded;
            assert!(res.errors.len() == if failed { 1 } else { 0 }, "messages are missing, or there are others");
        }
        Some(OutgoingMessage::ProcUnknown { proc_id }) => {
            assert!(id >= s.len(), "a known process is reported unknown");
            assert!(same(proc_id.as_bytes(), nm(id).as_bytes()), "another process is reported unknown");
        }
        _ => panic!("another answer"),
    }
    unchanged(&procs, &mut sub, s);
    crate::reach!("result");
    done()
}
harness!(c18_result, q, 40, 1, "results of a running and an ended process", {
    cases(2, |i| if i == 0 { result(&[Running, Ended], 0) } else { result(&[Running, Ended], 1) })
});
harness!(c18_result_failed, q, 40, 1, "results of failed processes, and of an unknown one", {
    cases(3, |i| match i {
        0 => result(&[Failed, Running], 0),
        1 => result(&[Running, FailedEnded], 1),
        _ => result(&[Running, FailedEnded], 2),
    })
});
/// The error carries the request.
fn carried(r: Option<OutgoingMessage>, f: fn(&IncomingMessage) -> bool) {
    match r {
        Some(OutgoingMessage::RequestError { msg, err }) => {
            assert!(f(&msg), "the error carries another request");
            assert!(err.len() > 0, "no message");
        }
        _ => panic!("the request isn't refused"),
    }
}
harness!(c18_refused, q, 40, 1, "a message out of place, a signal that can't be sent, data and deletion that are refused: errors carrying the request", {
    cases(5, |i| {
        let s = &[Running, Ended];
        let (procs, mut sub) = setup(s);
        match i {
            0 => carried(ask(&procs, IncomingMessage::Registered), |m| matches!(m, IncomingMessage::Registered)),
            1 => carried(ask(&procs, IncomingMessage::ProcSignalRequest { proc_id: st("b"), signum: 15 }), |m| match m {
                IncomingMessage::ProcSignalRequest { proc_id, signum } => proc_id == "b" && *signum == 15,
                _ => false,
            }),
            2 => carried(ask(&procs, IncomingMessage::ProcFdDataRequest { proc_id: st("a"), fd: st("1"), start: 2, stop: Some(3) }), |m| match m {
                IncomingMessage::ProcFdDataRequest { proc_id, fd, start, stop } => proc_id == "a" && fd == "1" && *start == 2 && *stop == Some(3),
                _ => false,
            }),
            3 => carried(ask(&procs, IncomingMessage::ProcDeleteRequest { proc_id: st("a") }), |m| match m {
                IncomingMessage::ProcDeleteRequest { proc_id } => proc_id == "a",
                _ => false,
            }),
            _ => {
                let p = proc_spec(strs(&["/x"]));
                let mut specs = spec::Procs::new();
                specs.insert(st("b"), p);
                carried(ask(&procs, IncomingMessage::ProcStartRequest { specs }), |m| match m {
                    IncomingMessage::ProcStartRequest { specs } => specs.len() == 1 && specs.contains_key("b") && specs["b"].argv.len() == 1,
                    _ => false,
                });
                assert!(k().forks == 0, "a process is created");
            }
        }
        unchanged(&procs, &mut sub, s);
        crate::reach!("refused");
        done()
    })
});

/// What the agent has sent.
static mut SENT: (std::vec::Vec<Message>, u64) = (std::vec::Vec::new(), 0x6d63_18a3be01);
static mut STEP: (usize, u64) = (0, 0x6d63_18a3be02);
fn sent() -> &'static mut std::vec::Vec<Message> {
    unsafe { &mut SENT.0 }
}
/// The harness's messages, after the one that accepts the registration.
static mut MSGS: (std::vec::Vec<Message>, u64) = (std::vec::Vec::new(), 0x6d63_18a3be03);
fn msgs() -> &'static mut std::vec::Vec<Message> {
    unsafe { &mut MSGS.0 }
}
fn connect(procs: &procs::SharedProcs) {
    unsafe {
        tokio_tungstenite::ON_NEXT.0 = Some(|_| {
            let n = STEP.0;
            STEP.0 += 1;
            if n == 0 {
                Step::Msg(Message::Binary(mcserde::file(mcserde::map([("type", mcserde::s("Registered"))]))))
            } else if n <= msgs().len() {
                Step::Msg(msgs()[n - 1].clone())
            } else {
                Step::Wait
            }
        });
        tokio_tungstenite::ON_SEND.0 = Some(|_, m| {
            sent().push(m.clone());
            true
        });
    }
    let url = url::Url::parse("wss://h/").unwrap();
    let conn = agent::Connection::new(&url, Some("c"), Some("g"));
    let procs = procs.clone();
    let cfg: &'static agent::ConnectConfig = Box::leak(Box::new(agent::ConnectConfig::new()));
    let run = Box::pin(agent::run(conn, procs, cfg));
    tokio::task::spawn_local(async move {
        _ = run.await;
        panic!("the agent has stopped");
    });
}
fn kind(m: &Message) -> &'static str {
    match m {
        Message::Binary(b) => mcserde::lookup(b).unwrap().get("type").unwrap().as_str().unwrap(),
        _ => "",
    }
}
harness!(c18_agent, q, 40, 1, "on a connection: an undecodable message or a ping, then a request, which is answered on the same connection", {
    cases(2, |i| {
        let (procs, _sub) = setup(&[]);
        if i == 0 {
            msgs().push(Message::Binary(std::vec::Vec::from([200, 0])));
        } else {
            msgs().push(Message::Ping(std::vec::Vec::from([nd::u8()])));
        }
        msgs().push(Message::Binary(mcserde::file(mcserde::map([("type", mcserde::s("ProcidListRequest"))]))));
        connect(&procs);
        rt::run_rounds(6);
        let s = sent();
        assert!(s.len() == i as usize + 2, "an answer is missing, or there is another one");
        assert!(kind(&s[0]) == "Register", "the registration isn't the first message");
        if i == 1 {
            match (&s[1], &msgs()[0]) {
                (Message::Pong(p), Message::Ping(q)) => assert!(p.len() == 1 && p[0] == q[0], "another payload"),
                _ => panic!("a ping isn't answered"),
            }
        }
        assert!(kind(&s[i as usize + 1]) == "ProcidList", "another answer");
        assert!(unsafe { tokio_tungstenite::ATTEMPTS.0 } == 1, "the connection is lost");
        crate::reach!("answered");
        done()
    })
});
