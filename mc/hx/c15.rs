//! C15: shutdown only moves forward, and admits no new process.
//% outside: more than two process records; requests over HTTP (see C19)
//% unwindset: memcmp=4
//% assume: the order in which one deletion and the shutdown change it causes are announced is left open
use super::common::*;
use proto::{IncomingMessage, OutgoingMessage};
use shutdown::State::*;
use Rec::*;

#[derive(Clone, Copy)]
struct Model {
    stage: u8,
    present: [bool; 2],
}
impl Model {
    fn empty(&self) -> bool {
        !self.present[0] && !self.present[1]
    }
}
fn nm(i: usize) -> &'static str {
    if i == 0 { "a" } else { "b" }
}
fn setup(n: usize) -> (procs::SharedProcs, procs::NotificationSub, Model) {
    boot();
    let procs = procs::SharedProcs::new();
    let mut present = [false; 2];
    let mut i = 0;
    while i < n {
        procs.insert(st(nm(i)), record_in(100 + i as i32, Ended));
        present[i] = true;
        i += 1;
    }
    let sub = procs.subscribe();
    assert!(stage(&procs.get_shutdown()) == b'0', "procstar isn't active at first");
    (procs, sub, Model { stage: b'0', present })
}
/// The stage is as in the model, and the advances since `was` have been announced, each once
/// and in order.  `end`: done has been asked for, which needn't go through idling.
fn check(procs: &procs::SharedProcs, sub: &mut procs::NotificationSub, was: u8, m: &Model, end: bool) {
    assert!(stage(&procs.get_shutdown()) == m.stage, "the shutdown state is wrong");
    let mut at = was;
    let mut i = 0;
    while i < 6 {
        match announced(sub) {
            None => break,
            Some(n) => {
                if n.kind <= b'2' {
                    assert!(n.kind > at, "a shutdown state is announced again or late");
                    assert!(n.kind == at + 1 || end, "an advance isn't announced");
                    at = n.kind;
                }
            }
        }
        i += 1;
    }
    assert!(at == m.stage, "an advance isn't announced");
}
#[derive(Clone, Copy, PartialEq)]
enum Op {
    Idle,
    End,
    Activate,
    Remove(usize),
    Pop,
    Collect,
}
use Op::*;
fn step(procs: &procs::SharedProcs, sub: &mut procs::NotificationSub, m: &mut Model, op: Op) {
    let was = m.stage;
    match op {
        Idle => {
            procs.set_shutdown(Idling);
            if m.stage < b'1' {
                m.stage = b'1';
            }
        }
        End => {
            procs.set_shutdown(Done);
            m.stage = b'2';
        }
        Activate => procs.set_shutdown(Active),
        Remove(i) => {
            let r = procs.remove_if_not_running(&st(nm(i)));
            assert!(r.is_ok() == m.present[i], "a record is removed wrongly");
            m.present[i] = false;
        }
        Pop => {
            let r = procs.pop();
            assert!(r.is_some() == !m.empty(), "a record is removed wrongly");
            let i = if m.present[0] { 0 } else { 1 };
            m.present[i] = false;
        }
        Collect => {
            _ = procs.collect_results();
            m.present = [false; 2];
        }
    }
    if m.stage == b'1' && m.empty() {
        m.stage = b'2';
    }
    check(procs, sub, was, m, op == End);
}
fn seq(n: usize, ops: &[Op]) {
    let (procs, mut sub, mut m) = setup(n);
    let mut i = 0;
    while i < ops.len() {
        step(&procs, &mut sub, &mut m, ops[i]);
        i += 1;
    }
    crate::reach!("sequence");
    done()
}
harness!(c15_forward, q, 40, 1, "fixed sequences of up to 7 steps with none or one record: idle, activate, done, remove, pop", {
    cases(4, |i| match i {
        0 => seq(1, &[Idle, Activate, Idle, End, Idle, Activate, End]),
        1 => seq(1, &[Activate, End, Activate, Idle, Remove(0), Idle]),
        2 => seq(0, &[Idle, Activate, Idle, End]),
        _ => seq(0, &[Pop, Pop, End, Pop]),
    })
});
harness!(c15_remove, q, 40, 1, "fixed sequences with two records, which are removed while idling and before", {
    cases(3, |i| match i {
        0 => seq(2, &[Idle, Remove(1), Remove(1), Remove(0), Idle]),
        1 => seq(2, &[Remove(0), Remove(1), Activate, Idle]),
        _ => seq(2, &[Remove(1), Idle, Idle, Pop, Idle]),
    })
});
harness!(c15_pop, t, 40, 1, "two records, popped or collected while idling and before", {
    cases(3, |i| match i {
        0 => seq(2, &[Idle, Pop, Activate, Pop]),
        1 => seq(2, &[Idle, Collect]),
        _ => seq(2, &[Collect, Idle]),
    })
});

/// Any sequence of steps.
fn any(procs: &procs::SharedProcs, sub: &mut procs::NotificationSub, m: Model, n: usize) {
    if n == 0 {
        crate::reach!("sequence");
        return;
    }
    let c = nd::u8();
    let mut i = 0;
    while i < 6 {
        if c == i {
            let op = match i {
                0 => Idle,
                1 => End,
                2 => Activate,
                3 => Remove(0),
                4 => Remove(1),
                _ => Pop,
            };
            let mut m = m;
            step(procs, sub, &mut m, op);
            any(procs, sub, m, n - 1);
            done();
        }
        i += 1;
    }
}
harness!(c15_any2, q, 40, 1, "every sequence of two of: idle, done, activate, remove a, remove b, pop; two records", {
    let (procs, mut sub, m) = setup(2);
    any(&procs, &mut sub, m, 2)
});
harness!(c15_any_idle, t, 40, 1, "every sequence of two of them while idling with one record", {
    let (procs, mut sub, mut m) = setup(1);
    step(&procs, &mut sub, &mut m, Idle);
    any(&procs, &mut sub, m, 2)
});
harness!(c15_any3, t, 40, 1, "every sequence of three of them; two records", {
    let (procs, mut sub, m) = setup(2);
    any(&procs, &mut sub, m, 3)
});

/// A running process keeps an idling procstar from being done; it is done once the process has
/// ended and its record is removed.
harness!(c15_running, q, 40, 1, "a running and an ended process while idling", {
    boot();
    let procs = procs::SharedProcs::new();
    procs.insert(st("a"), record_in(100, Running));
    procs.insert(st("b"), record_in(101, Ended));
    let mut sub = procs.subscribe();
    let mut m = Model { stage: b'0', present: [true; 2] };
    step(&procs, &mut sub, &mut m, Idle);
    step(&procs, &mut sub, &mut m, Remove(1));
    assert!(procs.remove_if_not_running(&st("a")).is_err());
    check(&procs, &mut sub, m.stage, &m, false);
    procs.get("a").unwrap().borrow_mut().wait_info = Some(ended(100, 0));
    check(&procs, &mut sub, m.stage, &m, false);
    step(&procs, &mut sub, &mut m, Remove(0));
    assert!(m.stage == b'2');
    crate::reach!("done");
});
/// Subscribers that have gone away do no harm.
harness!(c15_gone, q, 40, 1, "a subscriber that has gone away, and a second one", {
    let (procs, mut sub, mut m) = setup(1);
    drop(procs.subscribe());
    let mut sub2 = procs.subscribe();
    step(&procs, &mut sub, &mut m, Idle);
    step(&procs, &mut sub, &mut m, Pop);
    check(&procs, &mut sub2, b'0', &m, false);
    crate::reach!("announced");
});

/// A start request to a procstar that is shutting down.
fn refused(s: shutdown::State, n: usize, msg: bool) {
    let (procs, mut sub, mut m) = setup(n);
    step(&procs, &mut sub, &mut m, if stage(&s) == b'1' { Idle } else { End });
    let specs = two(proc_spec(strs(&["/x"])), proc_spec(strs(&["/y"])));
    let mut specs2 = spec::Procs::new();
    specs2.insert(st("c"), specs.get("a").unwrap().clone());
    if msg {
        match rt::block(proto::handle_incoming(&procs, IncomingMessage::ProcStartRequest { specs: specs2 })) {
            Some(OutgoingMessage::RequestError { msg, .. }) => match msg {
                IncomingMessage::ProcStartRequest { specs } => assert!(specs.contains_key("c"), "the error carries another request"),
                _ => panic!("the error carries another request"),
            },
            _ => panic!("a start request isn't refused"),
        }
    } else {
        assert!(procs::start_procs(specs2, &procs).is_err(), "a start request isn't refused");
    }
    assert!(k().forks == 0, "a process is created");
    assert!(procs.len() == n, "a process is recorded");
    check(&procs, &mut sub, m.stage, &m, false);
    crate::reach!("refused");
    done()
}
harness!(c15_start, q, 40, 1, "start while idling with one record, done with none, done with two left", {
    cases(3, |i| match i {
        0 => refused(Idling, 1, false),
        1 => refused(Done, 0, false),
        _ => refused(Done, 2, false),
    })
});
harness!(c15_msg, q, 40, 1, "agent request to start while idling and done", {
    cases(2, |i| match i {
        0 => refused(Idling, 2, true),
        _ => refused(Done, 1, true),
    })
});
