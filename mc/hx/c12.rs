//! C12: a process record can be deleted exactly when the process is not running.
//% outside: more than three processes; deletions over HTTP (see C19)
//% unwindset: memcmp=4
//% assume: none
use super::common::*;
use proto::{IncomingMessage, OutgoingMessage};
use Rec::*;

fn nm(i: usize) -> &'static str {
    match i {
        0 => "a",
        1 => "b",
        2 => "c",
        _ => "ab",
    }
}

fn setup(s: &[Rec]) -> (procs::SharedProcs, procs::NotificationSub) {
    boot();
    let procs = procs::SharedProcs::new();
    let mut i = 0;
    while i < s.len() {
        procs.insert(st(nm(i)), record_in(100 + i as i32, s[i]));
        i += 1;
    }
    let sub = procs.subscribe();
    (procs, sub)
}
/// Exactly the processes that are present are listed, and are the ones inserted.
fn listed(procs: &procs::SharedProcs, present: &[bool]) {
    let ids = procs.get_proc_ids::<Vec<_>>();
    let mut n = 0;
    let mut i = 0;
    while i < present.len() {
        let p = procs.get(nm(i));
        assert!(p.is_some() == present[i], "a process is missing or still found");
        if let Some(p) = p {
            assert!(p.borrow().pid == 100 + i as i32, "an id names another process");
            assert!(n < ids.len() && same(ids[n].as_bytes(), nm(i).as_bytes()), "the list of ids is wrong");
            n += 1;
        }
        i += 1;
    }
    assert!(ids.len() == n, "the list has further ids");
    assert!(procs.len() == n, "the number of processes is wrong");
}
fn delete(procs: &procs::SharedProcs, sub: &mut procs::NotificationSub, id: usize, s: &[Rec], present: &mut [bool]) {
    let name = nm(id);
    let r = procs.remove_if_not_running(&st(name));
    if id >= s.len() || !present[id] {
        match r {
            Err(err::Error::NoProcId(i)) => assert!(same(i.as_bytes(), name.as_bytes()), "another id is reported"),
            _ => panic!("an unknown process isn't reported as such"),
        }
    } else if s[id] == Running {
        match r {
            Err(err::Error::ProcRunning(i)) => assert!(same(i.as_bytes(), name.as_bytes()), "another id is reported"),
            _ => panic!("a running process isn't reported as such"),
        }
    } else {
        match r {
            Ok(p) => assert!(p.borrow().pid == 100 + id as i32, "another process is removed"),
            Err(_) => panic!("a process that isn't running can't be deleted"),
        }
        present[id] = false;
        expect(sub, b'D', name);
    }
    expect_none(sub);
    listed(procs, present);
}
fn seq(s: &[Rec], ids: &[usize]) {
    let (procs, mut sub) = setup(s);
    let mut present = [true; 3];
    let mut i = 0;
    while i < ids.len() {
        delete(&procs, &mut sub, ids[i], s, &mut present[..s.len()]);
        i += 1;
    }
    crate::reach!("deleted");
    done()
}
harness!(c12_running, q, 40, 1, "three running processes: delete each, and an unknown one", { seq(&[Running, Running, Running], &[0, 1, 2, 3]) });
harness!(c12_ended, q, 40, 1, "three ended processes, deleted in turn, each twice", { seq(&[Ended, Ended, Ended], &[1, 1, 0, 0, 2, 2]) });
harness!(c12_mixed, t, 40, 1, "running, failed and not reaped, ended", { seq(&[Running, Failed, Ended], &[2, 0, 1, 3, 0]) });
harness!(c12_failed, t, 40, 1, "failed and reaped, running, failed", { seq(&[FailedEnded, Running, Failed], &[1, 0, 1, 2, 1]) });
harness!(c12_last, q, 40, 1, "running, running, ended", { seq(&[Running, Running, Ended], &[0, 2, 1, 2]) });
harness!(c12_first, t, 40, 1, "ended, running, running", { seq(&[Ended, Running, Running], &[1, 0, 2, 0]) });

/// Every order of two or three deletions of three processes; a recursion, so that all is
/// concrete on every path.
fn any(procs: &procs::SharedProcs, sub: &mut procs::NotificationSub, s: &[Rec], present: [bool; 3], n: usize) {
    if n == 0 {
        crate::reach!("sequence");
        return;
    }
    let c = nd::u8();
    let mut i = 0;
    while i < 3 {
        if c == i as u8 {
            let mut p = present;
            delete(procs, sub, i, s, &mut p);
            any(procs, sub, s, p, n - 1);
            done();
        }
        i += 1;
    }
}
harness!(c12_any_rex, q, 40, 1, "every sequence of two deletions; running, ended, failed", {
    let s = [Running, Ended, Failed];
    let (procs, mut sub) = setup(&s);
    any(&procs, &mut sub, &s, [true; 3], 2)
});
harness!(c12_any3, t, 40, 1, "every sequence of three deletions; ended, running, failed", {
    let s = [Ended, Running, Failed];
    let (procs, mut sub) = setup(&s);
    any(&procs, &mut sub, &s, [true; 3], 3)
});

/// The id of a deleted process can be used again, and the new record is another.
harness!(c12_reuse, q, 40, 1, "delete, start again under the same id, delete", {
    let (procs, mut sub) = setup(&[Ended, Running]);
    let mut present = [true; 2];
    delete(&procs, &mut sub, 0, &[Ended, Running], &mut present);
    procs.insert(st("a"), record_in(100, Running));
    expect(&mut sub, b'S', "a");
    present[0] = true;
    listed(&procs, &present);
    delete(&procs, &mut sub, 0, &[Running, Running], &mut present);
    procs.get("a").unwrap().borrow_mut().wait_info = Some(ended(100, 0));
    delete(&procs, &mut sub, 0, &[Ended, Running], &mut present);
    crate::reach!("reused");
});
/// Two subscribers, one of which has gone away.
harness!(c12_subscribers, t, 40, 1, "every subscriber learns of a deletion; one that has gone away does no harm", {
    let (procs, mut sub) = setup(&[Ended, Running]);
    let gone = procs.subscribe();
    let mut sub2 = procs.subscribe();
    drop(gone);
    let mut present = [true; 2];
    delete(&procs, &mut sub, 0, &[Ended, Running], &mut present);
    expect(&mut sub2, b'D', "a");
    expect_none(&mut sub2);
    crate::reach!("announced");
});

fn message(s: &[Rec], id: usize) {
    let (procs, mut sub) = setup(s);
    let name = nm(id);
    let m = IncomingMessage::ProcDeleteRequest { proc_id: st(name) };
    let rsp = rt::block(proto::handle_incoming(&procs, m));
    let mut present = [true; 3];
    if id == 3 {
        match rsp {
            Some(OutgoingMessage::ProcUnknown { proc_id }) => assert!(same(proc_id.as_bytes(), name.as_bytes()), "another process is reported unknown"),
            _ => panic!("an unknown process isn't reported as such"),
        }
    } else if s[id] == Running {
        match rsp {
            Some(OutgoingMessage::RequestError { msg, .. }) => match msg {
                IncomingMessage::ProcDeleteRequest { proc_id } => assert!(same(proc_id.as_bytes(), name.as_bytes()), "another request is reported as failed"),
                _ => panic!("the error doesn't carry the request"),
            },
            _ => panic!("a running process isn't reported as such"),
        }
    } else {
        assert!(rsp.is_none(), "a deletion isn't accepted");
        present[id] = false;
        expect(&mut sub, b'D', name);
    }
    expect_none(&mut sub);
    listed(&procs, &present[..s.len()]);
    crate::reach!("answered");
    done()
}
harness!(c12_msg_running, t, 40, 1, "agent request for a running process", { message(&[Ended, Running, Ended], 1) });
harness!(c12_msg_ended, q, 40, 1, "agent request for an ended process", { message(&[Running, Running, Ended], 2) });
harness!(c12_msg_failed, t, 40, 1, "agent request for a failed process", { message(&[Failed, Running], 0) });
harness!(c12_msg_unknown, q, 40, 1, "agent request for an unknown process", { message(&[Ended, Ended], 3) });
