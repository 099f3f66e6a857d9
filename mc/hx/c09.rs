//! C09: every failure to start a program is reported and never half-starts it.
//% outside: messages longer than 65535 bytes; failures of close(); two injected failures in one child; more than two processes per request
//% assume: message texts are not modelled when they come from the child's own steps
//% unwindset: memcmp=9
use super::common::*;
use spec::Fd::*;

/// How many failing steps are due to the spec itself.
static mut BY_SPEC: (usize, u64) = (0, 0x6d63_5b1c7701);
static mut EXEC_FAILS: (bool, u64) = (false, 0x6d63_2f80d6e9);
static mut GO_ON: (Option<fn(usize, &[u8])>, u64) = (None, 0x6d63_a61f0c35);

/// The pipe with messages in it, and how many there are.
fn messages(k: &Kernel) -> (usize, usize) {
    let mut n = 0;
    let mut which = NFD;
    let mut i = 0;
    while i < k.pipes.len() {
        let b = &k.pipes[i].bytes;
        if b.len() > 0 {
            assert!(which == NFD, "messages in two pipes");
            which = i;
            let mut at = 0;
            while at < b.len() {
                assert!(at + 2 <= b.len(), "a message is cut off");
                let len = b[at] as usize + 256 * b[at + 1] as usize;
                assert!(len > 0, "an empty message");
                at += 2 + len;
                assert!(at <= b.len(), "a message is cut off");
                n += 1;
            }
        }
        i += 1;
    }
    (which, n)
}
fn hooks() {
    k().on_exec = Some(|k, _| {
        assert!(k.faults_hit == 0 && unsafe { BY_SPEC.0 } == 0, "the program is executed though a step has failed");
        crate::reach!("executed");
    });
    k().on_child_exit = Some(|k, code| {
        let want = unsafe { BY_SPEC.0 } + k.faults_hit as usize;
        let want = if want == 0 && unsafe { EXEC_FAILS.0 } { 1 } else { want };
        assert!(want > 0, "the program is not executed though nothing has failed");
        assert!(code != 0, "the child ends with success");
        let (which, n) = messages(k);
        assert!(n >= want, "a failed step isn't reported");
        assert!(n <= want, "a failure is reported twice, or one that didn't happen");
        crate::reach!("reported");
        if let Some(f) = unsafe { GO_ON.0 } {
            let bytes = k.pipes[which].bytes.clone();
            f(which, &bytes);
        }
    });
}
fn p(f: &[(&str, spec::Fd)]) -> spec::Proc {
    fds(proc_spec(strs(&["/x"])), f)
}
/// The `at`-th call fails, in the child or in procstar.
fn fault(specs: spec::Procs, follow: i32, by_spec: usize, at: u32, in_child: bool) {
    boot();
    k().follow_child = follow;
    k().fault_at = at;
    k().fault_where = if in_child { 2 } else { 1 };
    unsafe { BY_SPEC.0 = by_spec };
    hooks();
    let procs = procs::SharedProcs::new();
    let r = procs::start_procs(specs, &procs);
    assert!(k().faults_hit > 0 || k().forks == 0, "not all processes are started");
    assert!(r.is_err(), "a process isn't started, and no error is reported");
    crate::reach!("refused");
}
harness!(c09_child, q, 40, 1, "the first to third call of the child fails: memory capture, duplicate, session", {
    cases(3, |i| fault(one(p(&[("1", memory()), ("2", dup(1))])), 1, 0, i as u32 + 1, true))
});
harness!(c09_child_files, t, 40, 1, "the first to fourth call of the child fails: temporary file, file", {
    cases(4, |i| fault(one(p(&[("1", tempfile()), ("4", file("/f"))])), 1, 0, i as u32 + 1, true))
});
harness!(c09_child_pipes, q, 40, 1, "the first to third call of the child fails: write and read end of a pipe", {
    cases(3, |i| fault(one(p(&[("1", PipeWrite), ("0", reader("a", "1"))])), 1, 0, i as u32 + 1, true))
});
harness!(c09_child_null, t, 40, 1, "the first to fourth call of the child fails: null, session; no failure", {
    cases(4, |i| fault(one(p(&[("0", null())])), 1, 0, i as u32 + 1, true))
});
harness!(c09_spec, t, 40, 1, "two duplicates of descriptors that aren't open; none or one of the child's other calls fails", {
    cases(3, |i| fault(one(p(&[("4", dup(6)), ("2", dup(1)), ("5", dup(7))])), 1, 2, 2 * i as u32, true))
});
harness!(c09_parent, q, 40, 1, "the first to fourth call of procstar fails: error pipe, memory capture", {
    cases(4, |i| fault(one(p(&[("1", memory())])), 1, 0, i as u32 + 1, false))
});
harness!(c09_parent_file, q, 40, 1, "the first to fourth call of procstar fails: error pipe, temporary file, fork", {
    cases(4, |i| fault(one(p(&[("2", tempfile())])), 1, 0, i as u32 + 1, false))
});
harness!(c09_parent_more, t, 40, 1, "the fifth to eighth call of procstar fails: raised pipes", {
    cases(4, |i| fault(one(p(&[("4", memory()), ("7", null())])), 1, 0, i as u32 + 5, false))
});

fn exec_fails(e: i32, mut p: spec::Proc, nul: bool) {
    boot();
    k().follow_child = 1;
    k().exec_errno = e;
    unsafe { EXEC_FAILS.0 = true };
    if nul {
        unsafe { mcenv::cstr::CHECK_NUL.0 = true };
    }
    hooks();
    _ = procs::start_procs(one(p), &procs::SharedProcs::new());
    panic!("no process is started")
}
harness!(c09_exec, q, 40, 1, "the execution fails; the executable or an argument contains NUL", {
    cases(3, |i| match i {
        0 => exec_fails(2, p(&[("1", memory())]), false),
        1 => exec_fails(0, proc_spec(std::vec::Vec::from([st("/\0x"), st("y")])), true),
        _ => exec_fails(0, proc_spec(std::vec::Vec::from([st("/x"), st("y"), st("\0")])), true),
    })
});

/// What the child has reported ends up in the record, which is in the error state before and
/// after the child is reaped, and is announced as not running once.
fn to_the_end(specs: fn() -> spec::Procs, by_spec: usize, fault_at: u32) {
    boot();
    k().follow_child = 1;
    k().fault_at = fault_at;
    k().fault_where = 2;
    unsafe {
        BY_SPEC.0 = by_spec;
        SPECS.0 = Some(specs);
        GO_ON.0 = Some(parent);
    }
    hooks();
    _ = procs::start_procs(specs(), &procs::SharedProcs::new());
    panic!("no process is started")
}
static mut SPECS: (Option<fn() -> spec::Procs>, u64) = (None, 0x6d63_90ab3c2e);
fn parent(which: usize, bytes: &[u8]) {
    let n = unsafe { BY_SPEC.0 } + k().faults_hit as usize;
    reboot();
    k().fault_at = 0;
    let procs = procs::SharedProcs::new();
    let mut sub = procs.subscribe();
    assert!(procs::start_procs(unsafe { SPECS.0.unwrap() }(), &procs).is_ok());
    k().pipes[which].bytes = bytes.to_vec();
    k().on_wait = Some(|pid, _| (pid, 63 << 8));
    expect(&mut sub, b'S', "a");
    rt::run_rounds(2);
    let proc = procs.get("a").unwrap();
    assert!(proc.borrow().get_state() == state::State::Error, "the process isn't in the error state");
    expect_none(&mut sub);
    tokio::signal::unix::deliver(17);
    rt::run_rounds(3);
    let proc = proc.borrow();
    assert!(proc.get_state() == state::State::Error, "the process isn't in the error state");
    assert!(proc.errors.len() == n, "a failed step isn't reported in the record");
    assert!(proc.errors[0].len() > 0, "an empty message");
    assert!(proc.wait_info.is_some(), "the child isn't reaped");
    expect(&mut sub, b'N', "a");
    expect_none(&mut sub);
    crate::reach!("recorded");
    done()
}
harness!(c09_record, q, 40, 2, "one failing duplicate, to the process's record", { to_the_end(|| one(p(&[("4", dup(6))])), 1, 0) });
harness!(c09_record_two, t, 40, 2, "a failing duplicate and a failing setsid, to the process's record", { to_the_end(|| one(p(&[("4", dup(6))])), 1, 2) });

/// How the bytes of the error pipe arrive: a read ends after the i-th byte if bit i is set, and
/// a read that finds nothing comes between if `W` is set.
static mut M: (u32, u64) = (0, 0x6d63_6e0d51f8);
static mut AT: (u32, u64) = (0, 0x6d63_6e0d51f9);
static mut W: (bool, u64) = (false, 0x6d63_6e0d51fa);
static mut LAST: (bool, u64) = (false, 0x6d63_6e0d51fb);
fn chunks(_: u8, avail: usize) -> tokio_pipe::ReadStep {
    unsafe {
        if W.0 && !LAST.0 {
            LAST.0 = true;
            return tokio_pipe::ReadStep::Wait;
        }
        LAST.0 = false;
        if avail == 0 {
            return tokio_pipe::ReadStep::End;
        }
        let mut n = 1;
        while n < avail && M.0 >> (AT.0 + n as u32 - 1) & 1 == 0 {
            n += 1;
        }
        AT.0 += n as u32;
        tokio_pipe::ReadStep::Bytes(n)
    }
}
/// Messages written one after the other, with writes of up to `max` bytes, arrive as written.
fn messages_arrive(msgs: &[usize], max: usize, mask: u32, wait: bool) {
    boot();
    k().write_max = max;
    let writer = err_pipe::ErrorPipe::new(3).unwrap().in_child().unwrap();
    let mut sent = Vec::new();
    let mut i = 0;
    while i < msgs.len() {
        let m = sym(msgs[i]);
        assert!(writer.write(m.clone()).is_ok());
        sent.push(m);
        i += 1;
    }
    let bytes = k().pipes[0].bytes.clone();
    receive(bytes, &sent, mask, wait, 0);
}
fn receive(bytes: Vec<u8>, sent: &Vec<String>, mask: u32, wait: bool, more: usize) {
    let pipe = err_pipe::ErrorPipe::new(3).unwrap();
    let id = k().pipes.len() - 1;
    k().pipes[id].bytes = bytes;
    unsafe {
        M.0 = mask;
        W.0 = wait;
        tokio_pipe::ON_READ.0 = Some(chunks);
        std::stubs::ALL_UTF8.0 = true;
    }
    let got = rt::block(pipe.in_parent());
    assert!(got.len() == sent.len() + more, "messages are lost, or there are others");
    let mut i = 0;
    while i < sent.len() {
        assert!(same(got[i].as_bytes(), sent[i].as_bytes()), "a message has been altered");
        i += 1;
    }
    crate::reach!("received");
    done()
}
harness!(c09_arrive_ends, t, 40, 1, "messages of 2 and 1 arbitrary characters: in one piece, in single bytes", {
    cases(4, |i| messages_arrive(&[2, 1], if i < 2 { 0 } else { 1 }, if i % 2 == 0 { 0 } else { 0xff }, i == 3))
});
harness!(c09_arrive_one, q, 40, 1, "messages of 1 and 1 arbitrary characters, in two pieces, cut anywhere", {
    cases(5, |i| messages_arrive(&[1, 1], 0, 1 << i, false))
});
harness!(c09_arrive_all, t, 40, 1, "messages of 1 and 1 arbitrary characters, in several pieces, waiting in between, writes of up to 3 bytes", {
    cases(8, |i| messages_arrive(&[1, 1], 3, 4 * i as u32 + 1, true))
});
harness!(c09_cut, q, 40, 1, "a pipe that ends within the length or the text of the second message: the first one is kept", {
    cases(3, |i| {
        boot();
        let m = sym(1);
        let mut b = std::vec::Vec::from([1, 0, m.as_bytes()[0], 2]);
        if i > 0 {
            b.push(0);
        }
        if i > 1 {
            b.push(nd::u8());
        }
        let sent = std::vec::Vec::from([m]);
        receive(b, &sent, 0, false, if i == 0 { 0 } else { 1 })
    })
});
