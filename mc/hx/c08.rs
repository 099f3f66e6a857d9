//! C08: requests for ranges of captured data are exact and harmless.
//% outside: captures of more than 3 bytes; failures of the reading itself
//% unwindset: memcmp=8
use super::common::*;
use proto::{IncomingMessage, OutgoingMessage};

/// One process "a" with a capture of descriptor 1 and none of 2; `n` bytes have arrived.
fn start(c: spec::Fd, n: usize) -> (procs::SharedProcs, Vec<u8>) {
    boot();
    let mut pipes = fd::Pipes::new(3);
    let h1 = fd::SharedFdHandler::new(&st("a"), 1, c, &mut pipes).unwrap();
    let h2 = fd::SharedFdHandler::new(&st("a"), 2, null(), &mut pipes).unwrap();
    assert!(h1.in_parent().is_ok());
    let p = procs::Proc::new(100, chrono::Utc::now(), std::time::Instant::now(), std::vec::Vec::from([(1, h1), (2, h2)]));
    let procs = procs::SharedProcs::new();
    procs.insert(st("a"), std::rc::Rc::new(std::cell::RefCell::new(p)));
    unsafe { tokio_pipe::ON_READ.0 = Some(reads) };
    let mut data = Vec::new();
    arrive(&mut data, n);
    (procs, data)
}
/// The process hasn't closed its end.
fn reads(_: u8, avail: usize) -> tokio_pipe::ReadStep {
    if avail > 0 { tokio_pipe::ReadStep::Bytes(avail) } else { tokio_pipe::ReadStep::Wait }
}
/// The process writes `n` more bytes.
fn arrive(data: &mut Vec<u8>, n: usize) {
    let mut i = 0;
    while i < n {
        let b = nd::u8();
        data.push(b);
        if k().pipes.len() > 0 {
            k().pipes[0].bytes.push(b);
        } else {
            k().tmps[0].bytes.push(b);
            k().tmps[0].off += 1;
        }
        i += 1;
    }
    rt::run_rounds(2);
}
fn undisturbed(data: &[u8]) {
    if k().tmps.len() > 0 {
        let t = &k().tmps[0];
        assert!(t.seeks == 0 && t.off == data.len(), "the process's file position is changed");
        assert!(same(&t.bytes, data), "the captured output is changed");
    }
}
fn ask(procs: &procs::SharedProcs, id: &str, fd: &str, start: i64, stop: Option<i64>) -> Option<OutgoingMessage> {
    let m = IncomingMessage::ProcFdDataRequest { proc_id: st(id), fd: st(fd), start, stop };
    rt::block(proto::handle_incoming(procs, m))
}
/// The answer is the output from `from` to `to`.
fn exact(m: Option<OutgoingMessage>, fd: &str, enc: Option<spec::CaptureEncoding>, data: &[u8], start: i64, from: usize, to: usize) {
    match m {
        Some(OutgoingMessage::ProcFdData { proc_id, fd: f, start: a, stop: b, encoding, data: d }) => {
            assert!(same(proc_id.as_bytes(), b"a") && same(f.as_bytes(), fd.as_bytes()), "the answer is for another descriptor");
            assert!(encoding.is_some() == enc.is_some(), "the answer has another encoding");
            assert!(d.len() == to - from, "the answer has too many or too few bytes");
            assert!(same(&d, &data[from..to]), "the answer has other bytes");
            assert!(a == start, "the answer has another start position");
            assert!(b as i128 == start as i128 + (to - from) as i128, "the answer has another stop position");
        }
        _ => panic!("no data is returned"),
    }
}
/// The same without a message.
fn direct(procs: &procs::SharedProcs, data: &[u8], enc: Option<spec::CaptureEncoding>, start: usize, stop: Option<usize>, from: usize, to: usize) {
    let p = procs.get("a").unwrap();
    let p = p.borrow();
    match p.get_fd_data(1, start, stop) {
        Ok(Some(d)) => {
            assert!(d.encoding.is_some() == enc.is_some(), "the answer has another encoding");
            assert!(d.data.len() == to - from, "the answer has too many or too few bytes");
            assert!(same(&d.data, &data[from..to]), "the answer has other bytes");
        }
        _ => assert!(stop.is_some_and(|s| s < start), "no data is returned"),
    }
}
/// No answer with data in it.
fn refused(m: Option<OutgoingMessage>) {
    match m {
        Some(OutgoingMessage::RequestError { .. }) => (),
        Some(OutgoingMessage::ProcFdData { data, .. }) => assert!(data.len() == 0, "data for an invalid range"),
        _ => panic!("another answer"),
    }
}
/// No data: the range is beyond the end.
fn nothing(m: Option<OutgoingMessage>, start: i64) {
    match m {
        Some(OutgoingMessage::RequestError { .. }) => (),
        Some(OutgoingMessage::ProcFdData { start: a, stop: b, data, .. }) => {
            assert!(data.len() == 0, "data beyond the end");
            assert!(a == start && b == start, "positions that don't match the data");
        }
        _ => panic!("another answer"),
    }
}
fn stop_of(c: u8) -> Option<i64> {
    if c == 0 { None } else { Some(c as i64 - 1) }
}
/// All ranges in and around the output, with small numbers; by message, some of them.
fn inside(c: fn() -> spec::Fd, enc: Option<spec::CaptureEncoding>, n: usize) -> ! {
    let m = n as u8 + 1;
    let (procs, data) = start(c(), n);
    // Starts 0 to n, stops none and 0 to n+1.
    cases(m * (m + 2), |i| {
        let from = (i % m) as usize;
        let stop = stop_of(i / m).map(|s| s as usize);
        let to = n.min(stop.unwrap_or(n));
        direct(&procs, &data, enc, from, stop, from.min(to), to);
        undisturbed(&data);
        // The next one is answered in full.
        direct(&procs, &data, enc, 0, None, 0, n);
        undisturbed(&data);
        crate::reach!("answered");
        done()
    })
}
fn by_message(c: fn() -> spec::Fd, enc: Option<spec::CaptureEncoding>) -> ! {
    let (procs, data) = start(c(), 3);
    cases(4, |i| {
        match i {
            0 => exact(ask(&procs, "a", "stdout", 0, None), "stdout", enc, &data, 0, 0, 3),
            1 => exact(ask(&procs, "a", "1", 1, Some(2)), "1", enc, &data, 1, 1, 2),
            2 => exact(ask(&procs, "a", "1", 1, None), "1", enc, &data, 1, 1, 3),
            _ => exact(ask(&procs, "a", "1", 2, Some(2)), "1", enc, &data, 2, 2, 2),
        }
        undisturbed(&data);
        crate::reach!("answered");
        done()
    })
}
fn text(mode: spec::CaptureMode) -> spec::Fd {
    spec::Fd::Capture { mode, encoding: Some(spec::CaptureEncoding::Utf8), attached: false }
}
fn text_memory() -> spec::Fd {
    text(spec::CaptureMode::Memory)
}
fn text_file() -> spec::Fd {
    text(spec::CaptureMode::TempFile)
}
const UTF8: Option<spec::CaptureEncoding> = Some(spec::CaptureEncoding::Utf8);
harness!(c08_memory, q, 40, 1, "memory capture of 3 arbitrary bytes: some ranges, by message", { by_message(memory, None) });
harness!(c08_file, q, 40, 1, "temporary file of 3 arbitrary bytes: some ranges, by message", { by_message(tempfile, None) });
harness!(c08_memory_text, q, 40, 1, "detached text memory capture of 2 arbitrary bytes: starts 0 to 2, stops none and 0 to 3", { inside(text_memory, UTF8, 2) });
harness!(c08_file_text, q, 40, 1, "detached text temporary file of 2 arbitrary bytes: starts 0 to 2, stops none and 0 to 3", { inside(text_file, UTF8, 2) });
harness!(c08_memory_three, t, 40, 1, "memory capture of 3 arbitrary bytes: starts 0 to 3, stops none and 0 to 4", { inside(memory, None, 3) });
harness!(c08_file_three, t, 40, 1, "temporary file of 3 arbitrary bytes: starts 0 to 3, stops none and 0 to 4", { inside(tempfile, None, 3) });

/// Ranges with any numbers.
fn outside(c: fn() -> spec::Fd, enc: Option<spec::CaptureEncoding>) -> ! {
    let (procs, data) = start(c(), 2);
    cases(4, |i| {
        let a = nd::i64();
        let b = nd::i64();
        let stop = if nd::bool() { Some(b) } else { None };
        match i {
            0 => {
                nd::assume(a < 0 || stop.is_some() && b < a);
                refused(ask(&procs, "a", "1", a, stop));
            }
            1 => {
                nd::assume(a >= 2 && (stop.is_none() || b >= a));
                nothing(ask(&procs, "a", "1", a, stop), a);
            }
            2 => {
                nd::assume(b >= 2);
                exact(ask(&procs, "a", "1", 0, Some(b)), "1", enc, &data, 0, 0, 2);
            }
            _ => {
                nd::assume(b >= 2);
                exact(ask(&procs, "a", "1", 1, Some(b)), "1", enc, &data, 1, 1, 2);
            }
        }
        undisturbed(&data);
        direct(&procs, &data, enc, 0, None, 0, 2);
        undisturbed(&data);
        crate::reach!("answered");
        done()
    })
}
harness!(c08_memory_any, q, 40, 1, "memory capture of 2 bytes: all 64-bit starts and stops, negative, reversed, beyond the end", { outside(memory, None) });
harness!(c08_file_any, q, 40, 1, "temporary file of 2 bytes: all 64-bit starts and stops, negative, reversed, beyond the end", { outside(text_file, UTF8) });

/// What is written after a request is captured like what was before.
fn later(c: fn() -> spec::Fd, n: usize, first: u8) -> ! {
    cases(2, |i| {
        let (procs, mut data) = start(c(), n);
        match first + i {
            0 => exact(ask(&procs, "a", "1", 0, None), "1", None, &data, 0, 0, n),
            1 => refused(ask(&procs, "a", "1", -1, Some(-2))),
            2 => nothing(ask(&procs, "a", "1", n as i64 + 1, Some(i64::MAX)), n as i64 + 1),
            _ => exact(ask(&procs, "a", "1", 0, Some(1)), "1", None, &data, 0, 0, n.min(1)),
        }
        arrive(&mut data, 1);
        exact(ask(&procs, "a", "1", n as i64, Some(n as i64 + 9)), "1", None, &data, n as i64, n, n + 1);
        arrive(&mut data, 1);
        undisturbed(&data);
        direct(&procs, &data, None, 0, None, 0, n + 2);
        undisturbed(&data);
        direct(&procs, &data, None, 1, None, 1, n + 2);
        crate::reach!("answered");
        done()
    })
}
harness!(c08_memory_later, q, 40, 1, "memory capture: requests between the arrival of 1, 1 and 1 bytes", { later(memory, 1, 0) });
harness!(c08_file_later, q, 40, 1, "temporary file: requests between the arrival of 1, 1 and 1 bytes", { later(tempfile, 1, 0) });
harness!(c08_memory_late, q, 40, 1, "memory capture: requests, beyond the end too, between the arrival of 1, 1 and 1 bytes", { later(memory, 1, 2) });
harness!(c08_file_late, t, 40, 1, "temporary file: requests, beyond the end too, between the arrival of 1, 1 and 1 bytes", { later(tempfile, 1, 2) });
harness!(c08_memory_empty, t, 40, 1, "memory capture: requests between the arrival of 0, 1 and 1 bytes", { later(memory, 0, 0) });
harness!(c08_file_empty, t, 40, 1, "temporary file: requests between the arrival of 0, 1 and 1 bytes", { later(tempfile, 0, 2) });

harness!(c08_unknown, q, 40, 1, "an unknown process, an unknown descriptor, one that isn't captured and one that isn't valid", { unknown(1, 4) });
harness!(c08_unknown_more, t, 40, 1, "more unknown processes and descriptors", { unknown(5, 3) });
fn unknown(first: u8, n: u8) -> ! {
    let (procs, data) = start(memory(), 1);
    cases(n, |i| {
        let i = first + i;
        let (id, fd) = match i {
            7 => ("b", "1"),
            1 => ("aa", "1"),
            2 => ("a", "2"),
            3 => ("a", "3"),
            4 => ("a", "x"),
            5 => ("a", "-1"),
            _ => ("", "0"),
        };
        let first_ok = i == 1 || i > 5;
        let m = ask(&procs, id, fd, 0, if nd::bool() { Some(1) } else { None });
        if first_ok {
            match m {
                Some(OutgoingMessage::ProcUnknown { proc_id }) => assert!(same(proc_id.as_bytes(), id.as_bytes())),
                _ => panic!("an unknown process isn't reported"),
            }
        } else {
            match m {
                Some(OutgoingMessage::RequestError { .. }) => (),
                _ => panic!("an invalid descriptor isn't reported"),
            }
        }
        direct(&procs, &data, None, 0, None, 0, 1);
        crate::reach!("answered");
        done()
    })
}
