//! The task queue behind the stand-in tokio, and the modelled clock.

use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub type Task = Pin<Box<dyn Future<Output = ()>>>;

pub static mut TASKS: (Vec<Option<Task>>, u64) = (Vec::new(), 0x6d63_4e114f5c);
/// Time in microseconds since start.
pub static mut NOW: (u64, u64) = (0, 0x6d63_ec48c90d);

pub fn tasks() -> &'static mut Vec<Option<Task>> {
    unsafe { &mut *std::ptr::addr_of_mut!(TASKS.0) }
}

pub fn now() -> u64 {
    unsafe { NOW.0 }
}

pub fn set_now(t: u64) {
    unsafe { NOW.0 = t }
}

pub fn spawn(task: Task) {
    tasks().push(Some(task));
}

const fn noop_raw() -> RawWaker {
    RawWaker::new(std::ptr::null(), &VTABLE)
}
fn vt_clone(_: *const ()) -> RawWaker {
    noop_raw()
}
fn vt_nop(_: *const ()) {}
static VTABLE: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_nop, vt_nop, vt_nop);

pub fn waker() -> Waker {
    unsafe { Waker::from_raw(noop_raw()) }
}

/// Polls task `i` once.  Returns whether it is finished (or was already).
pub fn poll_task(i: usize) -> bool {
    let t = match tasks()[i].take() {
        Some(t) => t,
        None => return true,
    };
    let mut t = t;
    let w = waker();
    let mut cx = Context::from_waker(&w);
    match t.as_mut().poll(&mut cx) {
        Poll::Ready(()) => true,
        Poll::Pending => {
            tasks()[i] = Some(t);
            false
        }
    }
}

/// Polls a future once.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}

/// Polls every task, in order, `rounds` times.
pub fn run_rounds(rounds: usize) {
    let mut r = 0;
    while r < rounds {
        let mut i = 0;
        while i < tasks().len() {
            poll_task(i);
            i += 1;
        }
        r += 1;
    }
}

/// Runs a future that never waits on anything to completion.
pub fn block<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    loop {
        if let Poll::Ready(r) = poll_once(f.as_mut()) {
            return r;
        }
    }
}

/// `bin/check` has futures awaited through this.
pub trait McBoxed: core::future::IntoFuture + Sized {
    fn mcboxed(self) -> Pin<Box<Self::IntoFuture>> {
        Box::pin(self.into_future())
    }
}
impl<T: core::future::IntoFuture> McBoxed for T {}
