pub use fakestd::time::{Duration, Instant};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Every duration slept for, in microseconds.
pub static mut SLEEPS: (Vec<u64>, u64) = (Vec::new(), 0x6d63_d5336898);
/// Whether a sleep takes the modelled time (else it ends at its second poll).
pub static mut REAL_SLEEP: (bool, u64) = (true, 0x6d63_736ae249);

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub struct Sleep {
    until: u64,
    polled: bool,
}
fn micros(d: Duration) -> u64 {
    d.as_secs().saturating_mul(1_000_000).saturating_add(d.subsec_micros() as u64)
}
pub fn sleep(d: Duration) -> Sleep {
    let us = micros(d);
    unsafe { (*std::ptr::addr_of_mut!(SLEEPS.0)).push(us) };
    Sleep { until: mcenv::rt::now().saturating_add(us), polled: false }
}
pub fn sleep_until(t: Instant) -> Sleep {
    Sleep { until: t.0, polled: false }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        let done = if unsafe { REAL_SLEEP.0 } { mcenv::rt::now() >= self.until } else { self.polled };
        self.polled = true;
        if done {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

/// The timeouts started: (start, duration), in microseconds.
pub static mut TIMEOUTS: (Vec<(u64, u64)>, u64) = (Vec::new(), 0x6d63_11a25bfa);

pub struct Timeout<F> {
    f: F,
    until: u64,
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    let us = micros(d);
    unsafe { (*std::ptr::addr_of_mut!(TIMEOUTS.0)).push((mcenv::rt::now(), us)) };
    Timeout { f, until: mcenv::rt::now().saturating_add(us) }
}
pub fn timeout_at<F: Future>(t: Instant, f: F) -> Timeout<F> {
    Timeout { f, until: t.0 }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        unsafe {
            let this = self.get_unchecked_mut();
            if let Poll::Ready(v) = Pin::new_unchecked(&mut this.f).poll(cx) {
                return Poll::Ready(Ok(v));
            }
            if mcenv::rt::now() >= this.until {
                Poll::Ready(Err(error::Elapsed(())))
            } else {
                Poll::Pending
            }
        }
    }
}
