pub mod broadcast;
pub mod mpsc;
pub mod oneshot;
pub mod watch;

use std::cell::{Cell, UnsafeCell};
use std::task::Poll;

/// Wakes one waiter, or the next one to wait.
pub struct Notify {
    permit: Cell<bool>,
    gen: Cell<u32>,
}
impl Notify {
    pub fn new() -> Self {
        Notify { permit: Cell::new(false), gen: Cell::new(0) }
    }
    pub fn notify_one(&self) {
        self.permit.set(true)
    }
    pub fn notify_waiters(&self) {
        self.gen.set(self.gen.get() + 1)
    }
    pub async fn notified(&self) {
        let gen = self.gen.get();
        std::future::poll_fn(|_| {
            if self.gen.get() != gen {
                Poll::Ready(())
            } else if self.permit.get() {
                self.permit.set(false);
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        })
        .await
    }
}
