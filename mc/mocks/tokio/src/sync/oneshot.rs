//! A single value.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub mod error {
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct RecvError(pub(super) ());
    impl std::fmt::Display for RecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
}
struct Shared<T> {
    v: Option<T>,
    sender: bool,
    receiver: bool,
}
pub struct Sender<T>(Rc<RefCell<Shared<T>>>);
pub struct Receiver<T>(Rc<RefCell<Shared<T>>>);
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let s = Rc::new(RefCell::new(Shared { v: None, sender: true, receiver: true }));
    (Sender(s.clone()), Receiver(s))
}
impl<T> Sender<T> {
    pub fn send(self, v: T) -> Result<(), T> {
        let mut s = self.0.borrow_mut();
        if s.receiver {
            s.v = Some(v);
            Ok(())
        } else {
            drop(s);
            Err(v)
        }
    }
    pub fn is_closed(&self) -> bool {
        !self.0.borrow().receiver
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.borrow_mut().sender = false;
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.borrow_mut().receiver = false;
    }
}
impl<T> Future for Receiver<T> {
    type Output = Result<T, error::RecvError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.borrow_mut();
        match s.v.take() {
            Some(v) => Poll::Ready(Ok(v)),
            None if !s.sender => Poll::Ready(Err(error::RecvError(()))),
            None => Poll::Pending,
        }
    }
}
