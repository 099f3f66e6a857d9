//! A bounded multi-receiver queue: a receiver that falls more than the capacity
//! behind loses the oldest messages and is told so.
use std::cell::RefCell;
use std::rc::Rc;
use std::task::Poll;

pub mod error {
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum RecvError {
        Closed,
        Lagged(u64),
    }
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum TryRecvError {
        Empty,
        Closed,
        Lagged(u64),
    }
    #[derive(Debug)]
    pub struct SendError<T>(pub T);
    impl std::fmt::Display for RecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("recv error")
        }
    }
    impl<T> std::fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
}
use error::*;

/// When nonzero, takes the place of the capacity asked for.
pub static mut CAPACITY: (usize, u64) = (0, 0x6d63_afd9d5ab);

struct Shared<T> {
    q: Vec<T>,
    cap: usize,
    senders: usize,
    receivers: usize,
}
pub struct Sender<T>(Rc<RefCell<Shared<T>>>);
pub struct Receiver<T> {
    s: Rc<RefCell<Shared<T>>>,
    pos: usize,
}
pub fn channel<T: Clone>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let cap = if unsafe { CAPACITY.0 } > 0 { unsafe { CAPACITY.0 } } else { cap };
    let s = Rc::new(RefCell::new(Shared { q: Vec::new(), cap, senders: 1, receivers: 1 }));
    (Sender(s.clone()), Receiver { s, pos: 0 })
}
impl<T: Clone> Sender<T> {
    pub fn send(&self, v: T) -> Result<usize, SendError<T>> {
        let mut s = self.0.borrow_mut();
        if s.receivers == 0 {
            return Err(SendError(v));
        }
        s.q.push(v);
        Ok(s.receivers)
    }
    pub fn subscribe(&self) -> Receiver<T> {
        let mut s = self.0.borrow_mut();
        s.receivers += 1;
        let pos = s.q.len();
        Receiver { s: self.0.clone(), pos }
    }
    pub fn receiver_count(&self) -> usize {
        self.0.borrow().receivers
    }
    pub fn len(&self) -> usize {
        0
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.borrow_mut().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.borrow_mut().senders -= 1;
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.s.borrow_mut().receivers -= 1;
    }
}
impl<T: Clone> Receiver<T> {
    fn get(&mut self) -> Result<T, TryRecvError> {
        let s = self.s.borrow();
        let n = s.q.len();
        if n - self.pos > s.cap {
            let lost = n - self.pos - s.cap;
            self.pos += lost;
            return Err(TryRecvError::Lagged(lost as u64));
        }
        if self.pos < n {
            let v = s.q[self.pos].clone();
            self.pos += 1;
            return Ok(v);
        }
        if s.senders == 0 {
            Err(TryRecvError::Closed)
        } else {
            Err(TryRecvError::Empty)
        }
    }
    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
        self.get()
    }
    pub async fn recv(&mut self) -> Result<T, RecvError> {
        std::future::poll_fn(|_| match self.get() {
            Ok(v) => Poll::Ready(Ok(v)),
            Err(TryRecvError::Empty) => Poll::Pending,
            Err(TryRecvError::Closed) => Poll::Ready(Err(RecvError::Closed)),
            Err(TryRecvError::Lagged(n)) => Poll::Ready(Err(RecvError::Lagged(n))),
        })
        .await
    }
    pub fn resubscribe(&self) -> Receiver<T> {
        let mut s = self.s.borrow_mut();
        s.receivers += 1;
        let pos = s.q.len();
        Receiver { s: self.s.clone(), pos }
    }
    pub fn len(&self) -> usize {
        self.s.borrow().q.len() - self.pos
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
