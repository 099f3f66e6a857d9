//! Many-producer queues. A bounded one is taken to be never full.
use std::cell::RefCell;
use std::rc::Rc;
use std::task::Poll;

pub mod error {
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub struct SendError<T>(pub T);
    impl<T> std::fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("send error")
        }
    }
    impl<T> std::fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
    #[derive(Debug, PartialEq, Eq, Clone)]
    #[repr(u8)]
    pub enum TrySendError<T> {
        Full(T),
        Closed(T),
    }
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum TryRecvError {
        Empty,
        Disconnected,
    }
}
use error::*;

struct Shared<T> {
    q: Vec<Option<T>>,
    pos: usize,
    senders: usize,
    open: bool,
}
macro_rules! kind {
    ($s:ident, $r:ident) => {
        pub struct $s<T>(Rc<RefCell<Shared<T>>>);
        pub struct $r<T>(Rc<RefCell<Shared<T>>>);
        impl<T> $s<T> {
            fn push(&self, v: T) -> Result<(), SendError<T>> {
                let mut s = self.0.borrow_mut();
                if s.open {
                    s.q.push(Some(v));
                    Ok(())
                } else {
                    Err(SendError(v))
                }
            }
            pub fn is_closed(&self) -> bool {
                !self.0.borrow().open
            }
        }
        impl<T> Clone for $s<T> {
            fn clone(&self) -> Self {
                self.0.borrow_mut().senders += 1;
                $s(self.0.clone())
            }
        }
        impl<T> Drop for $s<T> {
            fn drop(&mut self) {
                self.0.borrow_mut().senders -= 1;
            }
        }
        impl<T> std::fmt::Debug for $s<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("sender")
            }
        }
        impl<T> Drop for $r<T> {
            fn drop(&mut self) {
                self.0.borrow_mut().open = false;
            }
        }
        impl<T> std::fmt::Debug for $r<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("receiver")
            }
        }
        impl<T> $r<T> {
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                let mut s = self.0.borrow_mut();
                if s.pos < s.q.len() {
                    let p = s.pos;
                    s.pos += 1;
                    return Ok(s.q[p].take().unwrap());
                }
                if s.senders == 0 || !s.open {
                    Err(TryRecvError::Disconnected)
                } else {
                    Err(TryRecvError::Empty)
                }
            }
            pub fn poll_recv(&mut self, _cx: &mut std::task::Context<'_>) -> Poll<Option<T>> {
                match self.try_recv() {
                    Ok(v) => Poll::Ready(Some(v)),
                    Err(TryRecvError::Empty) => Poll::Pending,
                    Err(TryRecvError::Disconnected) => Poll::Ready(None),
                }
            }
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn close(&mut self) {
                self.0.borrow_mut().open = false;
            }
            pub fn len(&self) -> usize {
                let s = self.0.borrow();
                s.q.len() - s.pos
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
        }
    };
}
kind!(UnboundedSender, UnboundedReceiver);
kind!(Sender, Receiver);
impl<T> UnboundedSender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        self.push(v)
    }
}
impl<T> Sender<T> {
    pub async fn send(&self, v: T) -> Result<(), SendError<T>> {
        self.push(v)
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        self.push(v).map_err(|e| TrySendError::Closed(e.0))
    }
}
fn shared<T>() -> Rc<RefCell<Shared<T>>> {
    Rc::new(RefCell::new(Shared { q: Vec::new(), pos: 0, senders: 1, open: true }))
}
pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let s = shared();
    (UnboundedSender(s.clone()), UnboundedReceiver(s))
}
pub fn channel<T>(_cap: usize) -> (Sender<T>, Receiver<T>) {
    let s = shared();
    (Sender(s.clone()), Receiver(s))
}
