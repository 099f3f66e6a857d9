//! A value with versions; receivers are told that it changed, not each change.
use std::cell::{Cell, Ref as CellRef, RefCell};
use std::ops::Deref;
use std::rc::Rc;
use std::task::Poll;

pub mod error {
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct SendError<T>(pub T);
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct RecvError(pub ());
    impl<T> std::fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl std::fmt::Display for RecvError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("channel closed")
        }
    }
}
use error::*;

struct Shared<T> {
    v: RefCell<T>,
    ver: Cell<u32>,
    receivers: Cell<u32>,
    sender: Cell<bool>,
}
pub struct Sender<T>(Rc<Shared<T>>);
pub struct Receiver<T> {
    s: Rc<Shared<T>>,
    ver: u32,
}
pub struct Ref<'a, T> {
    r: CellRef<'a, T>,
    changed: bool,
}
impl<'a, T> Ref<'a, T> {
    pub fn has_changed(&self) -> bool {
        self.changed
    }
}
impl<'a, T> Deref for Ref<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.r
    }
}
pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) {
    let s = Rc::new(Shared {
        v: RefCell::new(v),
        ver: Cell::new(0),
        receivers: Cell::new(1),
        sender: Cell::new(true),
    });
    (Sender(s.clone()), Receiver { s, ver: 0 })
}
impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        if self.0.receivers.get() == 0 {
            return Err(SendError(v));
        }
        self.send_replace(v);
        Ok(())
    }
    pub fn send_replace(&self, v: T) -> T {
        let old = self.0.v.replace(v);
        self.0.ver.set(self.0.ver.get() + 1);
        old
    }
    pub fn send_modify<F: FnOnce(&mut T)>(&self, f: F) {
        f(&mut self.0.v.borrow_mut());
        self.0.ver.set(self.0.ver.get() + 1);
    }
    pub fn send_if_modified<F: FnOnce(&mut T) -> bool>(&self, f: F) -> bool {
        let m = f(&mut self.0.v.borrow_mut());
        if m {
            self.0.ver.set(self.0.ver.get() + 1);
        }
        m
    }
    pub fn borrow(&self) -> Ref<'_, T> {
        Ref { r: self.0.v.borrow(), changed: false }
    }
    pub fn subscribe(&self) -> Receiver<T> {
        self.0.receivers.set(self.0.receivers.get() + 1);
        Receiver { s: self.0.clone(), ver: self.0.ver.get() }
    }
    pub fn is_closed(&self) -> bool {
        self.0.receivers.get() == 0
    }
    pub fn receiver_count(&self) -> usize {
        self.0.receivers.get() as usize
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.sender.set(false)
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.s.receivers.set(self.s.receivers.get() + 1);
        Receiver { s: self.s.clone(), ver: self.ver }
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.s.receivers.set(self.s.receivers.get() - 1)
    }
}
impl<T> Receiver<T> {
    pub fn borrow(&self) -> Ref<'_, T> {
        Ref { r: self.s.v.borrow(), changed: self.ver != self.s.ver.get() }
    }
    pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
        let changed = self.ver != self.s.ver.get();
        self.ver = self.s.ver.get();
        Ref { r: self.s.v.borrow(), changed }
    }
    pub fn has_changed(&self) -> Result<bool, RecvError> {
        if !self.s.sender.get() {
            return Err(RecvError(()));
        }
        Ok(self.ver != self.s.ver.get())
    }
    pub fn mark_changed(&mut self) {
        self.ver = self.s.ver.get().wrapping_sub(1);
    }
    pub async fn changed(&mut self) -> Result<(), RecvError> {
        std::future::poll_fn(|_| {
            if self.ver != self.s.ver.get() {
                self.ver = self.s.ver.get();
                Poll::Ready(Ok(()))
            } else if !self.s.sender.get() {
                Poll::Ready(Err(RecvError(())))
            } else {
                Poll::Pending
            }
        })
        .await
    }
    pub async fn wait_for<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> Result<Ref<'_, T>, RecvError> {
        loop {
            if f(&self.s.v.borrow()) {
                self.ver = self.s.ver.get();
                return Ok(Ref { r: self.s.v.borrow(), changed: false });
            }
            self.changed().await?;
        }
    }
}
