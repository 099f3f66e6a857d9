use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub struct JoinHandle<T> {
    out: Rc<RefCell<Option<T>>>,
}
#[derive(Debug)]
pub struct JoinError;
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("join error")
    }
}
impl std::error::Error for JoinError {}
impl<T> JoinHandle<T> {
    pub fn is_finished(&self) -> bool {
        self.out.borrow().is_some()
    }
    pub fn abort(&self) {}
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.out.borrow_mut().take() {
            Some(v) => Poll::Ready(Ok(v)),
            None => Poll::Pending,
        }
    }
}

pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let out = Rc::new(RefCell::new(None));
    let o = out.clone();
    mcenv::rt::spawn(Box::pin(async move {
        let v = f.await;
        *o.borrow_mut() = Some(v);
    }));
    JoinHandle { out }
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_local(f)
}

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(|_| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            Poll::Pending
        }
    })
    .await
}

pub struct LocalSet;
impl LocalSet {
    pub fn new() -> Self {
        LocalSet
    }
    pub async fn run_until<F: Future>(&self, f: F) -> F::Output {
        f.await
    }
    pub fn spawn_local<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        spawn_local(f)
    }
    pub fn block_on<F: Future>(&self, rt: &crate::runtime::Runtime, f: F) -> F::Output {
        rt.block_on(f)
    }
}
