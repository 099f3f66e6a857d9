use std::future::Future;
use std::task::Poll;

/// Called between rounds of polling by `block_on`; returns false to stop.
pub static mut ON_ROUND: (Option<fn(u32) -> bool>, u64) = (None, 0x6d63_1fe68e72);

pub struct Builder;
pub struct Runtime;
#[derive(Debug)]
pub struct BuildError;
impl Builder {
    pub fn new_current_thread() -> Builder {
        Builder
    }
    pub fn new_multi_thread() -> Builder {
        Builder
    }
    pub fn enable_all(&mut self) -> &mut Builder {
        self
    }
    pub fn worker_threads(&mut self, _n: usize) -> &mut Builder {
        self
    }
    pub fn build(&mut self) -> Result<Runtime, BuildError> {
        Ok(Runtime)
    }
}
impl Runtime {
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        let mut f = std::pin::pin!(f);
        let mut round = 0;
        loop {
            if let Poll::Ready(r) = mcenv::rt::poll_once(f.as_mut()) {
                return r;
            }
            mcenv::rt::run_rounds(1);
            round += 1;
            let go = match unsafe { ON_ROUND.0 } {
                Some(h) => h(round),
                None => true,
            };
            if !go {
                mcenv::end_path();
            }
        }
    }
}
