//! Stand-in for `tokio`: the parts procstar uses, over a task queue that a
//! harness polls in an order of its choosing.
#![allow(unused, static_mut_refs)]

#[macro_use]
mod macros_tokio;

pub use tokio_macros::select_priv_clean_pattern;
pub use tokio_macros::select_priv_declare_output_enum;
pub use tokio_macros::main;

pub mod io;
pub mod net;
pub mod runtime;
pub mod signal;
pub mod sync;
pub mod task;
pub mod time;

pub use task::spawn;

pub mod macros {
    pub mod support {
        pub use std::future::{poll_fn, Future};
        pub use std::pin::Pin;
        pub use std::task::Poll;

        /// Keeps the state of the coroutine that waits small.
        pub fn boxed<F: Future>(f: F) -> Pin<Box<F>> {
            Box::pin(f)
        }

        /// The first branch a `select!` polls: any, when a harness asks so.
        pub fn thread_rng_n(n: u32) -> u32 {
            if unsafe { crate::SELECT_ND.0 } {
                mcenv::nd::pick(n as u8) as u32
            } else {
                0
            }
        }

        #[repr(u8)]
        pub enum MaybeDone<F: Future> {
            Future(F),
            Done(F::Output),
            Gone,
        }
        pub fn maybe_done<F: Future>(f: F) -> MaybeDone<F> {
            MaybeDone::Future(f)
        }
        impl<F: Future> MaybeDone<F> {
            pub fn take_output(self: Pin<&mut Self>) -> Option<F::Output> {
                unsafe {
                    let this = self.get_unchecked_mut();
                    match std::mem::replace(this, MaybeDone::Gone) {
                        MaybeDone::Done(o) => Some(o),
                        _ => None,
                    }
                }
            }
        }
        impl<F: Future> Future for MaybeDone<F> {
            type Output = ();
            fn poll(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<()> {
                unsafe {
                    let this = self.get_unchecked_mut();
                    let out = match this {
                        MaybeDone::Future(f) => match Pin::new_unchecked(f).poll(cx) {
                            Poll::Ready(o) => o,
                            Poll::Pending => return Poll::Pending,
                        },
                        MaybeDone::Done(_) => return Poll::Ready(()),
                        MaybeDone::Gone => panic!("MaybeDone polled after value taken"),
                    };
                    *this = MaybeDone::Done(out);
                    Poll::Ready(())
                }
            }
        }
    }
}

pub static mut SELECT_ND: (bool, u64) = (false, 0x6d63_5c5581d4);
