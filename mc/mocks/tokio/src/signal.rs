pub mod unix {
    use std::future::Future;
    use std::task::Poll;

    /// How many times each signal has been delivered to this process.
    pub static mut DELIVERED: ([u32; 65], u64) = ([0; 65], 0x6d63_be1e0823);

    pub fn deliver(signum: i32) {
        unsafe { DELIVERED.0[signum as usize] += 1 }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn from_raw(s: i32) -> Self {
            SignalKind(s)
        }
        pub const fn as_raw_value(&self) -> i32 {
            self.0
        }
        pub const fn child() -> Self {
            SignalKind(17)
        }
        pub const fn terminate() -> Self {
            SignalKind(15)
        }
        pub const fn interrupt() -> Self {
            SignalKind(2)
        }
        pub const fn quit() -> Self {
            SignalKind(3)
        }
        pub const fn hangup() -> Self {
            SignalKind(1)
        }
        pub const fn user_defined1() -> Self {
            SignalKind(10)
        }
        pub const fn user_defined2() -> Self {
            SignalKind(12)
        }
    }

    /// A listener: sees deliveries after its creation; several deliveries
    /// between two receives may be seen as one.
    #[derive(Debug)]
    pub struct Signal {
        signum: i32,
        seen: u32,
    }
    pub fn signal(kind: SignalKind) -> fakestd::io::Result<Signal> {
        Ok(Signal { signum: kind.0, seen: unsafe { DELIVERED.0[kind.0 as usize] } })
    }
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            std::future::poll_fn(|_| {
                let n = unsafe { DELIVERED.0[self.signum as usize] };
                if n != self.seen {
                    self.seen = n;
                    Poll::Ready(Some(()))
                } else {
                    Poll::Pending
                }
            })
            .await
        }
    }
}
