//! The real `futures-util`, except that the halves of a split stream share it
//! without a lock: one thread runs everything.
#![no_std]
extern crate alloc;
pub use real::*;
pub use stream::StreamExt;

pub mod stream {
    use alloc::rc::Rc;
    use core::cell::UnsafeCell;
    use core::marker::PhantomData;
    use core::pin::Pin;
    use core::task::{Context, Poll};
    pub use real::stream::*;
    use real::Sink;

    pub struct SplitStream<S>(Rc<UnsafeCell<S>>);
    pub struct SplitSink<S, Item>(Rc<UnsafeCell<S>>, PhantomData<Item>);
    impl<S> Unpin for SplitStream<S> {}
    impl<S, Item> Unpin for SplitSink<S, Item> {}

    impl<S: Stream> Stream for SplitStream<S> {
        type Item = S::Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
            unsafe { Pin::new_unchecked(&mut *self.0.get()) }.poll_next(cx)
        }
    }
    impl<S: Sink<Item>, Item> Sink<Item> for SplitSink<S, Item> {
        type Error = S::Error;
        fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
            unsafe { Pin::new_unchecked(&mut *self.0.get()) }.poll_ready(cx)
        }
        fn start_send(self: Pin<&mut Self>, item: Item) -> Result<(), S::Error> {
            unsafe { Pin::new_unchecked(&mut *self.0.get()) }.start_send(item)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
            unsafe { Pin::new_unchecked(&mut *self.0.get()) }.poll_flush(cx)
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
            unsafe { Pin::new_unchecked(&mut *self.0.get()) }.poll_close(cx)
        }
    }

    pub trait StreamExt: Stream {
        fn next(&mut self) -> Next<'_, Self>
        where
            Self: Unpin,
        {
            real::StreamExt::next(self)
        }
        fn split<Item>(self) -> (SplitSink<Self, Item>, SplitStream<Self>)
        where
            Self: Sink<Item> + Sized,
        {
            let s = Rc::new(UnsafeCell::new(self));
            (SplitSink(s.clone(), PhantomData), SplitStream(s))
        }
        fn fuse(self) -> Fuse<Self>
        where
            Self: Sized,
        {
            real::StreamExt::fuse(self)
        }
        fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F>
        where
            Self: Sized,
        {
            real::StreamExt::map(self, f)
        }
        fn collect<C: Default + Extend<Self::Item>>(self) -> Collect<Self, C>
        where
            Self: Sized,
        {
            real::StreamExt::collect(self)
        }
    }
    impl<T: Stream + ?Sized> StreamExt for T {}
}
