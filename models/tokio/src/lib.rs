//! Model of `tokio` for one thread: FIFO channels, one-shot cells, a clock on which every sleep is
//! over at the next poll, and an executor that never gets round to running spawned tasks.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[macro_export]
macro_rules! pin {
    ($($x:ident),* $(,)?) => { $( let mut $x = $x; #[allow(unused_mut)] let mut $x = unsafe { ::std::pin::Pin::new_unchecked(&mut $x) }; )* };
    ($( let $x:ident = $init:expr; )*) => { $( let $x = $init; $crate::pin!($x); )* };
}

pub mod task {
    use super::*;
    pub struct JoinHandle<T>(std::marker::PhantomData<T>);
    impl<T> JoinHandle<T> { pub fn abort(&self) {} }
    #[derive(Debug)] pub struct JoinError;
    impl<T> Future for JoinHandle<T> { type Output = Result<T, JoinError>; fn poll(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<Self::Output> { Poll::Pending } }
    pub struct Yield(bool);
    impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } } }
    pub fn yield_now() -> Yield { Yield(false) }
    pub(crate) static mut SPAWNED: usize = 0;
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { std::mem::forget(f); unsafe { SPAWNED += 1 } JoinHandle(std::marker::PhantomData) }
    /// Spec-side: how many tasks were spawned so far.
    pub fn spec_spawned() -> usize { unsafe { SPAWNED } }
}
pub use task::spawn;

pub mod time {
    use super::*;
    pub use std::time::Duration;
    static mut LAST: Option<Duration> = None;
    /// Spec-side: the duration passed to the last `sleep` or `timeout`.
    pub fn spec_last() -> Option<Duration> { unsafe { LAST } }
    pub struct Sleep;
    impl Future for Sleep { type Output = (); fn poll(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<()> { Poll::Ready(()) } }
    pub fn sleep(d: Duration) -> Sleep { unsafe { LAST = Some(d) } Sleep }
    #[derive(Debug)] pub struct Elapsed;
    impl std::fmt::Display for Elapsed { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for Elapsed {}
    pub mod error { pub use super::Elapsed; }
    pub struct Timeout<F>(F);
    impl<F: Future> Future for Timeout<F> { type Output = Result<F::Output, Elapsed>; fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
        let f = unsafe { self.map_unchecked_mut(|t| &mut t.0) };
        match f.poll(c) { Poll::Ready(v) => Poll::Ready(Ok(v)), Poll::Pending => Poll::Ready(Err(Elapsed)) }
    } }
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> { unsafe { LAST = Some(d) } Timeout(f) }
}

pub mod sync {
    use super::*;
    pub mod mpsc {
        use super::*;
        use std::cell::UnsafeCell;
        use std::sync::Arc;
        const CAP: usize = 8;
        /// A FIFO whose items are objects of their own.
        struct Fifo<T> { e: [*mut T; CAP], head: usize, tail: usize }
        impl<T> Fifo<T> {
            fn new() -> Self { Fifo { e: [std::ptr::null_mut(); CAP], head: 0, tail: 0 } }
            fn push_back(&mut self, t: T) { if self.tail == CAP { panic!("MODEL-LIMIT: channel model is full"); } self.e[self.tail] = Box::into_raw(Box::new(t)); self.tail += 1; }
            fn pop_front(&mut self) -> Option<T> { if self.head == self.tail { None } else { let p = self.e[self.head]; self.head += 1; Some(unsafe { std::ptr::read(p) }) } }
            fn len(&self) -> usize { self.tail - self.head } fn is_empty(&self) -> bool { self.head == self.tail }
        }
        struct Chan<T> { q: UnsafeCell<(Fifo<T>, usize, bool)> }
        impl<T> Chan<T> { fn st(&self) -> &mut (Fifo<T>, usize, bool) { unsafe { &mut *self.q.get() } } }
        unsafe impl<T: Send> Send for Chan<T> {} unsafe impl<T: Send> Sync for Chan<T> {}
        pub struct UnboundedSender<T>(Arc<Chan<T>>);
        pub struct UnboundedReceiver<T>(Arc<Chan<T>>);
        pub mod error { #[derive(Debug)] pub struct SendError<T>(pub T); impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } impl<T: std::fmt::Debug> std::error::Error for SendError<T> {} #[derive(Debug)] pub enum TryRecvError { Empty, Disconnected } }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let c = Arc::new(Chan { q: UnsafeCell::new((Fifo::new(), 1, false)) }); (UnboundedSender(c.clone()), UnboundedReceiver(c)) }
        impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { self.0.st().1 += 1; UnboundedSender(self.0.clone()) } }
        impl<T> Drop for UnboundedSender<T> { fn drop(&mut self) { self.0.st().1 -= 1 } }
        impl<T> Drop for UnboundedReceiver<T> { fn drop(&mut self) { self.0.st().2 = true } }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, t: T) -> Result<(), error::SendError<T>> { let s = self.0.st(); if s.2 { Err(error::SendError(t)) } else { s.0.push_back(t); Ok(()) } }
            pub fn is_closed(&self) -> bool { self.0.st().2 }
            pub fn same_channel(&self, o: &Self) -> bool { Arc::ptr_eq(&self.0, &o.0) }
        }
        impl<T> UnboundedReceiver<T> {
            pub fn recv(&mut self) -> Recv<'_, T> { Recv(self) }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { let s = self.0.st(); match s.0.pop_front() { Some(v) => Ok(v), None => Err(if s.1 == 0 { error::TryRecvError::Disconnected } else { error::TryRecvError::Empty }) } }
            pub fn close(&mut self) { self.0.st().2 = true }
            pub fn is_empty(&self) -> bool { self.0.st().0.is_empty() }
            pub fn len(&self) -> usize { self.0.st().0.len() }
            pub fn poll_recv(&mut self, _c: &mut Context<'_>) -> Poll<Option<T>> { let s = self.0.st(); match s.0.pop_front() { Some(v) => Poll::Ready(Some(v)), None => if s.1 == 0 || s.2 { Poll::Ready(None) } else { Poll::Pending } } }
        }
        pub struct Recv<'a, T>(&'a mut UnboundedReceiver<T>);
        impl<T> Future for Recv<'_, T> { type Output = Option<T>; fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Option<T>> { self.0.poll_recv(c) } }
    }
    pub mod oneshot {
        use super::*;
        use std::cell::UnsafeCell;
        use std::sync::Arc;
        struct Cell1<T> { v: UnsafeCell<(Option<T>, bool, bool)> }
        unsafe impl<T: Send> Send for Cell1<T> {} unsafe impl<T: Send> Sync for Cell1<T> {}
        impl<T> Cell1<T> { fn st(&self) -> &mut (Option<T>, bool, bool) { unsafe { &mut *self.v.get() } } }
        pub struct Sender<T>(Arc<Cell1<T>>); pub struct Receiver<T>(Arc<Cell1<T>>);
        pub mod error { #[derive(Debug)] pub struct RecvError; impl std::fmt::Display for RecvError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for RecvError {} #[derive(Debug)] pub enum TryRecvError { Empty, Closed } }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = Arc::new(Cell1 { v: UnsafeCell::new((None, false, false)) }); (Sender(c.clone()), Receiver(c)) }
        impl<T> Sender<T> { pub fn send(self, t: T) -> Result<(), T> { let s = self.0.st(); if s.2 { Err(t) } else { s.0 = Some(t); Ok(()) } } pub fn is_closed(&self) -> bool { self.0.st().2 } }
        impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.st().1 = true } }
        impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.st().2 = true } }
        impl<T> Receiver<T> { pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { let s = self.0.st(); match s.0.take() { Some(v) => Ok(v), None => Err(if s.1 { error::TryRecvError::Closed } else { error::TryRecvError::Empty }) } } pub fn close(&mut self) { self.0.st().2 = true } }
        impl<T> Future for Receiver<T> { type Output = Result<T, error::RecvError>; fn poll(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<Self::Output> { let s = self.0.st(); match s.0.take() { Some(v) => Poll::Ready(Ok(v)), None => if s.1 { Poll::Ready(Err(error::RecvError)) } else { Poll::Pending } } } }
    }
    pub struct Barrier(usize, std::cell::Cell<usize>);
    unsafe impl Sync for Barrier {}
    impl Barrier { pub fn new(n: usize) -> Self { Barrier(n, std::cell::Cell::new(0)) } pub fn wait(&self) -> BarrierWait<'_> { self.1.set(self.1.get() + 1); BarrierWait(self) } }
    pub struct BarrierWait<'a>(&'a Barrier);
    unsafe impl Send for BarrierWait<'_> {}
    impl Future for BarrierWait<'_> { type Output = (); fn poll(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<()> { if self.0 .1.get() >= self.0 .0 { Poll::Ready(()) } else { Poll::Pending } } }
    pub struct Semaphore(std::cell::Cell<usize>);
    unsafe impl Sync for Semaphore {}
    #[derive(Debug)] pub struct AcquireError;
    impl std::fmt::Display for AcquireError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } } impl std::error::Error for AcquireError {}
    impl Semaphore { pub fn new(n: usize) -> Self { Semaphore(std::cell::Cell::new(n)) } pub fn available_permits(&self) -> usize { self.0.get() } pub fn acquire(&self) -> Acquire<'_> { Acquire(self) } }
    pub struct SemaphorePermit<'a>(&'a Semaphore);
    impl Drop for SemaphorePermit<'_> { fn drop(&mut self) { self.0 .0.set(self.0 .0.get() + 1) } }
    pub struct Acquire<'a>(&'a Semaphore);
    impl<'a> Future for Acquire<'a> { type Output = Result<SemaphorePermit<'a>, AcquireError>; fn poll(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<Self::Output> { let s = self.0; if s.0.get() > 0 { s.0.set(s.0.get() - 1); Poll::Ready(Ok(SemaphorePermit(s))) } else { Poll::Pending } } }
}

pub mod net {
    use super::*;
    use std::io; use std::net::SocketAddr;
    #[derive(Debug)]
    pub struct UdpSocket { _p: () }
    impl UdpSocket {
        pub fn from_std(s: std::net::UdpSocket) -> io::Result<Self> { std::mem::forget(s); Ok(UdpSocket { _p: () }) }
        pub fn spec_new() -> Self { UdpSocket { _p: () } }
        pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 1))) }
        pub fn send_to<A>(&self, _b: &[u8], _a: A) -> Ready<io::Result<usize>> { Ready(Some(Ok(0))) }
        pub fn recv_from<'a>(&'a self, _b: &'a mut [u8]) -> Never<'a> { Never(std::marker::PhantomData) }
    }
    pub struct Never<'a>(std::marker::PhantomData<&'a mut [u8]>);
    impl Future for Never<'_> { type Output = io::Result<(usize, SocketAddr)>; fn poll(self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<Self::Output> { Poll::Pending } }
    pub struct Ready<T>(Option<T>);
    impl<T> Unpin for Ready<T> {}
    impl<T> Future for Ready<T> { type Output = T; fn poll(mut self: Pin<&mut Self>, _c: &mut Context<'_>) -> Poll<T> { Poll::Ready(self.0.take().unwrap()) } }
}
