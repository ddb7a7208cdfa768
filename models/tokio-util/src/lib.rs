//! Model of `tokio-util`: a cancellation token that is never cancelled unless `cancel` was called.
pub mod sync {
    use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
    #[derive(Clone, Default)]
    pub struct CancellationToken(Arc<AtomicBool>);
    impl CancellationToken {
        pub fn new() -> Self { Self::default() }
        pub fn cancel(&self) { self.0.store(true, Ordering::SeqCst) }
        pub fn is_cancelled(&self) -> bool { self.0.load(Ordering::SeqCst) }
        pub fn child_token(&self) -> Self { self.clone() }
        pub fn cancelled(&self) -> Cancelled<'_> { Cancelled(self) }
    }
    pub struct Cancelled<'a>(&'a CancellationToken);
    impl std::future::Future for Cancelled<'_> { type Output = (); fn poll(self: std::pin::Pin<&mut Self>, _c: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0.is_cancelled() { std::task::Poll::Ready(()) } else { std::task::Poll::Pending } } }
}
