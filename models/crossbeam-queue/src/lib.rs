//! Model of `crossbeam-queue` for one thread: an unbounded FIFO.
use std::cell::UnsafeCell; use std::collections::VecDeque;
pub struct SegQueue<T> { q: UnsafeCell<VecDeque<T>> }
unsafe impl<T: Send> Send for SegQueue<T> {} unsafe impl<T: Send> Sync for SegQueue<T> {}
impl<T> SegQueue<T> {
    pub const fn new() -> Self { SegQueue { q: UnsafeCell::new(VecDeque::new()) } }
    fn q(&self) -> &mut VecDeque<T> { unsafe { &mut *self.q.get() } }
    pub fn push(&self, t: T) { self.q().push_back(t) } pub fn pop(&self) -> Option<T> { self.q().pop_front() }
    pub fn len(&self) -> usize { self.q().len() } pub fn is_empty(&self) -> bool { self.q().is_empty() }
}
impl<T> Default for SegQueue<T> { fn default() -> Self { Self::new() } }
