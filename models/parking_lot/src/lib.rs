//! Model of `parking_lot` for one thread: a lock is a cell with a borrow check; taking a lock that
//! is already held by the same thread (a self-deadlock) is reported.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};
pub struct Mutex<T: ?Sized> { held: Cell<bool>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T> Mutex<T> { pub const fn new(v: T) -> Self { Mutex { held: Cell::new(false), v: UnsafeCell::new(v) } } pub fn into_inner(self) -> T { self.v.into_inner() } }
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> { assert!(!self.held.get(), "deadlock: mutex locked twice by one thread"); self.held.set(true); MutexGuard { m: self } }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { if self.held.get() { None } else { Some(self.lock()) } }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T> }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.m.held.set(false) } }

pub struct RwLock<T: ?Sized> { st: Cell<isize>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T> RwLock<T> { pub const fn new(v: T) -> Self { RwLock { st: Cell::new(0), v: UnsafeCell::new(v) } } pub fn into_inner(self) -> T { self.v.into_inner() } }
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> { assert!(self.st.get() >= 0, "deadlock: read lock while write-locked by the same thread"); self.st.set(self.st.get() + 1); RwLockReadGuard { l: self } }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> { assert!(self.st.get() == 0, "deadlock: write lock while locked by the same thread"); self.st.set(-1); RwLockWriteGuard { l: self } }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
pub struct RwLockReadGuard<'a, T: ?Sized> { l: &'a RwLock<T> }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.l.st.set(self.l.st.get() - 1) } }
pub struct RwLockWriteGuard<'a, T: ?Sized> { l: &'a RwLock<T> }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { self.l.st.set(0) } }
