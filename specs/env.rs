// Contracts assumed for the operating-system and standard-library boundary.
//  * `now()`: seconds since the epoch; arbitrary, never going backwards, or the value a harness fixed.
//  * `Instant`: monotone clock with arbitrary advances.
//  * `HashMap` / `HashSet`: finite maps with the documented sequential contract of std's tables.
//  * `make_udp_socket`: returns some socket or fails.
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;

static mut NOW_FIXED: Option<u32> = None;
static mut NOW_LAST: u32 = 0;
pub fn set_now(t: u32) { unsafe { NOW_FIXED = Some(t); NOW_LAST = t } }
pub fn now() -> u32 {
    unsafe {
        if let Some(t) = NOW_FIXED { return t; }
        let t: u32 = kani::any();
        kani::assume(t >= NOW_LAST);
        NOW_LAST = t;
        t
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(std::time::Duration);
static mut INSTANT_LAST: std::time::Duration = std::time::Duration::from_secs(0);
impl Instant {
    pub fn now() -> Self { unsafe { let step: u32 = kani::any(); INSTANT_LAST += std::time::Duration::from_millis(step as u64); Instant(INSTANT_LAST) } }
    /// Spec-side: let the clock advance by exactly `d`; the next `at` readings return that time.
    pub fn spec_now() -> Self { unsafe { Instant(INSTANT_LAST) } }
    pub fn elapsed(&self) -> std::time::Duration { Instant::now().0 - self.0 }
    pub fn duration_since(&self, o: Instant) -> std::time::Duration { self.0.checked_sub(o.0).unwrap_or_default() }
}
impl std::ops::Sub for Instant { type Output = std::time::Duration; fn sub(self, o: Self) -> std::time::Duration { self.duration_since(o) } }
impl std::ops::Add<std::time::Duration> for Instant { type Output = Self; fn add(self, d: std::time::Duration) -> Self { Instant(self.0 + d) } }

pub fn make_udp_socket(_port: u16) -> anyhow::Result<std::sync::Arc<tokio::net::UdpSocket>> { Ok(std::sync::Arc::new(tokio::net::UdpSocket::spec_new())) }

use dashmap::spec::{self, Slots};
#[derive(Clone)]
pub struct HashMap<K, V, S = std::collections::hash_map::RandomState> { t: Slots<K, V>, _s: PhantomData<S> }
pub mod hash_map {
    use super::Slots;
    pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
    pub struct OccupiedEntry<'a, K, V> { pub(super) t: &'a mut Slots<K, V>, pub(super) p: *mut (K, V) }
    pub struct VacantEntry<'a, K, V> { pub(super) t: &'a mut Slots<K, V>, pub(super) k: K }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V { unsafe { &(*self.p).1 } } pub fn get_mut(&mut self) -> &mut V { unsafe { &mut (*self.p).1 } }
        pub fn into_mut(self) -> &'a mut V { unsafe { &mut (*self.p).1 } } pub fn key(&self) -> &K { unsafe { &(*self.p).0 } }
        pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.get_mut(), v) }
        pub fn remove(self) -> V { self.t.take(self.p).1 } pub fn remove_entry(self) -> (K, V) { self.t.take(self.p) }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.k } pub fn into_key(self) -> K { self.k }
        pub fn insert(self, v: V) -> &'a mut V { let p = self.t.push(self.k, v); unsafe { &mut (*p).1 } }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn key(&self) -> &K { match self { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => e.key() } }
        pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v) } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
        pub fn or_default(self) -> &'a mut V where V: Default { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(V::default()) } }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(e) = &mut self { f(e.get_mut()) } self }
    }
    pub use std::collections::hash_map::RandomState;
}
unsafe impl<K: Send, V: Send, S> Send for HashMap<K, V, S> {}
unsafe impl<K: Sync, V: Sync, S> Sync for HashMap<K, V, S> {}
impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { HashMap { t: Slots::new(), _s: PhantomData } } }
impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for HashMap<K, V, S> { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<K, V, S> HashMap<K, V, S> {
    /// Spec-side: a map of any size of which only the entries put in so far and the keys declared
    /// absent are known. A lookup of any other key, or an iteration, is a model limit.
    pub fn spec_partial(&mut self) { self.t.partial() }
    pub fn spec_absent(&mut self, k: K) { self.t.absent(k) }
    pub fn with_capacity_and_hasher(_c: usize, _s: S) -> Self { Self::default() }
    pub fn with_hasher(_s: S) -> Self { Self::default() }
    pub fn len(&self) -> usize { self.t.len() } pub fn is_empty(&self) -> bool { self.t.len() == 0 }
    pub fn capacity(&self) -> usize { spec::CAP }
    pub fn clear(&mut self) { self.t.clear() }
    pub fn iter(&self) -> Iter<'_, K, V> { self.t.whole(); Iter(&self.t, 0) }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { self.t.whole(); IterMut(&mut self.t, 0) }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
    pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.iter_mut().map(|e| e.1) }
    pub fn into_values(self) -> impl Iterator<Item = V> { self.into_iter().map(|e| e.1) }
    pub fn into_keys(self) -> impl Iterator<Item = K> { self.into_iter().map(|e| e.0) }
    pub fn drain(&mut self) -> spec::IntoIter<K, V> { self.t.whole(); spec::IntoIter(std::mem::replace(&mut self.t, Slots::new()), 0) }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) { self.t.retain(f) }
}
impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { let p = self.t.find(k); if p.is_null() { None } else { Some(unsafe { &(*p).1 }) } }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { let p = self.t.find(k); if p.is_null() { None } else { Some(unsafe { &mut (*p).1 }) } }
    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { let p = self.t.find(k); if p.is_null() { None } else { Some(unsafe { (&(*p).0, &(*p).1) }) } }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { !self.t.find(k).is_null() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> { let p = self.t.find_ins(&k); if p.is_null() { self.t.push(k, v); None } else { Some(std::mem::replace(unsafe { &mut (*p).1 }, v)) } }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { let p = self.t.find_mut(k); if p.is_null() { None } else { Some(self.t.take(p).1) } }
    pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { let p = self.t.find(k); if p.is_null() { None } else { Some(self.t.take(p)) } }
    pub fn entry(&mut self, k: K) -> hash_map::Entry<'_, K, V> { let p = self.t.find(&k); if p.is_null() { hash_map::Entry::Vacant(hash_map::VacantEntry { t: &mut self.t, k }) } else { hash_map::Entry::Occupied(hash_map::OccupiedEntry { t: &mut self.t, p }) } }
    pub fn reserve(&mut self, _n: usize) {}
}
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> std::ops::Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).unwrap() } }
pub struct Iter<'a, K, V>(&'a Slots<K, V>, usize);
impl<K, V> Clone for Iter<'_, K, V> { fn clone(&self) -> Self { Iter(self.0, self.1) } }
impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { let p = self.0.next(&mut self.1); if p.is_null() { None } else { Some(unsafe { (&(*p).0, &(*p).1) }) } } }
pub struct IterMut<'a, K, V>(&'a mut Slots<K, V>, usize);
impl<'a, K, V> Iterator for IterMut<'a, K, V> { type Item = (&'a K, &'a mut V); fn next(&mut self) -> Option<Self::Item> { let p = self.0.next(&mut self.1); if p.is_null() { None } else { Some(unsafe { (&(*p).0, &mut (*p).1) }) } } }
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { self.0.next().map(|e| e.0) } }
pub struct Values<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<&'a V> { self.0.next().map(|e| e.1) } }
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = spec::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.t.whole(); spec::IntoIter(self.t, 0) } }
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); for (k, v) in it { m.insert(k, v); } m } }
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }

#[derive(Clone)]
pub struct HashSet<K, S = std::collections::hash_map::RandomState> { m: HashMap<K, (), S> }
impl<K, S> Default for HashSet<K, S> { fn default() -> Self { HashSet { m: HashMap::default() } } }
impl<K: Eq + Hash, S: BuildHasher> HashSet<K, S> {
    pub fn with_capacity_and_hasher(_c: usize, _s: S) -> Self { Self::default() }
    pub fn insert(&mut self, k: K) -> bool { if self.m.contains_key(&k) { false } else { self.m.t.push(k, ()); true } }
    pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.m.contains_key(k) }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.m.remove(k).is_some() }
    pub fn len(&self) -> usize { self.m.len() } pub fn is_empty(&self) -> bool { self.m.is_empty() } pub fn clear(&mut self) { self.m.clear() }
    pub fn iter(&self) -> Keys<'_, K, ()> { self.m.keys() }
}
impl<K: Eq + Hash, S: BuildHasher + Default> FromIterator<K> for HashSet<K, S> { fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self { let mut m = Self::default(); for k in it { m.insert(k); } m } }
impl<K: Eq + Hash, S: BuildHasher> Extend<K> for HashSet<K, S> { fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) { for k in it { self.insert(k); } } }

/// Spec-side: one poll of a future.
pub fn poll<F: std::future::Future>(f: std::pin::Pin<&mut F>) -> std::task::Poll<F::Output> { f.poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) }
/// Spec-side: the value of a future that does not wait for anyone.
pub fn ready<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::mem::ManuallyDrop::new(f);
    match poll(unsafe { std::pin::Pin::new_unchecked(&mut *f) }) { std::task::Poll::Ready(v) => v, std::task::Poll::Pending => { assert!(false, "nothing is waited for"); loop {} } }
}
/// Contract of `util::gen_fast_bytes`: arbitrary bytes.
pub fn any_bytes<const N: usize>() -> [u8; N] { kani::any() }
/// Contract of `Duration::from_millis` where only its being one-to-one matters.
pub fn millis(ms: u64) -> std::time::Duration { std::time::Duration::from_secs(ms) }
