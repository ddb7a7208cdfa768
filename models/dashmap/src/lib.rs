//! Model of `dashmap` for one thread: a finite map with the documented sequential contract of
//! every operation the crate uses. Guards are counted, and an operation that would need a lock
//! already held by the same thread (a possible self-deadlock) is reported.
use std::borrow::Borrow;
use std::cell::{Cell, UnsafeCell};
use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;
pub mod spec {
    //! Storage shared by the table models: every entry is an object of its own, reached through
    //! concrete slots. Entries are not dropped with the table.
    use std::borrow::Borrow;
    use std::mem::ManuallyDrop;
    pub const CAP: usize = 8;
    /// Equality of keys. Every 32-byte key of the crate is a byte string (a hash), compared as such.
    pub fn eq<Q: ?Sized + Eq>(a: &Q, b: &Q) -> bool {
        if std::mem::size_of_val(a) == 32 && std::mem::size_of_val(b) == 32 && std::mem::align_of_val(a) == 1 {
            let (x, y): ([u128; 2], [u128; 2]) = unsafe { (std::ptr::read_unaligned(a as *const Q as *const [u128; 2]), std::ptr::read_unaligned(b as *const Q as *const [u128; 2])) };
            (x[0] == y[0]) & (x[1] == y[1])
        } else { a == b }
    }
    /// Slots are filled in order and never reused, so that the place of an entry is known however
    /// many removals happened; a removed entry stays behind as a tombstone.
    pub struct Slots<K, V> { e: [*mut (K, V); CAP], live: [bool; CAP], n: usize, gone: [*mut K; CAP], ng: usize, partial: bool, fresh: bool }
    unsafe impl<K: Send, V: Send> Send for Slots<K, V> {}
    unsafe impl<K: Sync, V: Sync> Sync for Slots<K, V> {}
    impl<K, V> Slots<K, V> {
        pub const fn new() -> Self { Slots { e: [std::ptr::null_mut(); CAP], live: [false; CAP], n: 0, gone: [std::ptr::null_mut(); CAP], ng: 0, partial: false, fresh: false } }
        pub fn partial(&mut self) { self.partial = true }
        pub fn fresh(&mut self) { self.fresh = true }
        pub fn absent(&mut self, k: K) {
            if self.ng >= CAP { panic!("MODEL-LIMIT: table model is full"); }
            self.gone[self.ng] = Box::into_raw(Box::new(k));
            self.ng += 1;
        }
        pub fn whole(&self) { if self.partial { panic!("MODEL-LIMIT: whole-table operation on a partially specified table"); } }
        fn lookup<Q: ?Sized + Eq>(&self, k: &Q) -> *mut (K, V) where K: Borrow<Q> {
            let mut r = std::ptr::null_mut();
            let mut i = 0;
            while i < CAP { let p = self.e[i]; if !p.is_null() && self.live[i] && unsafe { eq((*p).0.borrow(), k) } { r = p; } i += 1; }
            r
        }
        pub fn find<Q: ?Sized + Eq>(&self, k: &Q) -> *mut (K, V) where K: Borrow<Q> {
            let r = self.lookup(k);
            if self.partial && r.is_null() && !self.known_absent(k) { panic!("MODEL-LIMIT: key outside the specified part of the table"); }
            r
        }
        fn known_absent<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> {
            let mut known = false;
            let mut i = 0;
            while i < CAP { let p = self.gone[i]; if !p.is_null() && unsafe { eq((*p).borrow(), k) } { known = true; } i += 1; }
            let mut i = 0;
            while i < CAP { let p = self.e[i]; if !p.is_null() && !self.live[i] && unsafe { eq((*p).0.borrow(), k) } { known = true; } i += 1; }
            known
        }
        /// As `find`, for an operation that changes the entry of `k` whatever it is.
        pub fn find_mut<Q: ?Sized + Eq>(&self, k: &Q) -> *mut (K, V) where K: Borrow<Q> {
            let r = self.lookup(k);
            if self.partial && r.is_null() { assert!(self.known_absent(k), "frame: an entry outside the frame is inserted or removed"); }
            r
        }
        /// As `find_mut`, for an insertion; in a `fresh` table unknown keys are taken to be absent.
        pub fn find_ins<Q: ?Sized + Eq>(&self, k: &Q) -> *mut (K, V) where K: Borrow<Q> {
            if self.fresh { self.lookup(k) } else { self.find_mut(k) }
        }
        /// The key is known to be absent.
        pub fn push(&mut self, k: K, v: V) -> *mut (K, V) {
            if self.n >= CAP { panic!("MODEL-LIMIT: table model is full"); }
            let p = Box::into_raw(Box::new((k, v)));
            self.e[self.n] = p;
            self.live[self.n] = true;
            self.n += 1;
            p
        }
        pub fn take(&mut self, p: *mut (K, V)) -> (K, V) {
            let mut i = 0;
            while i < CAP { if self.e[i] == p { self.live[i] = false; } i += 1; }
            unsafe { std::ptr::read(p) }
        }
        pub fn len(&self) -> usize { self.whole(); self.known() }
        pub fn known(&self) -> usize { let mut n = 0; let mut i = 0; while i < CAP { n += self.live[i] as usize; i += 1; } n }
        pub fn clear(&mut self) { self.whole(); self.live = [false; CAP]; }
        pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
            self.whole();
            let mut i = 0;
            while i < CAP {
                let p = self.e[i];
                if !p.is_null() && self.live[i] { let keep = unsafe { f(&(*p).0, &mut (*p).1) }; if !keep { self.live[i] = false; } }
                i += 1;
            }
        }
        /// The next occupied slot at or after `i`.
        pub fn next(&self, i: &mut usize) -> *mut (K, V) {
            while *i < CAP { let p = self.e[*i]; let l = self.live[*i]; *i += 1; if !p.is_null() && l { return p; } }
            std::ptr::null_mut()
        }
    }
    impl<K: Clone, V: Clone> Clone for Slots<K, V> { fn clone(&self) -> Self {
        let mut r = Slots { e: [std::ptr::null_mut(); CAP], live: self.live, n: self.n, gone: self.gone, ng: self.ng, partial: self.partial, fresh: self.fresh };
        let mut i = 0;
        while i < CAP { let p = self.e[i]; if !p.is_null() { r.e[i] = Box::into_raw(Box::new(unsafe { (*p).clone() })); } i += 1; }
        r
    } }
    #[allow(dead_code)] fn _u(_: ManuallyDrop<u8>) {}
    pub struct IntoIter<K, V>(pub Slots<K, V>, pub usize);
    impl<K, V> Iterator for IntoIter<K, V> { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { let p = self.0.next(&mut self.1); if p.is_null() { None } else { Some(unsafe { std::ptr::read(p) }) } } }
}
use spec::Slots;

pub struct DashMap<K, V, S = RandomState> { v: UnsafeCell<Slots<K, V>>, st: Cell<isize>, _s: PhantomData<S> }
unsafe impl<K: Send, V: Send, S> Send for DashMap<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S> Sync for DashMap<K, V, S> {}

pub mod mapref {
    pub mod one {
        use crate::DashMap;
        use std::ops::{Deref, DerefMut};
        pub struct Ref<'a, K, V, S = std::collections::hash_map::RandomState> { pub(crate) m: &'a DashMap<K, V, S>, pub(crate) p: *mut (K, V) }
        pub struct RefMut<'a, K, V, S = std::collections::hash_map::RandomState> { pub(crate) m: &'a DashMap<K, V, S>, pub(crate) p: *mut (K, V) }
        unsafe impl<K: Sync, V: Sync, S> Send for Ref<'_, K, V, S> {}
        unsafe impl<K: Sync, V: Sync, S> Sync for Ref<'_, K, V, S> {}
        unsafe impl<K: Sync, V: Sync, S> Send for RefMut<'_, K, V, S> {}
        unsafe impl<K: Sync, V: Sync, S> Sync for RefMut<'_, K, V, S> {}
        impl<'a, K, V, S> Ref<'a, K, V, S> {
            pub fn key(&self) -> &K { unsafe { &(*self.p).0 } }
            pub fn value(&self) -> &V { unsafe { &(*self.p).1 } }
            pub fn pair(&self) -> (&K, &V) { (self.key(), self.value()) }
        }
        impl<K, V, S> Deref for Ref<'_, K, V, S> { type Target = V; fn deref(&self) -> &V { self.value() } }
        impl<K, V, S> Drop for Ref<'_, K, V, S> { fn drop(&mut self) { self.m.unread() } }
        impl<'a, K, V, S> RefMut<'a, K, V, S> {
            pub fn key(&self) -> &K { unsafe { &(*self.p).0 } }
            pub fn value(&self) -> &V { unsafe { &(*self.p).1 } }
            pub fn value_mut(&mut self) -> &mut V { unsafe { &mut (*self.p).1 } }
            pub fn pair(&self) -> (&K, &V) { (self.key(), self.value()) }
            pub fn pair_mut(&mut self) -> (&K, &mut V) { let e = unsafe { &mut *self.p }; (&e.0, &mut e.1) }
            pub fn downgrade(self) -> Ref<'a, K, V, S> { let (m, p) = (self.m, self.p); drop(self); m.read(); Ref { m, p } }
        }
        impl<K, V, S> Deref for RefMut<'_, K, V, S> { type Target = V; fn deref(&self) -> &V { self.value() } }
        impl<K, V, S> DerefMut for RefMut<'_, K, V, S> { fn deref_mut(&mut self) -> &mut V { self.value_mut() } }
        impl<K, V, S> Drop for RefMut<'_, K, V, S> { fn drop(&mut self) { self.m.unwrite() } }
    }
    pub mod multiple {
        pub use super::one::Ref as RefMulti;
        pub use super::one::RefMut as RefMutMulti;
    }
    pub mod entry {
        use super::one::{Ref, RefMut};
        use crate::DashMap;
        pub enum Entry<'a, K, V, S = std::collections::hash_map::RandomState> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
        pub struct OccupiedEntry<'a, K, V, S = std::collections::hash_map::RandomState> { pub(crate) r: RefMut<'a, K, V, S>, pub(crate) key: K }
        pub(crate) struct WGuard<'a, K, V, S>(pub(crate) &'a DashMap<K, V, S>);
        impl<K, V, S> Drop for WGuard<'_, K, V, S> { fn drop(&mut self) { self.0.unwrite() } }
        pub struct VacantEntry<'a, K, V, S = std::collections::hash_map::RandomState> { pub(crate) g: WGuard<'a, K, V, S>, pub(crate) key: K }
        impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
            pub fn get(&self) -> &V { self.r.value() }
            pub fn get_mut(&mut self) -> &mut V { self.r.value_mut() }
            pub fn key(&self) -> &K { self.r.key() }
            pub fn into_key(self) -> K { self.key }
            pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.r.value_mut(), v) }
            pub fn into_ref(self) -> RefMut<'a, K, V, S> { self.r }
            pub fn remove(self) -> V { let (m, p) = (self.r.m, self.r.p); m.raw_mut().take(p).1 }
            pub fn remove_entry(self) -> (K, V) { let (m, p) = (self.r.m, self.r.p); m.raw_mut().take(p) }
            pub fn replace_entry(self, v: V) -> (K, V) { let p = self.r.p; std::mem::replace(unsafe { &mut *p }, (self.key, v)) }
        }
        impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
            pub fn key(&self) -> &K { &self.key }
            pub fn into_key(self) -> K { self.key }
            pub fn insert(self, v: V) -> RefMut<'a, K, V, S> {
                let VacantEntry { g, key } = self;
                let m = g.0; std::mem::forget(g);
                let p = m.raw_mut().push(key, v);
                RefMut { m, p }
            }
        }
        impl<'a, K, V, S> Entry<'a, K, V, S> {
            pub fn key(&self) -> &K { match self { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => e.key() } }
            pub fn into_key(self) -> K { match self { Entry::Occupied(e) => e.into_key(), Entry::Vacant(e) => e.into_key() } }
            pub fn or_insert(self, v: V) -> RefMut<'a, K, V, S> { match self { Entry::Occupied(e) => e.into_ref(), Entry::Vacant(e) => e.insert(v) } }
            pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V, S> { match self { Entry::Occupied(e) => e.into_ref(), Entry::Vacant(e) => e.insert(f()) } }
            pub fn or_try_insert_with<E>(self, f: impl FnOnce() -> Result<V, E>) -> Result<RefMut<'a, K, V, S>, E> { match self { Entry::Occupied(e) => Ok(e.into_ref()), Entry::Vacant(e) => Ok(e.insert(f()?)) } }
            pub fn or_default(self) -> RefMut<'a, K, V, S> where V: Default { match self { Entry::Occupied(e) => e.into_ref(), Entry::Vacant(e) => e.insert(V::default()) } }
            pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self { if let Entry::Occupied(e) = &mut self { f(e.get_mut()) } self }
            pub fn insert(self, v: V) -> RefMut<'a, K, V, S> { match self { Entry::Occupied(mut e) => { e.insert(v); e.into_ref() } Entry::Vacant(e) => e.insert(v) } }
            #[allow(dead_code)] fn _r(_: Option<Ref<'a, K, V, S>>) {}
        }
    }
}
pub use mapref::entry::{Entry, OccupiedEntry, VacantEntry};
use mapref::entry::WGuard;
use mapref::one::{Ref, RefMut};

impl<K, V, S> DashMap<K, V, S> {
    pub(crate) fn raw(&self) -> &Slots<K, V> { unsafe { &*self.v.get() } }
    #[allow(clippy::mut_from_ref)]
    pub(crate) fn raw_mut(&self) -> &mut Slots<K, V> { unsafe { &mut *self.v.get() } }
    pub(crate) fn read(&self) { assert!(self.st.get() >= 0, "deadlock: map read while a mutable guard of the same map is held"); self.st.set(self.st.get() + 1) }
    pub(crate) fn unread(&self) { self.st.set(self.st.get() - 1) }
    pub(crate) fn write(&self) { assert!(self.st.get() == 0, "deadlock: map written while a guard of the same map is held"); self.st.set(-1) }
    pub(crate) fn unwrite(&self) { self.st.set(0) }
    pub fn with_hasher(_s: S) -> Self { Self::empty() }
    pub fn with_capacity_and_hasher(_c: usize, _s: S) -> Self { Self::empty() }
    fn empty() -> Self { DashMap { v: UnsafeCell::new(Slots::new()), st: Cell::new(0), _s: PhantomData } }
    /// Spec-side: a map of any size of which only the entries put in so far and the keys declared
    /// absent (`spec_absent`) are known. A lookup of any other key, or an iteration, is a model limit.
    pub fn spec_partial(&self) { self.raw_mut().partial() }
    pub fn spec_absent(&self, k: K) { self.raw_mut().absent(k) }
    /// Spec-side: keys inserted from now on are assumed new (hash collisions with unknown entries are excluded).
    pub fn spec_fresh(&self) { self.raw_mut().fresh() }
    /// Spec-side: entries known by now.
    pub fn spec_known(&self) -> usize { self.raw().known() }
    /// Spec-side: number of live guards (0 = none).
    pub fn spec_guards(&self) -> isize { self.st.get() }
}
impl<K, V> DashMap<K, V, RandomState> { pub fn new() -> Self { Self::empty() } pub fn with_capacity(_c: usize) -> Self { Self::empty() } }
impl<K, V, S> Default for DashMap<K, V, S> { fn default() -> Self { Self::empty() } }

impl<'a, K: 'a + Eq + Hash, V: 'a, S: BuildHasher + Clone> DashMap<K, V, S> {
    fn find<Q: ?Sized>(&self, k: &Q) -> *mut (K, V) where K: Borrow<Q>, Q: Hash + Eq { self.raw().find(k) }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        self.write();
        let p = self.raw().find_ins(&k);
        let r = if p.is_null() { self.raw_mut().push(k, v); None } else { Some(std::mem::replace(unsafe { &mut (*p).1 }, v)) };
        self.unwrite();
        r
    }
    pub fn remove<Q: ?Sized>(&self, k: &Q) -> Option<(K, V)> where K: Borrow<Q>, Q: Hash + Eq {
        self.write();
        let p = self.raw().find_mut(k);
        let r = if p.is_null() { None } else { Some(self.raw_mut().take(p)) };
        self.unwrite();
        r
    }
    pub fn remove_if<Q: ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)> where K: Borrow<Q>, Q: Hash + Eq { self.remove_if_mut(k, |k, v| f(k, v)) }
    pub fn remove_if_mut<Q: ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &mut V) -> bool) -> Option<(K, V)> where K: Borrow<Q>, Q: Hash + Eq {
        self.write();
        let p = self.find(k);
        let r = if p.is_null() { None } else if unsafe { f(&(*p).0, &mut (*p).1) } { Some(self.raw_mut().take(p)) } else { None };
        self.unwrite();
        r
    }
    pub fn get<Q: ?Sized>(&'a self, k: &Q) -> Option<Ref<'a, K, V, S>> where K: Borrow<Q>, Q: Hash + Eq {
        self.read();
        let p = self.find(k);
        if p.is_null() { self.unread(); None } else { Some(Ref { m: self, p }) }
    }
    pub fn get_mut<Q: ?Sized>(&'a self, k: &Q) -> Option<RefMut<'a, K, V, S>> where K: Borrow<Q>, Q: Hash + Eq {
        self.write();
        let p = self.find(k);
        if p.is_null() { self.unwrite(); None } else { Some(RefMut { m: self, p }) }
    }
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q>, Q: Hash + Eq { self.read(); let r = !self.find(k).is_null(); self.unread(); r }
    pub fn entry(&'a self, k: K) -> Entry<'a, K, V, S> {
        self.write();
        let p = self.find(&k);
        if p.is_null() { Entry::Vacant(VacantEntry { g: WGuard(self), key: k }) } else { Entry::Occupied(OccupiedEntry { r: RefMut { m: self, p }, key: k }) }
    }
    pub fn alter<Q: ?Sized>(&self, k: &Q, f: impl FnOnce(&K, V) -> V) where K: Borrow<Q>, Q: Hash + Eq { self.write(); let p = self.find(k); if !p.is_null() { unsafe { let v = std::ptr::read(&(*p).1); std::ptr::write(&mut (*p).1, f(&(*p).0, v)); } } self.unwrite(); }
    pub fn view<Q: ?Sized, R>(&self, k: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R> where K: Borrow<Q>, Q: Hash + Eq { self.read(); let p = self.find(k); let r = if p.is_null() { None } else { Some(unsafe { f(&(*p).0, &(*p).1) }) }; self.unread(); r }
    pub fn retain(&self, f: impl FnMut(&K, &mut V) -> bool) { self.write(); self.raw_mut().retain(f); self.unwrite(); }
    pub fn clear(&self) { self.write(); self.raw_mut().clear(); self.unwrite(); }
    pub fn len(&self) -> usize { self.read(); self.unread(); self.raw().len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn capacity(&self) -> usize { spec::CAP }
    pub fn shrink_to_fit(&self) {}
    pub fn iter(&'a self) -> Iter<'a, K, V, S> { self.raw().whole(); Iter { m: self, i: 0 } }
    pub fn iter_mut(&'a self) -> IterMut<'a, K, V, S> { self.raw().whole(); IterMut { m: self, i: 0 } }
    pub fn hasher(&self) -> S where S: Default { S::default() }
}
pub struct Iter<'a, K, V, S = RandomState> { m: &'a DashMap<K, V, S>, i: usize }
impl<'a, K, V, S> Iterator for Iter<'a, K, V, S> { type Item = Ref<'a, K, V, S>; fn next(&mut self) -> Option<Self::Item> { let p = self.m.raw().next(&mut self.i); if p.is_null() { None } else { self.m.read(); Some(Ref { m: self.m, p }) } } }
pub struct IterMut<'a, K, V, S = RandomState> { m: &'a DashMap<K, V, S>, i: usize }
impl<'a, K, V, S> Iterator for IterMut<'a, K, V, S> { type Item = RefMut<'a, K, V, S>; fn next(&mut self) -> Option<Self::Item> { let p = self.m.raw().next(&mut self.i); if p.is_null() { None } else { self.m.write(); Some(RefMut { m: self.m, p }) } } }
impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for &'a DashMap<K, V, S> { type Item = Ref<'a, K, V, S>; type IntoIter = Iter<'a, K, V, S>; fn into_iter(self) -> Iter<'a, K, V, S> { self.iter() } }
impl<K, V, S> IntoIterator for DashMap<K, V, S> { type Item = (K, V); type IntoIter = spec::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.raw().whole(); spec::IntoIter(self.v.into_inner(), 0) } }
impl<K: Eq + Hash, V, S: BuildHasher + Clone + Default> FromIterator<(K, V)> for DashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let m = Self::default(); for (k, v) in i { m.insert(k, v); } m } }
impl<K: Eq + Hash, V, S: BuildHasher + Clone> Extend<(K, V)> for DashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }

pub struct DashSet<K, S = RandomState> { m: DashMap<K, (), S> }
impl<K, S> Default for DashSet<K, S> { fn default() -> Self { DashSet { m: DashMap::default() } } }
impl<K> DashSet<K, RandomState> { pub fn new() -> Self { Self::default() } }
impl<'a, K: 'a + Eq + Hash, S: BuildHasher + Clone> DashSet<K, S> {
    pub fn with_hasher(_s: S) -> Self { Self::default() }
    pub fn with_capacity_and_hasher(_c: usize, _s: S) -> Self { Self::default() }
    pub fn insert(&self, k: K) -> bool { self.m.insert(k, ()).is_none() }
    pub fn remove<Q: ?Sized>(&self, k: &Q) -> Option<K> where K: Borrow<Q>, Q: Hash + Eq { self.m.remove(k).map(|e| e.0) }
    pub fn contains<Q: ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q>, Q: Hash + Eq { self.m.contains_key(k) }
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn clear(&self) { self.m.clear() }
    pub fn retain(&self, mut f: impl FnMut(&K) -> bool) { self.m.retain(|k, _| f(k)) }
    pub fn iter(&'a self) -> SetIter<'a, K, S> { SetIter(self.m.iter()) }
}
pub struct SetRef<'a, K, S>(Ref<'a, K, (), S>);
impl<K, S> SetRef<'_, K, S> { pub fn key(&self) -> &K { self.0.key() } }
impl<K, S> std::ops::Deref for SetRef<'_, K, S> { type Target = K; fn deref(&self) -> &K { self.0.key() } }
pub struct SetIter<'a, K, S>(Iter<'a, K, (), S>);
impl<'a, K, S> Iterator for SetIter<'a, K, S> { type Item = SetRef<'a, K, S>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(SetRef) } }
