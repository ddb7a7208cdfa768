// C12: bounded peer sets.
fn words(k: &NodeIdShort) -> [u128; 2] { unsafe { std::mem::transmute(*k.as_slice()) } }
fn same(a: &NodeIdShort, b: &NodeIdShort) -> bool { let (a, b) = (words(a), words(b)); (a[0] == b[0]) & (a[1] == b[1]) }
fn any_id() -> NodeIdShort { NodeIdShort::new(kani::any()) }

/// Only equality of ids matters to a set (they are never looked into), so fixed distinct ids stand for any.
fn id(n: u8) -> NodeIdShort { NodeIdShort::new([n; 32]) }
const IDS: [u8; 4] = [11, 22, 33, 44];
/// Any reachable set of this capacity and size: distinct ids, filled in order, the oldest at `upper` once full.
fn any_set(capacity: u32, len: usize, upper: u32) -> (PeersSet, [NodeIdShort; 4]) {
    let mut s = PeersSetState::with_capacity(NonZeroU32::new(capacity).unwrap());
    let ids = [id(11), id(22), id(33), id(44)];
    let mut i = 0;
    while i < len {
        let id = Ref(Rc::new(ids[i]));
        s.cache.insert(id.clone(), i as u32);
        s.index.push(id);
        i += 1;
    }
    s.upper = upper;
    s.version = kani::any();
    kani::assume(s.version < u64::MAX - 4);
    (PeersSet { state: RwLock::new(s) }, ids)
}
/// The invariant and the content: `want[i]` is the i-th id, oldest slot `upper`.
fn is(set: &PeersSet, want: &[NodeIdShort], upper: u32) {
    assert!(set.len() == want.len(), "as many ids as expected");
    assert!(set.is_empty() == want.is_empty(), "empty exactly without ids");
    let s = set.state.read();
    assert!(s.index.len() == want.len() && s.cache.len() == want.len(), "index and membership agree in size");
    assert!(s.upper == upper, "the oldest id is next to be evicted");
    let mut i = 0;
    while i < want.len() {
        assert!(same(&s.index[i].copy_inner(), &want[i]), "ids by position");
        assert!(s.cache.get(Wrapper::wrap(&want[i])) == Some(&(i as u32)), "membership and position agree");
        i += 1;
    }
    std::mem::forget(s);
}
fn observed(set: &PeersSet, want: &[NodeIdShort]) {
    let mut i = 0;
    while i < want.len() {
        assert!(set.contains(&want[i]), "a member is contained");
        match set.get(i) { Some(x) => assert!(same(&x, &want[i]), "a member by index"), None => assert!(false, "a member by index") }
        i += 1;
    }
    assert!(set.get(want.len()).is_none(), "no index beyond the members");
    let mut it = set.iter();
    let mut i = 0;
    while i < want.len() { match it.next() { Some(x) => assert!(same(x, &want[i]), "iteration in order"), None => assert!(false, "iteration is complete") } i += 1; }
    assert!(it.next().is_none(), "iteration ends");
    let all = set.clone_inner();
    assert!(all.len() == want.len(), "as many ids");
    let mut i = 0;
    while i < want.len() { assert!(same(&all[i], &want[i]), "in order"); i += 1; }
    std::mem::forget((it, all));
}
fn inserts(capacity: u32, len: usize, upper: u32, new: NodeIdShort) {
    let (set, ids) = any_set(capacity, len, upper);
    let old = set.version();
    let mut member = false;
    let mut i = 0;
    while i < len { member |= same(&ids[i], &new); i += 1; }
    let added = set.insert(new);
    assert!(added == !member, "an id is added exactly when it is not a member");
    if member { is(&set, &ids[..len], upper); assert!(set.version() == old, "nothing changed"); }
    else {
        let next = (upper + 1) % capacity;
        let mut want = ids;
        if len < capacity as usize {
            want[len] = new;
            is(&set, &want[..len + 1], next);
        } else {
            want[upper as usize] = new;
            is(&set, &want[..len], next);
            assert!(!set.contains(&ids[upper as usize]), "the oldest id is gone");
        }
        assert!(set.version() != old, "the version tells");
        assert!(set.contains(&new), "the new id is a member");
    }
    assert!(set.len() <= capacity as usize, "never more than the capacity");
    assert!(set.is_full() == (set.len() == capacity as usize), "full exactly at capacity");
    kani::cover!(old > 5, "reached");
    std::mem::forget(set);
}
//@ harness unwind=34 kind=bounded bound="capacity 1" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 0)
pub fn evict_1_0() { inserts(1, 1, 0, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 2" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 0)
pub fn evict_2_0() { inserts(2, 2, 0, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 2" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 1)
pub fn evict_2_1() { inserts(2, 2, 1, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 3" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 0)
pub fn evict_3_0() { inserts(3, 3, 0, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 3" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 1)
pub fn evict_3_1() { inserts(3, 3, 1, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 3" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 2)
pub fn evict_3_2() { inserts(3, 3, 2, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 4" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 0)
pub fn evict_4_0() { inserts(4, 4, 0, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 4" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 1)
pub fn evict_4_1() { inserts(4, 4, 1, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 4" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 2)
pub fn evict_4_2() { inserts(4, 4, 2, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 4" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a full set evicts exactly the oldest id (slot 3)
pub fn evict_4_3() { inserts(4, 4, 3, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 4" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a set of 0 ids that is not full
pub fn append_0() { inserts(4, 0, 0, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 4" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a set of 1 ids that is not full
pub fn append_1() { inserts(4, 1, 1, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 4" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a set of 2 ids that is not full
pub fn append_2() { inserts(4, 2, 2, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 4" fns=PeersSet::insert,PeersSetState::insert : inserting a new id into a set of 3 ids that is not full
pub fn append_3() { inserts(4, 3, 3, id(99)) }
//@ harness unwind=34 kind=bounded bound="capacity 3" fns=PeersSet::insert,PeersSetState::insert : inserting a member (position 0) changes nothing
pub fn member_0() { inserts(3, 3, 0, id(11)) }
//@ harness unwind=34 kind=bounded bound="capacity 3" fns=PeersSet::insert,PeersSetState::insert : inserting a member (position 1) changes nothing
pub fn member_1() { inserts(3, 3, 1, id(22)) }
//@ harness unwind=34 kind=bounded bound="capacity 3" fns=PeersSet::insert,PeersSetState::insert : inserting a member (position 2) changes nothing
pub fn member_2() { inserts(3, 3, 2, id(33)) }
//@ harness unwind=34 kind=bounded bound="capacity 3" fns=PeersSet::contains,PeersSet::get,PeersSet::iter,PeersSet::clone_inner,PeersSet::len : membership, index access and iteration agree
pub fn agree() {
    let (set, ids) = any_set(3, 3, kani::any());
    observed(&set, &ids[..3]);
    let other = any_id();
    let member = same(&other, &ids[0]) || same(&other, &ids[1]) || same(&other, &ids[2]);
    assert!(set.contains(&other) == member, "nothing else is contained");
    kani::cover!(member, "member"); kani::cover!(!member, "stranger");
    std::mem::forget(set);
}
fn built(capacity: u32) {
    let ids = [any_id(), any_id(), any_id()];
    let set = PeersSet::with_peers_and_capacity(&ids, capacity);
    let (d1, d2) = (same(&ids[0], &ids[1]), same(&ids[0], &ids[2]) || same(&ids[1], &ids[2]));
    let cap = std::cmp::max(1, capacity) as usize;
    let mut want = [ids[0]; 3];
    let mut n = 1;
    if !d1 && n < cap { want[n] = ids[1]; n += 1; }
    if !d2 && n < cap { want[n] = ids[2]; n += 1; }
    match n { 1 => is(&set, &want[..1], (1 % cap) as u32), 2 => is(&set, &want[..2], (2 % cap) as u32), _ => is(&set, &want, (3 % cap) as u32) }
    kani::cover!(d1, "repeated"); kani::cover!(!d1 && !d2, "distinct");
    std::mem::forget(set);
}
//@ harness unwind=34 kind=bounded bound="three initial ids, capacity 2" fns=PeersSet::with_peers_and_capacity,PeersSetState::with_peers_and_capacity : the first distinct ids are taken, up to the capacity
pub fn built_2() { built(2) }
//@ harness unwind=34 kind=bounded bound="three initial ids, capacity 3" fns=PeersSet::with_peers_and_capacity,PeersSetState::with_peers_and_capacity : the distinct ids are taken in order
pub fn built_3() { built(3) }
//@ harness unwind=34 kind=bounded bound="three initial ids, capacity 0" fns=PeersSet::with_peers_and_capacity,make_capacity : a set holds at least one id
pub fn built_0() { built(0) }

/// `picked` of the members other than `out`, each at most once.
fn picked(got: &[NodeIdShort], members: &[NodeIdShort], out: Option<NodeIdShort>, amount: u32) {
    let mut available = members.len();
    if let Some(o) = &out { let mut i = 0; while i < members.len() { if same(o, &members[i]) { available -= 1; } i += 1; } }
    let expect = if (amount as usize) < available { amount as usize } else { available };
    assert!(got.len() == expect, "as many as asked for, or all there are");
    let mut i = 0;
    while i < expect {
        let x = got[i];
        let mut m = false;
        let mut j = 0;
        while j < members.len() { m |= same(&members[j], &x); j += 1; }
        assert!(m, "a member");
        if let Some(o) = &out { assert!(!same(o, &x), "not the excluded one"); }
        let mut j = 0;
        while j < i { assert!(!same(&got[j], &x), "each once"); j += 1; }
        i += 1;
    }
}
fn random(members: usize, amount: u32, except: Option<NodeIdShort>) {
    let (set, ids) = any_set(3, members, members as u32 % 3);
    let got = set.get_random_peers(amount, except.as_ref());
    picked(&got, &ids[..members], except, amount);
    kani::cover!(set.version() > 5, "reached");
    std::mem::forget((set, got));
}
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 0 random peers, distinct members
pub fn random_none_any() { random(3, 0, None) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 0 random peers, distinct members without the excluded one
pub fn random_none_but_member() { random(3, 0, Some(id(22))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 0 random peers, distinct members; a stranger is excluded
pub fn random_none_but_stranger() { random(3, 0, Some(id(99))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 1 random peers, distinct members
pub fn random_one_any() { random(3, 1, None) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 1 random peers, distinct members without the excluded one
pub fn random_one_but_member() { random(3, 1, Some(id(22))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 1 random peers, distinct members; a stranger is excluded
pub fn random_one_but_stranger() { random(3, 1, Some(id(99))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 2 random peers, distinct members
pub fn random_two_any() { random(3, 2, None) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 2 random peers, distinct members without the excluded one
pub fn random_two_but_member() { random(3, 2, Some(id(22))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 2 random peers, distinct members; a stranger is excluded
pub fn random_two_but_stranger() { random(3, 2, Some(id(99))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 3 random peers, distinct members
pub fn random_three_any() { random(3, 3, None) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 3 random peers, distinct members without the excluded one
pub fn random_three_but_member() { random(2, 3, Some(id(22))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : 3 random peers, distinct members; a stranger is excluded
pub fn random_three_but_stranger() { random(2, 3, Some(id(99))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : u32::MAX random peers, distinct members
pub fn random_all_any() { random(3, u32::MAX, None) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : u32::MAX random peers, distinct members without the excluded one
pub fn random_all_but_member() { random(1, u32::MAX, Some(id(11))) }
//@ harness unwind=34 kind=bounded bound="three members" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::get_random_peers : u32::MAX random peers, distinct members; a stranger is excluded
pub fn random_all_but_stranger() { random(1, u32::MAX, Some(id(99))) }

fn filled(members: usize, amount: u32, skip: Option<NodeIdShort>, held: usize) {
    let (from, ids) = any_set(3, members, if members == 3 { 0 } else { members as u32 });
    let (to, _) = any_set(4, held, held as u32);
    let set = FastDashSet::default();
    if let Some(s) = skip { set.insert(s); }
    to.randomly_fill_from(&from, amount, if skip.is_some() { Some(&set) } else { None });
    let got = to.clone_inner();
    if held == 0 { picked(&got, &ids[..members], skip, amount); } else {
        assert!(got.len() >= held && got.len() <= held + amount as usize, "at most as many as asked for are added");
        assert!(same(&got[0], &ids[0]), "members stay");
        let mut i = 1;
        while i < 3 { if i < got.len() { assert!(!same(&got[i], &ids[0]), "each once"); } i += 1; }
    }
    from.randomly_fill_from(&from, amount, None);
    is(&from, &ids[..members], if members == 3 { 0 } else { members as u32 });
    kani::cover!(to.version() > 5, "some");
    std::mem::forget((from, to, set, got));
}
//@ harness unwind=34 kind=bounded bound="3 members, target of capacity 4" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::randomly_fill_from,PeersSetState::insert : filling a set with one peer
pub fn fill_one() { filled(3, 1, None, 0) }
//@ harness unwind=34 kind=bounded bound="1 members, target of capacity 4" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::randomly_fill_from,PeersSetState::insert : filling a set with the only peer
pub fn fill_only() { filled(1, u32::MAX, None, 0) }
//@ harness unwind=34 kind=bounded bound="1 members, target of capacity 4" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::randomly_fill_from,PeersSetState::insert : filling a set when the only peer is excluded
pub fn fill_only_but() { filled(1, 3, Some(id(11)), 0) }
//@ harness unwind=34 kind=bounded bound="2 members, target of capacity 4" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::randomly_fill_from,PeersSetState::insert : filling a set with none
pub fn fill_none() { filled(2, 0, None, 0) }
//@ harness unwind=34 kind=bounded bound="3 members, target of capacity 4" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::randomly_fill_from,PeersSetState::insert : filling a set that has a member already
pub fn fill_held() { filled(3, 1, None, 1) }
//@ harness unwind=34 kind=bounded bound="2 members, target of capacity 4" given=util::fast_thread_rng>util_fast_rand.any_rng fns=PeersSet::randomly_fill_from,PeersSetState::insert : filling a set with two
pub fn fill_two() { filled(2, 2, None, 0) }
