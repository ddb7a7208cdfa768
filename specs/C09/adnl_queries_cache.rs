// C09: an answer completes exactly the pending query with its id; tables of any size.
use crate::verif::env::poll;
use std::task::Poll;

/// Any number of pending queries, one of them just made, another known, a third id unknown.
struct World { cache: Arc<QueriesCache>, id: QueryId, mine: PendingAdnlQuery, other_id: QueryId, other: PendingAdnlQuery, unknown: QueryId }
fn any_world() -> World {
    let cache = Arc::new(QueriesCache::default());
    let (id, other_id, unknown): (QueryId, QueryId, QueryId) = (kani::any(), kani::any(), kani::any());
    let w = |a: &QueryId, b: &QueryId| unsafe { let (a, b): ([u128; 2], [u128; 2]) = (std::mem::transmute(*a), std::mem::transmute(*b)); (a[0] == b[0]) & (a[1] == b[1]) };
    kani::assume(!w(&id, &other_id) && !w(&id, &unknown) && !w(&other_id, &unknown));
    let other = cache.add_query(other_id);
    let mine = cache.add_query(id);
    cache.queries.spec_absent(unknown);
    cache.queries.spec_partial();
    World { cache, id, mine, other_id, other, unknown }
}
fn waits(q: PendingAdnlQuery) {
    let mut f = std::mem::ManuallyDrop::new(q.wait());
    assert!(poll(unsafe { std::pin::Pin::new_unchecked(&mut *f) }).is_pending(), "still waiting");
}
fn resolves(q: PendingAdnlQuery, to: Option<[u8; 3]>) {
    let mut f = std::mem::ManuallyDrop::new(q.wait());
    match poll(unsafe { std::pin::Pin::new_unchecked(&mut *f) }) {
        Poll::Ready(Some(v)) => { match to { Some(e) => assert!(v.len() == 3 && v[0] == e[0] && v[1] == e[1] && v[2] == e[2], "exactly the bytes received"), None => assert!(false, "no answer") } std::mem::forget(v) }
        Poll::Ready(None) => assert!(to.is_none(), "answered"),
        Poll::Pending => assert!(false, "the query is answered"),
    }
}

//@ harness unwind=9 counts=real kind=bounded bound="answer of 3 bytes" fns=QueriesCache::add_query,QueriesCache::update_query,PendingAdnlQuery::wait : an
//@ + answer completes its query with exactly the bytes received, leaves every other waiting, and counts once
pub fn answered() {
    let w = any_world();
    let (a, b): ([u8; 3], [u8; 3]) = (kani::any(), kani::any());
    w.cache.update_query(&w.id, &a);
    assert!(!w.cache.queries.contains_key(&w.id), "an answered query is no longer pending");
    assert!(w.cache.queries.contains_key(&w.other_id), "other queries stay pending");
    w.cache.update_query(&w.id, &b);
    resolves(w.mine, Some(a));
    waits(w.other);
    kani::cover!(a[0] != b[0], "two answers");
    std::mem::forget(w.cache);
}
//@ harness unwind=9 counts=real fns=QueriesCache::update_query,QueriesCache::add_query : an answer with an unknown id has no effect
pub fn unknown_answer() {
    let w = any_world();
    w.cache.update_query(&w.unknown, &[1, 2, 3]);
    assert!(w.cache.queries.contains_key(&w.id) && w.cache.queries.contains_key(&w.other_id), "every query stays pending");
    waits(w.mine);
    waits(w.other);
    kani::cover!(true, "unknown");
    std::mem::forget(w.cache);
}
//@ harness unwind=9 counts=real fns=PendingAdnlQuery::drop,PendingAdnlQuery::wait,QueriesCache::update_query : a query given up
//@ + (dropped before or while waiting, as a timeout does) is no longer pending, a late answer has no effect, others stay
pub fn given_up() { abandon(false) }
//@ harness unwind=9 counts=real fns=PendingAdnlQuery::drop,PendingAdnlQuery::wait,QueriesCache::update_query : a query given up while waiting
pub fn timed_out() { abandon(true) }
fn abandon(waiting: bool) {
    let w = any_world();
    if waiting {
        let mut f = Box::pin(w.mine.wait());
        assert!(poll(f.as_mut()).is_pending(), "no answer yet");
        drop(f);
    } else { drop(w.mine); }
    assert!(!w.cache.queries.contains_key(&w.id), "a query given up is no longer pending");
    w.cache.update_query(&w.id, &[1, 2, 3]);
    assert!(w.cache.queries.contains_key(&w.other_id), "other queries stay pending");
    waits(w.other);
    kani::cover!(true, "given up");
    std::mem::forget(w.cache);
}
//@ harness unwind=9 counts=real kind=bounded bound="answer of 3 bytes" fns=PendingAdnlQuery::drop,QueriesCache::add_query : giving
//@ + up a query that was answered does not take away a later query, and the cache outliving its users is not needed
pub fn answered_then_dropped() {
    let w = any_world();
    let a: [u8; 3] = kani::any();
    w.cache.update_query(&w.other_id, &a);
    resolves(w.other, Some(a));
    assert!(w.cache.queries.contains_key(&w.id), "other queries stay pending");
    drop(w.cache);
    drop(w.mine);
    kani::cover!(true, "dropped");
}
