// C27: ADNL query timeouts.
//@ common
use crate::verif::env::{poll, ready};

//@ harness unwind=9 fns=Node::compute_query_timeout : the time allowed is the requested one or the default, and never less than the minimum
pub fn timeout_rule() {
    let (node, rx) = node_with(NodeIdShort::new(kani::any()), Keystore::default(), any_options());
    let (t, min, def): (Option<u64>, u64, u64) = (kani::any(), node.options.query_min_timeout_ms, node.options.query_default_timeout_ms);
    let r = node.compute_query_timeout(t);
    assert!(r >= min, "never less than the minimum");
    assert!(r == match t { Some(t) if t >= min => t, None if def >= min => def, _ => min }, "the requested time, or the default");
    kani::cover!(t.is_none(), "default"); kani::cover!(r == min && t.is_some() && t != Some(min), "minimum");
    std::mem::forget((node, rx));
}

static mut ANSWERS: bool = false;
static mut FAILS: bool = false;
static mut ASKED: usize = 0;
static mut ANSWER: [u8; 3] = [0; 3];
/// Contract of `send_message` used here: the query goes out, or sending fails. The answer may arrive at once.
pub(super) fn sent(node: &Node, _l: &NodeIdShort, _p: &NodeIdShort, m: proto::adnl::Message<'_>, _prio: bool) -> Result<()> {
    match m {
        proto::adnl::Message::Query { query_id, query } => unsafe {
            ASKED += 1;
            assert!(node.queries.len() == 1, "the query is pending before it is sent");
            assert!(query.len() == 5 && query[0] == 1 && query[4] == 5, "the query is sent as given");
            if FAILS { return Err(anyhow::Error::msg("not sent")); }
            if ANSWERS { node.queries.update_query(query_id, &ANSWER); }
            Ok(())
        },
        _ => { assert!(false, "a query is sent"); Ok(()) }
    }
}
fn query(answers: bool, fails: bool) {
    unsafe { ANSWERS = answers; FAILS = fails; ANSWER = kani::any(); }
    let (local, peer) = (NodeIdShort::new(kani::any()), NodeIdShort::new(kani::any()));
    let (node, rx) = node_with(local, Keystore::default(), any_options());
    node.channels_by_peers.spec_absent(peer);
    node.channels_by_peers.spec_partial();
    let t: Option<u64> = kani::any();
    let expect = { let (min, def) = (node.options.query_min_timeout_ms, node.options.query_default_timeout_ms); std::cmp::max(min, match t { Some(t) => t, None => def }) };
    let r = ready(node.query_raw(&local, &peer, Bytes::from_static(&[1, 2, 3, 4, 5]), t));
    assert!(unsafe { ASKED } == 1, "asked once");
    if fails { assert!(r.is_err(), "a query that cannot be sent is an error"); }
    else {
        assert!(tokio::time::spec_last() == Some(Duration::from_millis(expect)), "waits for the requested time, the default, or the minimum");
        match &r {
            Ok(Some(v)) => unsafe { assert!(answers && v.len() == 3 && v[0] == ANSWER[0] && v[1] == ANSWER[1] && v[2] == ANSWER[2], "the answer received") },
            Ok(None) => assert!(!answers, "no answer"),
            Err(_) => assert!(false, "a timeout is not an error"),
        }
    }
    assert!(node.queries.is_empty(), "no longer pending");
    kani::cover!(t.is_some(), "explicit"); kani::cover!(t.is_none(), "default");
    std::mem::forget((node, rx, r));
}
//@ harness unwind=36 given=adnl::Node::send_message>sent,util::gen_fast_bytes>env.any_bytes,std.time.Duration.from_millis>env.millis fns=Node::query_raw,Node::compute_query_timeout,PendingAdnlQuery::wait,PendingAdnlQuery::drop : an
//@ + unanswered query waits for exactly the time allowed, resolves to no answer and is no longer pending
pub fn unanswered() { query(false, false) }
//@ harness unwind=36 given=adnl::Node::send_message>sent,util::gen_fast_bytes>env.any_bytes,std.time.Duration.from_millis>env.millis fns=Node::query_raw,QueriesCache::update_query,PendingAdnlQuery::wait : an
//@ + answered query resolves to its answer
pub fn answered() { query(true, false) }
//@ harness unwind=36 given=adnl::Node::send_message>sent,util::gen_fast_bytes>env.any_bytes,std.time.Duration.from_millis>env.millis fns=Node::query_raw,PendingAdnlQuery::drop : a
//@ + query that cannot be sent is an error and is not left pending
pub fn unsent() { query(false, true) }
