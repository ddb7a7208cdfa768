// C26: subscribers are offered messages and queries in order until one takes it.
use crate::verif::env::ready;
use crate::verif::adnl_node::*;
use crate::adnl::{Keystore, NodeIdShort};

static mut CALLS: usize = 0;
static mut TAKEN: bool = false;
/// What each of the three subscribers does: 0 rejects, 1 consumes without an answer, 2 answers, 3 fails.
static mut DOES: [u8; 3] = [0; 3];
static mut SEEN: [u8; 8] = [0; 8];
fn call(i: usize, constructor: u32, data: &[u8], size: usize) -> u8 {
    unsafe {
        assert!(CALLS == i, "offered in registration order, each once");
        assert!(!TAKEN, "nobody sees it after it was accepted");
        assert!(data.len() == size && data[0] == SEEN[0] && data[3] == SEEN[3] && data[4] == SEEN[4] && data[7] == SEEN[7], "offered with its bytes unchanged");
        assert!(constructor == u32::from_le_bytes([SEEN[0], SEEN[1], SEEN[2], SEEN[3]]), "offered with its constructor");
        CALLS += 1;
        if DOES[i] != 0 { TAKEN = true; }
        DOES[i]
    }
}
pub struct Sub(usize);
#[async_trait::async_trait]
impl QuerySubscriber for Sub {
    async fn try_consume_query<'a>(&self, _ctx: SubscriberContext<'a>, constructor: u32, query: Cow<'a, [u8]>) -> Result<QueryConsumingResult<'a>> {
        match call(self.0, constructor, &query, 8) {
            0 => Ok(QueryConsumingResult::Rejected(query)),
            1 => Ok(QueryConsumingResult::Consumed(None)),
            2 => Ok(QueryConsumingResult::Consumed(Some(vec![self.0 as u8, 7]))),
            _ => Err(anyhow::Error::msg("failed")),
        }
    }
}
#[async_trait::async_trait]
impl MessageSubscriber for Sub {
    async fn try_consume_custom<'a>(&self, _ctx: SubscriberContext<'a>, constructor: u32, data: &'a [u8]) -> Result<bool> {
        match call(self.0, constructor, data, 8) { 0 => Ok(false), 3 => Err(anyhow::Error::msg("failed")), _ => Ok(true) }
    }
}
fn any_does(all: bool) -> ([u8; 3], [u8; 8]) {
    let (d, m): ([u8; 3], [u8; 8]) = (kani::any(), kani::any());
    kani::assume(d[0] < 4 && d[1] < 4 && d[2] < 4);
    unsafe { DOES = d; SEEN = m; }
    (d, m)
}
pub fn with_context(f: impl FnOnce(SubscriberContext<'_>)) {
    let (a, b) = (NodeIdShort::new(kani::any()), NodeIdShort::new(kani::any()));
    let node = std::mem::ManuallyDrop::new(any_node(a));
    f(SubscriberContext { adnl: &node, local_id: &a, peer_id: &b });
}
pub fn first_taker(d: [u8; 3]) -> Option<(usize, u8)> { if d[0] != 0 { Some((0, d[0])) } else if d[1] != 0 { Some((1, d[1])) } else if d[2] != 0 { Some((2, d[2])) } else { None } }
pub fn three_messages() -> ([Arc<dyn MessageSubscriber>; 3], [u8; 3], [u8; 8]) { let (d, m) = any_does(true); ([Arc::new(Sub(0)), Arc::new(Sub(1)), Arc::new(Sub(2))], d, m) }
pub fn spec_calls() -> usize { unsafe { CALLS } }

//@ harness unwind=12 kind=bounded bound="3 subscribers, query of 8 bytes" fns=process_query : the first subscriber that
//@ + does not reject decides, with its own answer; a query all reject comes back rejected; a failure is passed on
pub fn queries() {
    let (d, m) = any_does(true);
    let subs: [Arc<dyn QuerySubscriber>; 3] = [Arc::new(Sub(0)), Arc::new(Sub(1)), Arc::new(Sub(2))];
    with_context(|ctx| {
        let r = ready(process_query(ctx, &subs, Cow::Borrowed(&m)));
        match (&r, first_taker(d)) {
            (Ok(QueryProcessingResult::Rejected), None) => assert!(spec_calls() == 3, "everyone was asked"),
            (Ok(QueryProcessingResult::Processed(None)), Some((i, 1))) => assert!(spec_calls() == i + 1, "nobody else was asked"),
            (Ok(QueryProcessingResult::Processed(Some(v))), Some((i, 2))) => assert!(spec_calls() == i + 1 && v.len() == 2 && v[0] == i as u8 && v[1] == 7, "the accepting subscriber's answer"),
            (Err(_), Some((_, 3))) => {}
            _ => assert!(false, "the first subscriber that takes the query decides"),
        }
        kani::cover!(first_taker(d) == Some((2, 2)), "last answers");
        kani::cover!(first_taker(d).is_none(), "all reject");
        std::mem::forget(r);
    });
    std::mem::forget(subs);
}
//@ harness unwind=12 kind=bounded bound="query of 3 bytes" fns=process_query : a query without a constructor is an error for nobody but its sender
pub fn short_query() {
    let subs: [Arc<dyn QuerySubscriber>; 1] = [Arc::new(Sub(0))];
    with_context(|ctx| {
        let m: [u8; 3] = kani::any();
        assert!(ready(process_query(ctx, &subs, Cow::Borrowed(&m))).is_err(), "refused");
        assert!(spec_calls() == 0, "nobody is asked");
        kani::cover!(true, "short");
    });
    std::mem::forget(subs);
}
