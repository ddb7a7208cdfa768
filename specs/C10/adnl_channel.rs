// C10 (per channel): when a channel may be replaced, used for sending, or dropped.
//@ common

//@ harness unwind=34 fns=Channel::is_still_valid,Channel::new : a channel stays valid for its own key and for
//@ + anything not newer; only a newer key of a later date replaces it
pub fn still_valid() {
    let c = any_channel(any_id(), any_id());
    let (key, date) = (any_key().public_key, kani::any());
    let same = &key == c.peer_channel_public_key();
    let r = c.is_still_valid(&key, date);
    assert!(r == (same || date <= c.peer_channel_date()), "replaced exactly by another key with a later date");
    kani::cover!(!r, "replaced");
    kani::cover!(r && !same, "outdated offer");
    kani::cover!(r && same && date > c.peer_channel_date(), "same key again");
}

//@ harness unwind=70 fns=Channel::new,Channel::ready,Channel::set_ready : a created channel is used for sending
//@ + only once confirmed; a confirmed one at once
pub fn readiness() {
    let ctx = if kani::any() { ChannelCreationContext::CreateChannel } else { ChannelCreationContext::ConfirmChannel };
    let (a, b, k, p, d) = (any_id(), any_id(), any_key(), any_key().public_key, kani::any());
    let c = Channel::new(a, b, &k, p, d, ctx);
    assert!(c.ready() == (ctx == ChannelCreationContext::ConfirmChannel), "ready only when the other side has it");
    assert!(c.local_id() == &a && c.peer_id() == &b && c.peer_channel_public_key() == &p && c.peer_channel_date() == d, "the channel remembers its parties");
    c.set_ready();
    assert!(c.ready(), "confirmation makes it ready");
    kani::cover!(ctx == ChannelCreationContext::CreateChannel, "created");
}

//@ harness unwind=4 fns=Channel::update_drop_timeout,Channel::reset_drop_timeout : an unanswered channel is dropped
//@ + only after the whole timeout has passed since the first unanswered query, and any received packet starts over
pub fn drop_timeout() {
    let c = any_channel(any_id(), any_id());
    c.reset_drop_timeout();
    let (t0, t1, t2, timeout): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    kani::assume(t0 > 0 && t0 <= t1 && t1 <= t2 && t2 < 1 << 31 && timeout < 1 << 31);
    assert!(!c.update_drop_timeout(t0, timeout), "the first unanswered query drops nothing");
    let r1 = c.update_drop_timeout(t1, timeout);
    assert!(r1 == (t1 as u64 > t0 as u64 + timeout as u64), "dropped once the timeout since the first unanswered query is over");
    let r2 = c.update_drop_timeout(t2, timeout);
    assert!(r2 == (t2 as u64 > t0 as u64 + timeout as u64), "later unanswered queries do not postpone it");
    c.reset_drop_timeout();
    assert!(!c.update_drop_timeout(t2, timeout), "an answer starts over");
    kani::cover!(r1 && r2, "dropped");
    kani::cover!(!r1 && r2, "dropped later");
}
