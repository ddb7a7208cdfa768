// C10 (channel tables): at any time a peer has at most one channel, reachable by exactly its two incoming ids.
use crate::adnl::channel::verif::any_channel;
use super::super::verif::adnl_node::*;
use crate::adnl::keystore::Keystore;

struct World { node: Node, local: NodeIdShort, peer: NodeIdShort, old: Option<Arc<Channel>> }

/// Channel tables of any size that agree with each other, known at one peer (with or without a
/// channel). Touching the channels of any other peer breaks the frame.
fn any_world(has_channel: bool) -> World {
    let (local, peer) = (NodeIdShort::new(kani::any()), NodeIdShort::new(kani::any()));
    let (node, rx) = node_with(local, Keystore::default(), any_options());
    std::mem::forget(rx);
    let reinit: u32 = kani::any();
    kani::assume(reinit < u32::MAX);
    node.peers.get(&local).unwrap().insert(peer, Peer::new(reinit, any_addr(), any_full_id()));
    let old = if has_channel {
        let old = Arc::new(any_channel(local, peer));
        let (o, p) = (*old.ordinary_channel_in_id(), *old.priority_channel_in_id());
        kani::assume(o != p);
        node.channels_by_peers.insert(peer, old.clone());
        node.channels_by_id.insert(o, ChannelReceiver::Ordinary(old.clone()));
        node.channels_by_id.insert(p, ChannelReceiver::Priority(old.clone()));
        Some(old)
    } else { node.channels_by_peers.spec_absent(peer); None };
    node.channels_by_peers.spec_partial();
    node.channels_by_id.spec_partial();
    World { node, local, peer, old }
}
impl World {
    fn reachable(&self, c: &Arc<Channel>, o: &AdnlChannelId, p: &AdnlChannelId) {
        match self.node.channels_by_id.get(o) { Some(e) => match e.value() { ChannelReceiver::Ordinary(x) => assert!(Arc::ptr_eq(x, c), "ordinary packets reach the peer's channel"), _ => assert!(false, "the ordinary id is ordinary") }, None => assert!(false, "ordinary packets reach the peer's channel") };
        match self.node.channels_by_id.get(p) { Some(e) => match e.value() { ChannelReceiver::Priority(x) => assert!(Arc::ptr_eq(x, c), "priority packets reach the peer's channel"), _ => assert!(false, "the priority id is priority") }, None => assert!(false, "priority packets reach the peer's channel") };
    }
}

fn new_key() -> ed25519::PublicKey { ed25519::PublicKey::from_bytes(kani::any()).unwrap() }
fn context(confirm: bool) -> ChannelCreationContext { if confirm { ChannelCreationContext::ConfirmChannel } else { ChannelCreationContext::CreateChannel } }
impl World {
    /// The peer's channel after the offer, as reached for sending.
    fn current(&self) -> Arc<Channel> {
        match self.node.channels_by_peers.get(&self.peer) { Some(c) => c.value().clone(), None => { assert!(false, "the peer has a channel"); loop {} } }
    }
    fn is_offered(&self, c: &Arc<Channel>, key: &ed25519::PublicKey, date: u32, confirm: bool) {
        assert!(c.peer_channel_public_key() == key && c.peer_channel_date() == date, "the offer is remembered");
        assert!(c.local_id() == &self.local && c.peer_id() == &self.peer, "the new channel belongs to this pair");
        assert!(c.ready() == confirm, "ready only when confirmed");
    }
}

//@ harness unwind=70 fns=Node::create_channel,Channel::new,Node::get_peers : a channel offer when the peer has no
//@ + channel, tables of any size: the channel made is the one both channel keys determine
pub fn first_channel() {
    let w = any_world(false);
    let (key, date, confirm): (_, u32, bool) = (new_key(), kani::any(), kani::any());
    let expect = { let peers = w.node.get_peers(&w.local).ok().unwrap(); let p = peers.get(&w.peer).unwrap(); Channel::new(w.local, w.peer, p.channel_key(), key, date, context(confirm)) };
    let (o, p) = (*expect.ordinary_channel_in_id(), *expect.priority_channel_in_id());
    kani::assume(o != p);
    w.node.channels_by_id.spec_absent(o);
    w.node.channels_by_id.spec_absent(p);
    assert!(w.node.create_channel(&w.local, &w.peer, key, date, context(confirm)).is_ok(), "a channel offer from a known peer is taken");
    let now = w.current();
    w.reachable(&now, &o, &p);
    assert!(now.ordinary_channel_in_id() == &o && now.priority_channel_in_id() == &p, "the new channel is keyed by both channel keys");
    w.is_offered(&now, &key, date, confirm);
    kani::cover!(confirm, "confirm"); kani::cover!(!confirm, "create");
    std::mem::forget((w, now, expect));
}
//@ harness unwind=70 fns=Node::create_channel,Channel::is_still_valid,Channel::set_ready,Node::get_peers : an
//@ + outdated or repeated offer keeps the peer's channel, tables of any size
pub fn kept_channel() {
    let w = any_world(true);
    let old = w.old.as_ref().unwrap();
    let (key, date, confirm): (_, u32, bool) = (new_key(), kani::any(), kani::any());
    kani::assume(old.peer_channel_public_key() == &key || old.peer_channel_date() >= date);
    let was_ready = old.ready();
    assert!(w.node.create_channel(&w.local, &w.peer, key, date, context(confirm)).is_ok(), "a channel offer from a known peer is taken");
    let now = w.current();
    assert!(Arc::ptr_eq(&now, old), "an outdated or repeated offer does not replace the channel");
    assert!(old.ready() == (was_ready || confirm), "confirmation makes the channel ready, and nothing makes it unready");
    w.reachable(old, old.ordinary_channel_in_id(), old.priority_channel_in_id());
    kani::cover!(confirm && !was_ready, "confirmed");
    std::mem::forget((w, now));
}
//@ harness unwind=70 fns=Node::create_channel,Channel::new,Channel::is_still_valid,Node::get_peers : a newer offer
//@ + with another key replaces the peer's channel, tables of any size (new ids are assumed not to collide)
pub fn replaced_channel() {
    let w = any_world(true);
    let old = w.old.as_ref().unwrap();
    let (key, date, confirm): (_, u32, bool) = (new_key(), kani::any(), kani::any());
    kani::assume(old.peer_channel_public_key() != &key && old.peer_channel_date() < date);
    w.node.channels_by_id.spec_fresh();
    assert!(w.node.create_channel(&w.local, &w.peer, key, date, context(confirm)).is_ok(), "a channel offer from a known peer is taken");
    let now = w.current();
    assert!(!Arc::ptr_eq(&now, old), "a newer offer with another key replaces the channel");
    w.is_offered(&now, &key, date, confirm);
    let (o, p) = (&{ *now.ordinary_channel_in_id() }, &{ *now.priority_channel_in_id() });
    let (x, y) = (old.ordinary_channel_in_id(), old.priority_channel_in_id());
    kani::assume(o != p && x != o && x != p && y != o && y != p);
    w.reachable(&now, o, p);
    assert!(!w.node.channels_by_id.contains_key(x) && !w.node.channels_by_id.contains_key(y), "the replaced channel is no longer reachable");
    kani::cover!(confirm, "confirm"); kani::cover!(!confirm, "create");
    std::mem::forget((w, now));
}

//@ harness unwind=34 fns=Node::create_channel : no channel is made for an unknown peer
pub fn unknown_peer() {
    let w = any_world(false);
    let stranger = NodeIdShort::new(kani::any());
    kani::assume(stranger != w.peer);
    let r = w.node.create_channel(&w.local, &stranger, ed25519::PublicKey::from_bytes(kani::any()).unwrap(), kani::any(), ChannelCreationContext::CreateChannel);
    assert!(r.is_err(), "refused");
    kani::cover!(stranger == w.local, "own id");
    std::mem::forget(w);
}

fn removed_with_peer(remove: bool) {
    let w = any_world(true);
    let old = w.old.clone().unwrap();
    if remove { assert!(matches!(w.node.remove_peer(&w.local, &w.peer), Ok(true)), "the peer was known"); }
    else { assert!(w.node.reset_peer(&w.local, &w.peer).is_ok(), "the peer is known"); }
    assert!(!w.node.channels_by_peers.contains_key(&w.peer), "no channel is left for sending");
    assert!(!w.node.channels_by_id.contains_key(old.ordinary_channel_in_id()), "nor for receiving");
    assert!(!w.node.channels_by_id.contains_key(old.priority_channel_in_id()), "nor for receiving");
    assert!(w.node.get_peers(&w.local).ok().unwrap().contains_key(&w.peer) == !remove, "a reset peer stays known");
    kani::cover!(w.local != w.peer, "done");
    std::mem::forget(w);
}
//@ harness unwind=34 fns=Node::remove_peer : removing a peer takes its channel out of both tables and leaves the others
pub fn removed_peer() { removed_with_peer(true) }
//@ harness unwind=34 fns=Node::reset_peer,Peer::reset : resetting a peer takes its channel out of both tables and leaves the others
pub fn reset_peer() { removed_with_peer(false) }
