// C05: which incoming packets are accepted.
use super::super::verif::adnl_node::*;
use crate::adnl::keystore::Keystore;
use crate::proto::verif::proto_adnl::any_signature;
use crate::verif::env::set_now;
use everscale_crypto::tl;
use std::sync::atomic::AtomicU32;

// ---- contracts of the callees -------------------------------------------------------------------------------
static mut TEXT: [u8; 6] = [0; 6];
static mut SIG: [u8; 64] = [0; 64];
static mut EXTRACTED: Option<bool> = None;
/// `PacketContentsSignature::extract` (C04): the signed bytes and the signature, or nothing when the packet is too short.
pub(super) unsafe fn extracted<'a>(_s: proto::adnl::PacketContentsSignature, _packet: &mut [u8]) -> Option<(&'a [u8], [u8; 64])> {
    assert!(EXTRACTED.is_none(), "extracted once");
    let found: bool = kani::any();
    EXTRACTED = Some(found);
    if found { Some((&*std::ptr::addr_of!(TEXT), SIG)) } else { None }
}
static mut DELIVERED: Option<(*const PacketsHistory, u64)> = None;
static mut FRESH: bool = false;
/// `PacketsHistory::deliver_packet` (C06): the number is fresh or not.
pub(super) fn delivered(h: &PacketsHistory, seqno: u64) -> bool {
    unsafe { assert!(DELIVERED.is_none(), "delivered once"); DELIVERED = Some((h as *const _, seqno)); FRESH }
}
static mut REINIT: Option<(*const Peer, u32)> = None;
static mut REINIT_OK: bool = false;
/// `Peer::try_reinit_sender` (C07): refuses an older date, otherwise remembers it.
pub(super) fn reinit(p: &Peer, date: u32) -> bool {
    unsafe { assert!(REINIT.is_none(), "reinitialised once"); REINIT = Some((p as *const _, date)); REINIT_OK }
}
static mut NOPS: usize = 0;
/// `Node::send_message` used here: tells the sender that its view of this node is outdated.
pub(super) fn sent(_n: &Node, _l: &NodeIdShort, _p: &NodeIdShort, m: proto::adnl::Message<'_>, _prio: bool) -> Result<()> {
    assert!(matches!(m, proto::adnl::Message::Nop), "an empty message");
    unsafe { NOPS += 1; }
    if kani::any() { Ok(()) } else { Err(anyhow::Error::msg("not sent")) }
}

// ---- the world ------------------------------------------------------------------------------------------------
struct World { node: Node, local: NodeIdShort, peer: NodeIdShort, full: NodeIdFull, at: *const Peer, now: u32 }
fn words(k: &[u8; 32]) -> [u128; 2] { unsafe { std::mem::transmute(*k) } }
fn same(a: &NodeIdShort, b: &NodeIdShort) -> bool { let (a, b) = (words(a.as_slice()), words(b.as_slice())); (a[0] == b[0]) & (a[1] == b[1]) }
/// A node with any options that knows any number of peers; one of them is looked at (or is unknown).
fn any_world(full: NodeIdFull, known: bool) -> World {
    let (local, peer) = (NodeIdShort::new(kani::any()), full.compute_short_id());
    let (node, rx) = node_with(local, Keystore::default(), any_options());
    std::mem::forget(rx);
    let now: u32 = kani::any();
    kani::assume(now < 1 << 31);
    set_now(now);
    unsafe { TEXT = kani::any(); SIG = kani::any(); FRESH = kani::any(); REINIT_OK = kani::any(); }
    let peers = node.peers.get(&local).unwrap();
    let mut at = std::ptr::null();
    if known {
        peers.insert(peer, Peer::new(node.start_time, any_addr(), full));
        let p = peers.get(&peer).unwrap();
        let sent: u8 = kani::any();
        kani::assume(sent < 3);
        let mut i = 0;
        while i < 2 { if i < sent { p.sender_state().history(false).bump_seqno(); p.sender_state().history(true).bump_seqno(); } i += 1; }
        at = p.value() as *const Peer;
    } else { peers.spec_absent(peer); }
    peers.spec_partial();
    World { node, local, peer, full, at, now }
}
/// Any packet header without a sender.
fn any_packet<'a>(signed: bool) -> proto::adnl::IncomingPacketContents<'a> {
    proto::adnl::IncomingPacketContents {
        from: None, from_short: None, messages: Default::default(), address: None,
        seqno: kani::any(), confirm_seqno: kani::any(),
        reinit_dates: if kani::any() { Some(proto::adnl::ReinitDates { local: kani::any(), target: kani::any() }) } else { None },
        signature: if signed { Some(any_signature()) } else { None },
    }
}
impl World {
    fn check(&self, p: &mut proto::adnl::IncomingPacketContents<'_>, from: Option<NodeIdShort>, prio: bool) -> (bool, Option<NodeIdShort>) {
        let mut raw = [0u8; 8];
        let view = PacketView::from(&mut raw[..]);
        let r = std::mem::ManuallyDrop::new(self.node.check_packet(&view, p, &self.local, from, prio));
        match &*r { Ok(Some(id)) => (true, Some(*id)), Ok(None) => (true, None), Err(_) => (false, None) }
    }
    /// Was the sender's identity established? `key` is the claimed sender's.
    fn authentic(&self, signed: bool, mandatory: bool) -> bool {
        unsafe {
            if !signed { assert!(EXTRACTED.is_none() && ed25519::spec_decisions() == 0, "nothing to verify"); return !mandatory; }
            match EXTRACTED {
                None => { assert!(false, "a signature is always looked at"); false }
                Some(false) => false,
                Some(true) => {
                    assert!(ed25519::spec_decisions() == 1, "a signature is always verified");
                    assert!(ed25519::spec_key_is(0, self.full.public_key().as_bytes()), "with the sender's key");
                    if ed25519::spec_outcome(0) { assert!(ed25519::spec_accepted(0, self.full.public_key().as_bytes(), &*std::ptr::addr_of!(TEXT), &*std::ptr::addr_of!(SIG)), "over the signed bytes"); true } else { false }
                }
            }
        }
    }
    /// The outcome for an authenticated packet of a known peer.
    fn fresh(&self, p: &proto::adnl::IncomingPacketContents<'_>, prio: bool, outcome: (bool, Option<NodeIdShort>)) {
        let mut nops = 0;
        let mut ok = true;
        unsafe {
            if let Some(d) = p.reinit_dates {
                let in_time = d.target <= self.node.start_time && d.local <= self.now + self.node.options.clock_tolerance_sec;
                assert!(REINIT.is_some() == in_time, "the sender's reinit date counts exactly when it is not from the future");
                ok = in_time;
                if let Some((q, date)) = REINIT { assert!(q == self.at && date == d.local, "of this peer"); ok = REINIT_OK; }
                if ok && d.target != 0 && d.target < self.node.start_time { ok = false; nops = 1; }
            } else { assert!(REINIT.is_none(), "no reinit date"); }
            assert!(NOPS == nops, "told exactly when it talks to an earlier run of this node");
            let counted = ok && self.node.options.packet_history_enabled && p.seqno.is_some();
            assert!(DELIVERED.is_some() == counted, "the packet number is recorded exactly for packets that got this far");
            if let Some((h, n)) = DELIVERED {
                assert!(h == unsafe { (*self.at).receiver_state().history(prio) as *const _ } && Some(n) == p.seqno, "in this peer's history");
                if !FRESH { assert!(outcome.1.is_none(), "a repeated packet is not accepted"); ok = false; }
            }
            if ok { if let Some(c) = p.confirm_seqno { if c > (*self.at).sender_state().history(prio).seqno() { ok = false; } } }
        }
        assert!(outcome.1.is_some() == ok, "accepted exactly when current, fresh and not confirming the future");
        if let Some(id) = outcome.1 { assert!(same(&id, &self.peer), "attributed to its sender"); }
    }
    /// An unauthenticated packet changes nothing.
    fn ignored(&self, outcome: (bool, Option<NodeIdShort>)) {
        unsafe { assert!(!outcome.0 && REINIT.is_none() && DELIVERED.is_none() && NOPS == 0, "refused without effect"); }
    }
}

fn channel_packet(signed: bool, known: bool) {
    let w = any_world(any_full_id(), known);
    let open: bool = kani::any();
    if open { w.node.channels_by_peers.insert(w.peer, Arc::new(crate::adnl::channel::verif::any_channel(w.local, w.peer))); } else { w.node.channels_by_peers.spec_absent(w.peer); }
    w.node.channels_by_peers.spec_partial();
    let (mut p, prio) = (any_packet(signed), kani::any());
    let r = w.check(&mut p, Some(w.peer), prio);
    if open && known && w.authentic(signed, false) { w.fresh(&p, prio, r) } else { w.ignored(r) }
    kani::cover!(r.1.is_some() || !known, "accepted"); kani::cover!(!r.0, "refused");
    std::mem::forget((w, p));
}
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet : a
//@ + packet that came through a peer's channel
pub fn channel_unsigned() { channel_packet(false, true) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet : a
//@ + packet that came through a peer's channel and carries a signature
pub fn channel_signed() { channel_packet(true, true) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet : a
//@ + packet that came through a channel of a peer that is not known any more
pub fn channel_unknown() { channel_packet(false, false) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet : a
//@ + packet that came through a channel must not name another source; a handshake packet must name one
pub fn explicit_source() {
    let w = any_world(any_full_id(), true);
    w.node.channels_by_peers.insert(w.peer, Arc::new(crate::adnl::channel::verif::any_channel(w.local, w.peer)));
    w.node.channels_by_peers.spec_partial();
    let key: [u8; 32] = kani::any();
    let mut p = any_packet(true);
    let handshake: bool = kani::any();
    if !handshake {
        if kani::any() { p.from_short = Some(&key); if kani::any() { p.from = Some(tl::PublicKey::Ed25519 { key: &key }); } }
        else { p.from = Some(tl::PublicKey::Ed25519 { key: &key }); }
    }
    let r = w.check(&mut p, if handshake { None } else { Some(w.peer) }, kani::any());
    w.ignored(r);
    kani::cover!(handshake, "no source"); kani::cover!(!handshake && p.from.is_some(), "key");
    std::mem::forget((w, p));
}
fn short_packet(signed: bool, known: bool) {
    let w = any_world(any_full_id(), known);
    let id = *w.peer.as_slice();
    let (mut p, prio) = (any_packet(signed), kani::any());
    p.from_short = Some(&id);
    let r = w.check(&mut p, None, prio);
    if known && w.authentic(signed, w.node.options.packet_signature_required) { w.fresh(&p, prio, r) } else { w.ignored(r) }
    kani::cover!(r.1.is_some() || !known, "accepted"); kani::cover!(!r.0, "refused");
    std::mem::forget((w, p));
}
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet : an
//@ + unsigned handshake packet that names its sender by short id
pub fn short_unsigned() { short_packet(false, true) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet : a
//@ + signed handshake packet that names its sender by short id
pub fn short_signed() { short_packet(true, true) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet : a
//@ + signed handshake packet that names an unknown sender by short id
pub fn short_unknown() { short_packet(true, false) }

fn key_packet(signed: bool, known: bool, introduces: bool) {
    let w = any_world(any_full_id(), known);
    let key = *w.full.public_key().as_bytes();
    let (mut p, prio) = (any_packet(signed), kani::any());
    p.from = Some(tl::PublicKey::Ed25519 { key: &key });
    let other: [u8; 32] = kani::any();
    let matching = match kani::any::<bool>() { true => { p.from_short = Some(&other); same(&NodeIdShort::new(other), &w.peer) } false => true };
    let (ip, port, date, expire): (u32, u16, u32, u32) = kani::any();
    if introduces { p.address = Some(proto::adnl::AddressList { address: Some(proto::adnl::Address { ip, port: port as u32 }), version: 0, reinit_date: date, expire_at: expire }); }
    let usable = date <= w.now + w.node.options.clock_tolerance_sec && (expire == 0 || expire >= w.now);
    let before = if known { unsafe { (*w.at).addr() } } else { any_addr() };
    let r = w.check(&mut p, None, prio);
    let peers = w.node.peers.get(&w.local).unwrap();
    if !matching || !w.authentic(signed, w.node.options.packet_signature_required) {
        if !matching { assert!(unsafe { EXTRACTED.is_none() }, "refused at once"); }
        w.ignored(r);
        if known { assert!(unsafe { (*w.at).addr() } == before, "its address is not taken"); } else { assert!(!peers.contains_key(&w.peer), "nobody is introduced"); }
    } else if introduces && !usable {
        w.ignored(r);
        if known { assert!(unsafe { (*w.at).addr() } == before, "its address is not taken"); } else { assert!(!peers.contains_key(&w.peer), "nobody is introduced"); }
    } else if known {
        w.fresh(&p, prio, r);
    } else {
        assert!(r.1.is_none() || introduces && peers.contains_key(&w.peer), "only known or properly introduced senders are accepted");
        if !introduces { w.ignored(r); assert!(!peers.contains_key(&w.peer), "nobody is introduced"); }
        else if r.1.is_some() { match peers.get(&w.peer) { Some(q) => assert!(q.addr() == std::net::SocketAddrV4::new(std::net::Ipv4Addr::from(ip), port) && same(&q.id().compute_short_id(), &w.peer), "introduced with its key and address"), None => {} } }
    }
    kani::cover!(r.1.is_some() || !known && !introduces, "accepted"); kani::cover!(!r.0, "refused");
    std::mem::forget((w, p));
}
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet,NodeIdFull::try_from,NodeIdFull::compute_short_id : an
//@ + unsigned packet that carries the key of a known sender
pub fn key_unsigned() { key_packet(false, true, false) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet,NodeIdFull::try_from,NodeIdFull::compute_short_id : a
//@ + signed packet that carries the key of a known sender
pub fn key_signed() { key_packet(true, true, false) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet,Node::add_peer,parse_address_list : a
//@ + signed packet that carries the key of a known sender and an address
pub fn key_address() { key_packet(true, true, true) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet,Node::add_peer : a
//@ + signed packet that carries the key of an unknown sender
pub fn key_unknown() { key_packet(true, false, false) }
//@ harness unwind=36 given=proto::adnl::PacketContentsSignature::extract>extracted,util::PacketsHistory::deliver_packet>delivered,adnl::peer::Peer::try_reinit_sender>reinit,adnl::Node::send_message>sent fns=Node::check_packet,Node::add_peer,Peer::new,parse_address_list : a
//@ + signed packet by which an unknown sender introduces itself
pub fn key_introduces() { key_packet(true, false, true) }
