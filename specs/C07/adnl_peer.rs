// C07: what a node remembers about a peer: address, reinit date, packet counters, channel key.
use crate::util::verif::util_packets_history::{any_recv_history, any_send_history, is_fresh, same, snap, Snap};

fn any_addr() -> SocketAddrV4 { SocketAddrV4::new(Ipv4Addr::from(kani::any::<u32>()), kani::any()) }
fn any_full_id() -> NodeIdFull { NodeIdFull::new(ed25519::PublicKey::from_bytes(kani::any()).unwrap()) }
fn words(id: &NodeIdFull) -> [u128; 2] { unsafe { std::mem::transmute(id.public_key().to_bytes()) } }
fn same_id(a: &NodeIdFull, b: &NodeIdFull) -> bool { let (x, y) = (words(a), words(b)); x[0] == y[0] && x[1] == y[1] }
/// A peer in an arbitrary reachable state.
fn any_peer() -> Peer {
    let p = Peer {
        id: any_full_id(),
        addr: AtomicU64::new(0),
        channel_key: ed25519::KeyPair::generate(&mut rand::thread_rng()),
        receiver_state: PeerState { ordinary_history: any_recv_history(), priority_history: any_recv_history(), reinit_date: AtomicU32::new(kani::any()) },
        sender_state: PeerState { ordinary_history: any_send_history(), priority_history: any_send_history(), reinit_date: AtomicU32::new(kani::any()) },
    };
    p.set_addr(any_addr());
    p
}

//@ harness unwind=12 fns=pack_socket_addr,unpack_socket_addr,Peer::new,Peer::addr,Peer::set_addr : every
//@ + IPv4 address and port survives being stored
pub fn address() {
    let (a, b) = (any_addr(), any_addr());
    let peer = Peer::new(kani::any(), a, any_full_id());
    assert!(peer.addr() == a, "the initial address is reported");
    peer.set_addr(b);
    assert!(peer.addr() == b, "the last address set is reported");
    assert!(unpack_socket_addr(pack_socket_addr(&a)) == a, "packing loses nothing");
    assert!((pack_socket_addr(&a) == pack_socket_addr(&b)) == (a == b), "packing is injective");
    kani::cover!(a.port() != b.port() && a.ip() == b.ip(), "same ip");
    kani::cover!(a.ip() != b.ip(), "other ip");
}

//@ harness unwind=12 fns=Peer::new,PeerState::for_receive_with_reinit_date,PeerState::for_send,PeerState::history : a new
//@ + peer starts with empty packet histories, the local reinit date, and no known remote reinit date
pub fn new_peer() {
    let (date, id) = (kani::any(), any_full_id());
    let peer = Peer::new(date, any_addr(), id);
    let prio = kani::any();
    assert!(same_id(peer.id(), &id));
    assert!(peer.receiver_state().reinit_date() == date, "local reinit date");
    assert!(peer.sender_state().reinit_date() == 0, "the remote reinit date is not known yet");
    assert!(peer.receiver_state().history(prio).seqno() == 0 && peer.sender_state().history(prio).seqno() == 0, "empty histories");
    assert!(is_fresh(peer.receiver_state().history(prio)) && is_fresh(peer.sender_state().history(prio)), "nothing received or sent yet");
    assert!(peer.sender_state().history(prio).bump_seqno() == 1, "numbering starts at one");
    assert!(peer.sender_state().history(!prio).seqno() == 0 && peer.receiver_state().history(!prio).seqno() == 0, "the priority history is separate");
    kani::cover!(prio, "priority");
}

//@ harness unwind=12 fns=Peer::try_reinit_sender,PeerState::set_reinit_date,PacketsHistory::reset : an older reinit date is
//@ + refused and changes nothing; the same date is accepted and changes nothing; a newer one is stored, and clears all
//@ + four packet histories exactly when the peer was known before
pub fn reinit() {
    let peer = any_peer();
    let (old, new): (u32, u32) = (peer.sender_state().reinit_date(), kani::any());
    let histories = |p: &Peer| -> [Snap; 4] { [snap(p.receiver_state().history(true)), snap(p.receiver_state().history(false)), snap(p.sender_state().history(true)), snap(p.sender_state().history(false))] };
    let before = histories(&peer);
    let local = peer.receiver_state().reinit_date();
    let ok = peer.try_reinit_sender(new);
    kani::cover!(ok && new > old && old != 0, "the peer restarted");
    kani::cover!(ok && old == 0 && new > 0, "first contact");
    kani::cover!(!ok, "stale date");
    assert!(ok == (new >= old), "accepted exactly when not older than the known date");
    assert!(peer.sender_state().reinit_date() == if new > old { new } else { old }, "the newest date is kept");
    assert!(peer.receiver_state().reinit_date() == local, "the local date is untouched");
    if new > old && old != 0 {
        assert!(is_fresh(peer.receiver_state().history(true)) && is_fresh(peer.receiver_state().history(false)), "received packets of the old session are forgotten");
        assert!(is_fresh(peer.sender_state().history(true)) && is_fresh(peer.sender_state().history(false)), "numbering starts over");
    } else {
        let after = histories(&peer);
        assert!(same(&after[0], &before[0]) && same(&after[1], &before[1]) && same(&after[2], &before[2]) && same(&after[3], &before[3]), "histories are kept otherwise");
    }
}

//@ harness unwind=12 fns=Peer::reset : resetting a peer gives it a new channel key, empty histories, and a reinit date that
//@ + the remote side will see as newer
pub fn reset() {
    let mut peer = any_peer();
    let date = peer.receiver_state().reinit_date();
    kani::assume(date < u32::MAX);
    let (id, addr) = (*peer.id(), peer.addr());
    let key = peer.channel_key().public_key;
    peer.reset();
    let prio = kani::any();
    assert!(peer.receiver_state().reinit_date() > date, "the remote side will start over");
    assert!(peer.sender_state().reinit_date() == 0, "the remote date is forgotten");
    assert!(peer.receiver_state().history(prio).seqno() == 0 && peer.sender_state().history(prio).seqno() == 0, "empty histories");
    assert!(is_fresh(peer.receiver_state().history(prio)) && is_fresh(peer.sender_state().history(prio)), "nothing received or sent yet");
    assert!(same_id(peer.id(), &id) && peer.addr() == addr, "identity and address are kept");
    kani::cover!(!same_id(&NodeIdFull::new(key), &NodeIdFull::new(peer.channel_key().public_key)), "a new channel key");
}

//@ harness unwind=12 fns=PeerState::history,PacketsHistory::bump_seqno,PacketsHistory::deliver_packet : numbering for sending
//@ + increases by one, and ordinary and priority traffic are counted apart
pub fn separate_histories() {
    let peer = any_peer();
    let prio: bool = kani::any();
    let (s, t) = (peer.sender_state().history(prio).seqno(), peer.sender_state().history(!prio).seqno());
    kani::assume(s < u64::MAX);
    assert!(peer.sender_state().history(prio).bump_seqno() == s + 1, "the next number is used");
    assert!(peer.sender_state().history(prio).seqno() == s + 1, "and remembered");
    assert!(peer.sender_state().history(!prio).seqno() == t, "the other history is untouched");
    assert!(!std::ptr::eq(peer.receiver_state().history(true), peer.receiver_state().history(false)), "received packets are remembered apart");
    kani::cover!(prio && s > 5, "priority");
}
