// C01: the two ends of a channel agree on ids and keys.
//@ common
//@ harness unwind=70 fns=Channel::new,ChannelSide::from_secret,build_priority_secret,compute_channel_id,Channel::encrypt : whatever the ids and
//@ + key pairs, packets written by one end carry exactly the id the other end listens on, per priority class and in both directions
pub fn ids_agree() {
    let (ia, ib) = (any_id(), any_id());
    let (a, b) = two_ends(ia, ib);
    let prio: bool = kani::any();
    let mut p = vec![7u8];
    a.encrypt(&mut p, prio, None);
    let id: &[u8; 32] = if prio { b.priority_channel_in_id() } else { b.ordinary_channel_in_id() };
    assert!(&p[..32] == id, "the packet carries the id the receiver listens on");
    assert!(a.local_id() == &ia && a.peer_id() == &ib && b.local_id() == &ib && b.peer_id() == &ia);
    kani::cover!(ia < ib, "local id is smaller");
    kani::cover!(ia > ib, "local id is larger");
    kani::cover!(ia == ib, "same id");
}

//@ harness unwind=70 fns=Channel::new,ChannelSide::from_secret,build_priority_secret,compute_channel_id : both ends derive equal secrets:
//@ + what one end uses for writing, the other uses for reading, for each class, and an id is the id of its secret
pub fn secrets_agree() {
    let (a, b) = two_ends(any_id(), any_id());
    assert!(a.channel_out.ordinary.secret == b.channel_in.ordinary.secret);
    assert!(a.channel_in.ordinary.secret == b.channel_out.ordinary.secret);
    assert!(a.channel_out.priority.secret == b.channel_in.priority.secret);
    assert!(a.channel_in.priority.secret == b.channel_out.priority.secret);
    assert!(a.channel_in.ordinary.id == b.channel_out.ordinary.id && a.channel_in.priority.id == b.channel_out.priority.id);
    let (o, p) = (a.channel_in.ordinary.secret, a.channel_in.priority.secret);
    assert!((a.channel_in.ordinary.id == a.channel_in.priority.id) == (o == p), "distinct secrets have distinct ids");
    kani::cover!(o != p && a.channel_in.ordinary.secret != a.channel_out.ordinary.secret, "four different keys");
}

//@ harness unwind=34 fns=build_priority_secret : the priority key is a permutation-based involution of the ordinary key (swap of
//@ + neighbouring bytes), so different ordinary keys give different priority keys
pub fn priority_key() {
    let s: [u8; 32] = kani::any();
    let p = build_priority_secret(s);
    let i: usize = kani::any();
    kani::assume(i < 32);
    assert!(p[i] == s[i ^ 1]);
    assert!(build_priority_secret(p) == s);
    kani::cover!(p != s, "differs");
}

//@ harness unwind=70 fns=Channel::new : directions use mirrored keys: unless both ids are equal, the reading key is the reversed writing key,
//@ + so a packet reflected back to its sender is not in the sender's incoming id unless the key is a palindrome
pub fn directions_differ() {
    let (ia, ib) = (any_id(), any_id());
    let (a, _b) = two_ends(ia, ib);
    let i: usize = kani::any();
    kani::assume(i < 32);
    if ia != ib { assert!(a.channel_in.ordinary.secret[i] == a.channel_out.ordinary.secret[31 - i], "keys are mirrored"); }
    else { assert!(a.channel_in.ordinary.secret == a.channel_out.ordinary.secret); }
    kani::cover!(ia != ib && a.channel_in.ordinary.id != a.channel_out.ordinary.id, "different ids per direction");
}
