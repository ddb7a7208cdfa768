// C03: handshake packets decrypt to what was sent, and nothing else is accepted.
use crate::adnl::keystore::Keystore;

type Keys = FastHashMap<NodeIdShort, Arc<Key>>;
/// Local keys of any number, known at one arbitrary key.
fn any_keys() -> (Keys, NodeIdShort, NodeIdFull) {
    let mut ks = Keystore::default();
    let id = match ks.add_key(kani::any(), 1) { Ok(id) => id, Err(_) => loop {} };
    let key = match ks.key_by_id(&id) { Ok(k) => k.clone(), Err(_) => loop {} };
    let full = *key.full_id();
    let mut keys = Keys::default();
    keys.insert(id, key);
    keys.spec_partial();
    std::mem::forget(ks);
    (keys, id, full)
}

fn roundtrip<const N: usize>(version: Option<u16>) {
    let (keys, id, full) = any_keys();
    let payload: [u8; N] = kani::any();
    let mut p = payload.to_vec();
    build_handshake_packet(&id, &full, &mut p, version);
    assert!(p.len() == N + compute_handshake_prefix_len(version), "prefix length");
    let mut view = PacketView::from(p.as_mut_slice());
    match parse_handshake_packet(&keys, &mut view) {
        Ok(Some((to, v))) if v == version => {
            assert!(to == id, "addressed to the key it was built for");
            assert!(view.as_slice() == &payload, "payload recovered");
        }
        Ok(Some((_, Some(_)))) => assert!(version.is_none(), "version recovered"),
        _ => assert!(false, "a packet for this node is accepted"),
    }
    kani::cover!(true, "parsed");
    std::mem::forget(keys);
}
//@ harness unwind=102 kind=bounded bound="payload of 3 bytes" fns=build_handshake_packet,parse_handshake_packet,decode_version,build_packet_cipher,compute_packet_data_hash : the
//@ + owner of the key recovers exactly the bytes and the protocol version
pub fn roundtrip_v() { roundtrip::<3>(Some(kani::any())) }
//@ harness unwind=102 kind=bounded bound="payload of 3 bytes" fns=build_handshake_packet,parse_handshake_packet,build_packet_cipher,compute_packet_data_hash : the
//@ + owner of the key recovers exactly the bytes and the protocol version
pub fn roundtrip_n() { roundtrip::<3>(None) }
//@ harness unwind=102 kind=bounded bound="payload of 6 bytes" fns=build_handshake_packet,parse_handshake_packet,decode_version,build_packet_cipher,compute_packet_data_hash : the
//@ + owner of the key recovers exactly the bytes and the protocol version
pub fn roundtrip_n6() { roundtrip::<6>(None) }

fn untrusted<const N: usize>() {
    let (keys, id, _) = any_keys();
    let mut p: [u8; N] = kani::any();
    p[..32].copy_from_slice(id.as_slice());
    let before = p;
    let mut view = PacketView::from(p.as_mut_slice());
    let r = parse_handshake_packet(&keys, &mut view);
    match &r {
        Ok(Some((to, None))) => {
            assert!(*to == id && view.len() == N - 96, "only the data is left");
            assert!(sha2::spec_sha256(view.as_slice())[..] == before[64..96], "accepted data matches its checksum");
        }
        Ok(Some((to, Some(v)))) => {
            assert!(*to == id && N > 100 && view.len() == N - 100, "only the data is left");
            let mut m = v.to_be_bytes().to_vec();
            m.extend_from_slice(view.as_slice());
            assert!(sha2::spec_sha256(&m)[..] == before[68..100], "accepted data matches its checksum");
        }
        Ok(None) => assert!(false, "the packet is addressed to this node"),
        Err(_) => {}
    }
    kani::cover!(matches!(r, Ok(Some((_, None)))), "accepted");
    kani::cover!(r.is_err(), "refused");
    std::mem::forget((keys, r));
}
//@ harness unwind=102 kind=bounded bound="packet of 97 bytes" fns=parse_handshake_packet : bytes from the network: accepted only with a matching checksum
pub fn untrusted_short() { untrusted::<97>() }
//@ harness unwind=102 kind=bounded bound="packet of 103 bytes" fns=parse_handshake_packet : bytes from the network: accepted only with a matching checksum
pub fn untrusted_long() { untrusted::<103>() }
//@ harness unwind=102 kind=bounded bound="packet of 100 bytes" fns=parse_handshake_packet : bytes from the network: accepted only with a matching checksum
pub fn untrusted_edge() { untrusted::<100>() }

//@ harness unwind=106 kind=bounded bound="packet of 104 bytes" fns=parse_handshake_packet : a packet for a key this node does not own is left untouched
pub fn other_key() {
    let (mut keys, id, _) = any_keys();
    let mut p: [u8; 104] = kani::any();
    let before = p;
    let to = NodeIdShort::new(p[..32].try_into().unwrap());
    kani::assume(to != id);
    keys.spec_absent(to);
    let mut view = PacketView::from(p.as_mut_slice());
    assert!(matches!(parse_handshake_packet(&keys, &mut view), Ok(None)), "not addressed to this node");
    assert!(view.as_slice() == &before, "the packet is left as received");
    kani::cover!(true, "foreign");
    std::mem::forget(keys);
}
//@ harness unwind=102 fns=parse_handshake_packet : a packet too short for a handshake is an error, any length
pub fn too_short() {
    let (keys, _, _) = any_keys();
    let mut p: [u8; 95] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 95);
    let mut view = PacketView::from(&mut p[..n]);
    assert!(parse_handshake_packet(&keys, &mut view).is_err(), "too short");
    kani::cover!(n == 95, "longest");
    std::mem::forget(keys);
}
//@ harness unwind=102 kind=bounded bound="packet of 101 bytes" fns=parse_handshake_packet : an invalid ephemeral key is an error
pub fn invalid_key() {
    let (keys, id, _) = any_keys();
    let mut p: [u8; 101] = kani::any();
    p[..32].copy_from_slice(id.as_slice());
    ed25519::spec_declare_invalid(p[32..64].try_into().unwrap());
    let mut view = PacketView::from(p.as_mut_slice());
    assert!(matches!(parse_handshake_packet(&keys, &mut view), Err(HandshakeError::InvalidPublicKey)), "invalid key");
    kani::cover!(true, "refused");
    std::mem::forget(keys);
}
