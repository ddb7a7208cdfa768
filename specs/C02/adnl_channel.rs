// C02: channel packets: decrypting what the other end encrypted gives back the payload and version,
// anything else is refused, nothing panics.
//@ common

fn roundtrip<const N: usize>(version: Option<u16>) {
    let (a, b) = two_ends(any_id(), any_id());
    let prio: bool = kani::any();
    let payload: [u8; N] = kani::any();
    let mut p = payload.to_vec();
    a.encrypt(&mut p, prio, version);
    assert!(p.len() == N + Channel::compute_prefix_len(version), "prefix length");
    let mut view = PacketView::from(p.as_mut_slice());
    match b.decrypt(&mut view, prio) {
        Ok(v) if v == version => assert!(view.as_slice() == &payload, "payload recovered"),
        Ok(Some(v)) => assert!(version.is_none(), "version recovered"),
        _ => assert!(false, "a packet from the other end is accepted"),
    }
    kani::cover!(prio, "priority");
    kani::cover!(!prio, "ordinary");
}

//@ harness unwind=70 kind=bounded bound="payload of 1 byte" fns=Channel::encrypt,Channel::decrypt,decode_version,build_packet_cipher,compute_packet_data_hash : the
//@ + other end recovers exactly the payload and the protocol version
pub fn roundtrip_v() { roundtrip::<1>(Some(kani::any())) }
//@ harness unwind=70 kind=bounded bound="payload of 1 byte" fns=Channel::encrypt,Channel::decrypt,decode_version,build_packet_cipher,compute_packet_data_hash : the
//@ + other end recovers exactly the payload and the protocol version
pub fn roundtrip_n() { roundtrip::<1>(None) }
//@ harness unwind=70 kind=bounded bound="payload of 5 bytes" fns=Channel::encrypt,Channel::decrypt,decode_version,build_packet_cipher,compute_packet_data_hash : the
//@ + other end recovers exactly the payload and the protocol version
pub fn roundtrip_n5() { roundtrip::<5>(None) }

fn untrusted<const N: usize>() {
    let (_, b) = two_ends(any_id(), any_id());
    let mut p: [u8; N] = kani::any();
    let before = p;
    let mut view = PacketView::from(p.as_mut_slice());
    let r = b.decrypt(&mut view, kani::any());
    match &r {
        Ok(None) => {
            assert!(view.len() == N - 64, "only the data is left");
            assert!(sha2::spec_sha256(view.as_slice())[..] == before[32..64], "accepted data matches its checksum");
        }
        Ok(Some(v)) => {
            assert!(N > 68 && view.len() == N - 68, "only the data is left");
            let mut m = v.to_be_bytes().to_vec();
            m.extend_from_slice(view.as_slice());
            assert!(sha2::spec_sha256(&m)[..] == before[36..68], "accepted data matches its checksum");
        }
        Err(_) => {}
    }
    kani::cover!(matches!(r, Ok(None)), "accepted");
    kani::cover!(r.is_err(), "refused");
    std::mem::forget(r);
}
//@ harness unwind=70 kind=bounded bound="packet of 65 bytes" fns=Channel::decrypt : bytes from the network: accepted only with a matching checksum
pub fn untrusted_short() { untrusted::<65>() }
//@ harness unwind=70 kind=bounded bound="packet of 68 bytes" fns=Channel::decrypt : bytes from the network: accepted only with a matching checksum
pub fn untrusted_edge() { untrusted::<68>() }
//@ harness unwind=74 kind=bounded bound="packet of 71 bytes" fns=Channel::decrypt : bytes from the network: accepted only with a matching checksum
pub fn untrusted_long() { untrusted::<71>() }
//@ harness unwind=70 fns=Channel::decrypt : a packet too short for a channel packet is an error, any length
pub fn too_short() {
    let (_, b) = two_ends(any_id(), any_id());
    let mut p: [u8; 63] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 63);
    let mut view = PacketView::from(&mut p[..n]);
    assert!(b.decrypt(&mut view, kani::any()).is_err(), "too short");
    kani::cover!(n == 63, "longest");
}
