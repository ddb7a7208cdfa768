// C19 (encoder): source packets in order, then repair packets numbered after them.
//@ harness unwind=3 fns=RaptorQEncoder::encode : for parts of all sizes and all numbers asked for, a repair packet never takes
//@ + the number of a source packet, and the numbers end before RaptorQ has no more
pub fn repairs() {
    let count: u32 = kani::any();
    let mut e = std::mem::ManuallyDrop::new(spec_encoder(kani::any(), count));
    let asked: u32 = kani::any();
    let mut seqno = asked;
    let r = e.encode(&mut seqno);
    let ok = r.is_ok();
    std::mem::forget(r);
    if ok {
        assert!(seqno >= count && seqno >= asked && seqno <= MAX_SEQNO, "repair packets carry numbers no source packet has");
        if asked >= count { assert!(seqno == asked, "and the number asked for"); }
    } else { assert!(asked > MAX_SEQNO || count > MAX_SEQNO, "there is a repair packet for every number of 24 bits"); }
    kani::cover!(ok && asked < count, "stale number");
    kani::cover!(!ok, "numbers are used up");
}

/// Spec-side: an encoder announcing a part of this length.
pub(crate) fn spec_encoder(total_len: u32, packet_count: u32) -> RaptorQEncoder {
    RaptorQEncoder { engine: Encoder::spec_new(packet_count), params: RaptorQFecType { total_len, packet_len: MAX_TRANSMISSION_UNIT, packet_count }, source_packets: Vec::new(), encoder_index: 0 }
}
