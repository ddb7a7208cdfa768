// C19: the parts cover the message, and the sender advances only on confirmation.
use crate::verif::env::any_bytes;

static mut CHUNK: (usize, usize, u32) = (0, 0, 0);
/// Contract of `RaptorQEncoder::with_data`: an encoder announcing this data.
pub fn made(data: &[u8]) -> RaptorQEncoder {
    unsafe { CHUNK = (data.as_ptr() as usize, data.len(), CHUNK.2 + 1); }
    let count: u32 = kani::any();
    kani::assume(count > 0 && count as usize * 768 >= data.len());
    super::super::encoder::verif::spec_encoder(data.len() as u32, count)
}
/// A sender with a message of any size (of which only the size is known) in any state.
fn any_transfer(n: usize) -> OutgoingTransfer {
    kani::assume(n <= 1 << 33);
    let mut data: Vec<u8> = Vec::with_capacity(n);
    unsafe { data.set_len(n); }
    let t = OutgoingTransfer::new(data, Some(kani::any()));
    t.state.part.store(kani::any(), Ordering::Relaxed);
    t.state.seqno_out.store(kani::any(), Ordering::Relaxed);
    t.state.seqno_in.store(kani::any(), Ordering::Relaxed);
    if kani::any() { t.state.set_reply(); }
    t
}

//@ harness unwind=3 given=util::gen_fast_bytes>env.any_bytes,rldp::encoder::RaptorQEncoder::with_data>made fns=OutgoingTransfer::start_next_part : for messages of all
//@ + sizes and all parts, what is sent as a part is exactly its slice of the message, and there is a part exactly up to the end
pub fn slices() {
    let n: usize = kani::any();
    let mut t = std::mem::ManuallyDrop::new(any_transfer(n));
    let base = t.data.as_ptr() as usize;
    let (part, reply) = (t.state.part(), t.state.has_reply());
    let old: u32 = kani::any();
    kani::assume(old <= part);
    t.current_message_part = old;
    let (o, i) = (t.state.seqno_out(), t.state.seqno_in());
    unsafe { CHUNK.2 = 0; }
    let start = part as usize * SLICE;
    let more = start < n && !(reply && start + SLICE >= n);
    let r = t.start_next_part();
    match &r {
        Ok(Some(count)) => {
            let (p, l, c) = unsafe { CHUNK };
            assert!(more && c == 1, "there is such a part");
            assert!(p == base + start, "it starts where the previous part ended");
            assert!(l == if n - start < SLICE { n - start } else { SLICE }, "and takes the rest or a full slice");
            assert!(*count as usize * 768 >= l && *count > 0, "with packets for all of it");
            assert!(t.current_message_part == part, "and the number the peer confirmed");
            if part != old { assert!(t.state.seqno_out() == 0 && t.state.seqno_in() == 0, "numbers start over with a part"); }
            else { assert!(t.state.seqno_out() == o && t.state.seqno_in() == i, "and go on within it"); }
        }
        Ok(None) => assert!(!more, "the whole message is covered"),
        Err(_) => assert!(false, "this cannot fail"),
    }
    assert!(t.state.part() == part, "the part changes only on confirmation");
    kani::cover!(part == 3 && more && n == 3 * SLICE + 1, "last, shortest part");
    kani::cover!(part == u32::MAX, "any part");
    std::mem::forget(r);
}

static mut ASKED: u32 = 0;
static mut NONE: bool = false;
static mut GIVEN: u32 = 0;
/// Contract of `RaptorQEncoder::encode`: some packet with its number, a repair packet numbered no lower than asked, or none.
pub fn coded(_e: &mut RaptorQEncoder, seqno: &mut u32) -> Result<Vec<u8>> {
    unsafe { ASKED = *seqno; GIVEN = kani::any(); kani::assume(GIVEN <= MAX_SEQNO); }
    if unsafe { NONE } { return Err(anyhow::Error::msg("no packet")); }
    *seqno = unsafe { GIVEN };
    Ok(vec![5, 6, 7, 8])
}

fn packets(ready: bool) -> (bool, bool, bool) {
    let n: usize = kani::any();
    let mut t = std::mem::ManuallyDrop::new(any_transfer(n));
    let part: u32 = kani::any();
    t.current_message_part = part;
    let params = crate::proto::rldp::RaptorQFecType { total_len: kani::any(), packet_len: 768, packet_count: kani::any() };
    if ready { t.encoder = Some(super::super::encoder::verif::spec_encoder(params.total_len, params.packet_count)); }
    let (o, i, id) = (t.state.seqno_out(), t.state.seqno_in(), t.transfer_id);
    let r = t.prepare_chunk();
    let g = unsafe { GIVEN };
    match &r {
        Ok(b) => {
            assert!(ready, "only an encoded part is sent");
            assert!(unsafe { ASKED } == o, "the next number is asked for");
            let word = |p: usize| u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
            assert!(b.len() == 76, "one whole packet");
            assert!(b[4] == id[0] && b[20] == id[16] && b[35] == id[31], "of this transfer");
            assert!(word(40) == params.total_len && word(44) == 768 && word(48) == params.packet_count, "with the parameters of the code");
            assert!(word(52) == part, "for the current part");
            assert!(word(56) as u64 | (word(60) as u64) << 32 == n as u64, "announcing the size of the message");
            assert!(word(64) == g, "under the number of the packet");
            assert!(b[68] == 4 && b[69] == 5 && b[72] == 8, "with its bytes");
        }
        Err(_) => {}
    }
    let sent = r.is_ok();
    std::mem::forget(r);
    let next = t.state.seqno_out();
    assert!(next >= o, "numbers never go back");
    assert!(t.state.seqno_in() == i, "only the peer confirms");
    if sent {
        let follow = if g == o { g + 1 } else { g };
        assert!(next == o || next == follow, "the next number follows the one sent");
        if g >= i && g - i <= WINDOW && g >= o { assert!(next == follow, "inside the window the numbers go on"); }
        if g > i && g - i > WINDOW { assert!(next == o, "outside the window they wait for the peer"); }
    } else { assert!(next == o); }
    (sent, g == 0 && i > 2000, g >= i && g - i == WINDOW)
}
//@ harness unwind=34 given=util::gen_fast_bytes>env.any_bytes,rldp::encoder::RaptorQEncoder::encode>coded fns=OutgoingTransfer::prepare_chunk : in every state, each packet
//@ + sent is a packet of the current part under its own number, and the numbers never go back
pub fn sent_packets() { let (sent, stale, edge) = packets(true); kani::cover!(sent && stale, "confirmation from an earlier part"); kani::cover!(sent && edge, "edge of the window"); }
//@ harness unwind=34 given=util::gen_fast_bytes>env.any_bytes,rldp::encoder::RaptorQEncoder::encode>coded fns=OutgoingTransfer::prepare_chunk : nothing is sent before the part is encoded
pub fn nothing_yet() { let (sent, _, _) = packets(false); kani::cover!(!sent, "refused"); }

//@ harness unwind=3 given=util::gen_fast_bytes>env.any_bytes fns=OutgoingTransferState::set_part,OutgoingTransferState::set_seqno_in,OutgoingTransferState::set_seqno_out : confirmations
//@ + for other parts or of numbers not sent change nothing
pub fn confirmations() {
    let s = OutgoingTransferState::default();
    let (p, o, i): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    s.part.store(p, Ordering::Relaxed);
    s.seqno_out.store(o, Ordering::Relaxed);
    s.seqno_in.store(i, Ordering::Relaxed);
    let next: u32 = kani::any();
    kani::assume(next >= 1);
    s.set_part(next);
    assert!(s.part() == if next - 1 == p { next } else { p }, "only the part being sent is completed");
    assert!(s.seqno_in() == i && s.seqno_out() == o && !s.has_reply());
    let q: u32 = kani::any();
    s.set_seqno_in(q);
    assert!(s.seqno_in() == if q <= o && q > i { q } else { i }, "only a number that was sent moves the window");
    let w = s.seqno_in();
    s.set_seqno_out(q);
    assert!(s.seqno_out() == if q > o { q } else { o } && s.seqno_in() == w);
    kani::cover!(next - 1 == p && q <= o && q > i, "all effective");
    std::mem::forget(s);
}

//@ harness unwind=3 given=util::gen_fast_bytes>env.any_bytes fns=OutgoingTransfer::is_finished,OutgoingTransfer::is_finished_or_next_part : a part is over exactly when the peer
//@ + confirmed it, the message exactly when its reply came with the last part
pub fn over() {
    let n: usize = kani::any();
    let t = std::mem::ManuallyDrop::new(any_transfer(n));
    let part: u32 = kani::any();
    let now = t.state.part();
    kani::assume(part < u32::MAX && part <= now);
    let last = (now as usize + 1) * SLICE >= n;
    assert!(t.is_finished() == (t.state.has_reply() && last), "finished with the reply to the last part");
    let r = t.is_finished_or_next_part(part);
    match &r {
        Ok(true) => assert!(t.is_finished() || now == part + 1, "over: confirmed or answered"),
        Ok(false) => assert!(now == part && !t.is_finished(), "not confirmed yet"),
        Err(_) => assert!(now > part + 1, "the peer confirmed parts that were not sent"),
    }
    kani::cover!(matches!(&r, Ok(true)) && now == part + 1, "next part");
    kani::cover!(r.is_err(), "hostile");
    std::mem::forget(r);
}
/// Spec-side: put a transfer into a state.
pub(crate) fn spec_state(s: &OutgoingTransferState, part: u32, seqno_out: u32) { s.part.store(part, Ordering::Relaxed); s.seqno_out.store(seqno_out, Ordering::Relaxed); }
//@ harness unwind=34 given=util::gen_fast_bytes>env.any_bytes,rldp::encoder::RaptorQEncoder::encode>coded fns=OutgoingTransfer::prepare_chunk : a part without further packets is an error and changes nothing
pub fn no_packet() { unsafe { NONE = true; } let (sent, _, _) = packets(true); assert!(!sent, "nothing to send"); kani::cover!(true, "refused"); }
