// C18: an incoming transfer collects exactly the announced bytes, part by part.
use crate::proto::rldp::RaptorQFecType;
use super::super::decoder::verif::{any_decoder, any_len, any_params};
use std::sync::atomic::AtomicBool;

/// The invariant of a transfer: every part counted added at least one byte, nothing is collected before
/// the size is known, and never more than announced; the size is within the limit.
fn sound(t: &IncomingTransfer) -> bool {
    t.confirm_count <= 9 && match t.total_size {
        None => t.part == 0 && t.data.is_empty() && t.decoder.is_none(),
        Some(n) => n <= t.max_answer_size as usize && t.data.len() <= n && t.part as usize <= t.data.len()
            && match &t.decoder {
                Some(d) => t.data.len() == n || d.params().total_len as usize <= n - t.data.len(),
                None => true,
            },
    }
}
/// A transfer in any state the invariant allows. The bytes themselves are not looked at.
fn any_transfer(started: bool, decoding: bool) -> IncomingTransfer {
    let mut t = IncomingTransfer::new(kani::any(), kani::any());
    t.confirm_count = kani::any();
    t.part = kani::any();
    if started { t.total_size = Some(kani::any()); t.data = any_len(1 << 13); kani::assume(t.data.len() <= 1 << 12); }
    if decoding { t.decoder = Some(any_decoder(any_params())); }
    kani::assume(sound(&t));
    t
}
fn any_part() -> MessagePart { MessagePart { fec_type: any_params(), part: kani::any(), total_size: kani::any(), seqno: kani::any(), data: Vec::new() } }

static mut DECODED: usize = 0;
static mut CALLS: u32 = 0;
/// Contract of `RaptorQDecoder::decode`: nothing yet, or a block of exactly the announced length.
pub fn block(d: &mut RaptorQDecoder, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
    unsafe { CALLS += 1; }
    std::mem::forget(data);
    if kani::any() { return None; }
    let mut v: Vec<u8> = Vec::with_capacity(1 << 12);
    let l = d.params().total_len as usize;
    kani::assume(l >= 1 && l <= 1 << 12);
    unsafe { v.set_len(l); DECODED = l; }
    Some(v)
}
fn check(started: bool, decoding: bool) -> (bool, bool, bool) {
    let mut t = any_transfer(started, decoding);
    let m = any_part();
    let (part, total, fec) = (m.part, m.total_size, m.fec_type);
    let (old_part, old_len, old_total) = (t.part, t.data.len(), t.total_size);
    let old_params = t.decoder.as_ref().map(|d| *d.params());
    let id = t.transfer_id;
    unsafe { CALLS = 0; DECODED = 0; }
    let r = t.process_chunk(m);
    let failed = r.is_err();
    let (answered, complete) = match &r { Ok(Some(b)) => (true, b.len() == 40), _ => (false, false) };
    if let Ok(Some(b)) = &r {
        assert!(b.len() == 40 || b.len() == 44, "a confirmation or a completion");
        assert!(b[4] == id[0] && b[35] == id[31], "for this transfer");
        assert!(b[36] == part as u8 && b[37] == (part >> 8) as u8 && b[38] == (part >> 16) as u8 && b[39] == (part >> 24) as u8, "for the part that came");
    }
    std::mem::forget(r);
    let added = unsafe { DECODED };
    assert!(sound(&t), "the invariant is kept");
    // whatever is not the current part of this transfer adds nothing
    let wrong = match old_total { Some(n) => total as usize != n, None => total > t.max_answer_size as u64 };
    if wrong {
        assert!(failed, "another size, or one over the limit, is an error");
        assert!(unsafe { CALLS } == 0 && t.total_size == old_total && t.data.len() == old_len && t.part == old_part, "and changes nothing");
    } else {
        assert!(t.total_size == Some(total as usize), "the size is the announced one");
        if part != old_part {
            assert!(unsafe { CALLS } == 0 && t.data.len() == old_len && t.part == old_part && !failed, "other parts add nothing");
            assert!(answered == (part < old_part) && complete == answered, "parts already received are acknowledged again");
        } else if let Some(p) = old_params {
            if p != fec { assert!(failed && unsafe { CALLS } == 0 && t.data.len() == old_len && t.part == old_part, "other parameters add nothing"); }
        }
    }
    // bytes are added only by decoding the current part, which then is over
    if t.data.len() != old_len {
        assert!(added != 0 && t.data.len() == old_len + added && part == old_part && added == fec.total_len as usize, "only the decoded part is added");
        assert!(complete, "a decoded part is acknowledged");
        if t.data.len() < total as usize { assert!(t.part == old_part + 1 && t.decoder.is_none(), "the next part follows"); }
    } else {
        assert!(t.part == old_part, "a part is left only when it was decoded");
        assert!(failed || part < old_part || !complete, "nothing is acknowledged before it was decoded");
    }
    assert!(t.is_complete() == (t.total_size == Some(t.data.len())), "complete means exactly the announced size");
    let out = (failed, t.data.len() != old_len, t.is_complete());
    std::mem::forget(t);
    out
}

//@ harness unwind=34 given=rldp::decoder::RaptorQDecoder::decode>block kind=bounded bound="announced block of at most 4096 bytes" fns=IncomingTransfer::process_chunk : first packet of a transfer
pub fn first_packet() { let (failed, grew, whole) = check(false, false); kani::cover!(failed, "refused"); kani::cover!(grew && !whole, "a part is decoded"); kani::cover!(grew && whole, "everything is decoded"); }
//@ harness unwind=34 given=rldp::decoder::RaptorQDecoder::decode>block kind=bounded bound="at most 4096 bytes before and in the block" fns=IncomingTransfer::process_chunk : first packet of a part
pub fn first_of_part() { let (failed, grew, whole) = check(true, false); kani::cover!(failed, "refused"); kani::cover!(grew && !whole, "a part is decoded"); kani::cover!(grew && whole, "the last part is decoded"); }
//@ harness unwind=34 given=rldp::decoder::RaptorQDecoder::decode>block kind=bounded bound="at most 4096 bytes before and in the block" fns=IncomingTransfer::process_chunk : later packets of a part
pub fn later_packet() { let (failed, grew, whole) = check(true, true); kani::cover!(failed, "refused"); kani::cover!(grew && !whole, "a part is decoded"); kani::cover!(grew && whole, "the last part is decoded"); }

static mut SCRIPT: ([u8; 5], usize) = ([0; 5], 0);
/// The next part of a message of 5 bytes in parts of 2, 1 and 2 bytes.
pub fn scripted(_d: &mut RaptorQDecoder, _seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
    std::mem::forget(data);
    unsafe {
        let (m, i) = SCRIPT;
        SCRIPT.1 += 1;
        Some(match i { 0 => vec![m[0], m[1]], 1 => vec![m[2]], _ => vec![m[3], m[4]] })
    }
}
fn packet(part: u32, len: u32) -> MessagePart { MessagePart { fec_type: RaptorQFecType { total_len: len, packet_len: 64, packet_count: 1 }, part, total_size: 5, seqno: kani::any(), data: Vec::new() } }
fn step(t: &mut IncomingTransfer, part: u32, len: u32) {
    let r = t.process_chunk(packet(part, len));
    assert!(matches!(&r, Ok(Some(b)) if b.len() == 40), "acknowledged");
    std::mem::forget(r);
}

//@ harness unwind=34 kind=bounded bound="3 parts of 2, 1 and 2 bytes" given=rldp::decoder::RaptorQDecoder::decode>scripted fns=IncomingTransfer::process_chunk : the parts follow each other in
//@ + order, bytes unchanged, whatever repetitions come in between
pub fn in_order() {
    let mut t = IncomingTransfer::new([7; 32], 5);
    let m: [u8; 5] = kani::any();
    unsafe { SCRIPT = (m, 0); }
    step(&mut t, 0, 2);
    step(&mut t, 0, 2);
    assert!(!t.is_complete(), "one of three parts");
    step(&mut t, 1, 1);
    step(&mut t, 0, 2);
    step(&mut t, 1, 1);
    assert!(!t.is_complete() && unsafe { SCRIPT.1 } == 2, "two of three parts");
    step(&mut t, 2, 2);
    assert!(t.is_complete(), "all parts");
    let d = t.take_data();
    assert!(d.len() == 5 && d[0] == m[0] && d[1] == m[1] && d[2] == m[2] && d[3] == m[3] && d[4] == m[4], "exactly the bytes of the parts in order");
    kani::cover!(true, "all parts");
    std::mem::forget((t, d));
}
/// Spec-side: put a transfer into another state.
pub(crate) fn spec_force(t: &mut IncomingTransfer, total: Option<usize>, len: usize) { kani::assume(len <= 64); t.total_size = total; let mut v: Vec<u8> = Vec::with_capacity(64); unsafe { v.set_len(len); std::ptr::write(&mut t.data, v); } }
