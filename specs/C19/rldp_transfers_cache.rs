// C19 (handler): what the peer confirms reaches exactly the transfer it names.
use crate::verif::adnl_node::any_node;
use crate::verif::env::ready;
use crate::adnl::NodeIdShort;

/// Messages about a transfer: `known` says what the table holds for it.
fn confirm(known: u8, complete: bool) -> (bool, bool) {
    let a = NodeIdShort::new([1; 32]);
    let cache = std::mem::ManuallyDrop::new(TransfersCache::new(Vec::new(), NodeOptions::default()));
    let (id, other) = ([3u8; 32], [4u8; 32]);
    let (state, bystander) = (Arc::new(OutgoingTransferState::default()), Arc::new(OutgoingTransferState::default()));
    let (p, o): (u32, u32) = (kani::any(), kani::any());
    super::super::outgoing_transfer::verif::spec_state(&state, p, o);
    match known { 0 => {} 1 => { cache.transfers.insert(id, RldpTransfer::Outgoing(state.clone())); } _ => { cache.transfers.insert(id, RldpTransfer::Done); } }
    cache.transfers.insert(other, RldpTransfer::Outgoing(bystander.clone()));
    let node = std::mem::ManuallyDrop::new(any_node(a));
    let (part, seqno): (u32, u32) = (kani::any(), kani::any());
    let m = if complete { proto::rldp::MessagePart::Complete { transfer_id: &id, part } } else { proto::rldp::MessagePart::Confirm { transfer_id: &id, part, seqno } };
    let r = ready(cache.handle_message(&node, &a, &a, m));
    assert!(r.is_ok(), "confirmations are never an error");
    std::mem::forget(r);
    assert!(bystander.part() == 0 && bystander.seqno_in() == 0, "other transfers are not touched");
    let advance = known == 1 && complete && part == p && part < u32::MAX;
    assert!(state.part() == if advance { p + 1 } else { p }, "the part advances exactly when it is confirmed complete");
    let moved = known == 1 && !complete && part == p && seqno <= o;
    assert!(state.seqno_in() == if moved { seqno } else { 0 }, "a confirmation counts only for the current part and a number that was sent");
    assert!(state.seqno_out() == o && !state.has_reply(), "nothing else changes");
    std::mem::forget((state, bystander));
    (advance, moved && seqno > 0)
}

//@ harness unwind=34 given=util::gen_fast_bytes>env.any_bytes fns=TransfersCache::handle_message : a completed part, for all parts
pub fn completed() { let (a, _) = confirm(1, true); kani::cover!(a, "next part"); kani::cover!(!a, "another part"); }
//@ harness unwind=34 given=util::gen_fast_bytes>env.any_bytes fns=TransfersCache::handle_message : a confirmed number, for all parts and numbers
pub fn confirmed() { let (_, m) = confirm(1, false); kani::cover!(m, "window moves"); kani::cover!(!m, "ignored"); }
//@ harness unwind=34 given=util::gen_fast_bytes>env.any_bytes fns=TransfersCache::handle_message : a completed part of an unknown transfer
pub fn unknown() { confirm(0, true); kani::cover!(true, "ignored"); }
//@ harness unwind=34 given=util::gen_fast_bytes>env.any_bytes fns=TransfersCache::handle_message : a confirmed number of a finished transfer
pub fn finished() { confirm(2, false); kani::cover!(true, "ignored"); }
