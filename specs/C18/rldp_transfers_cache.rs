// C18 (receiving task): a transfer is handed on only once all its bytes are there.
use crate::verif::adnl_node::any_node;
use crate::verif::env::poll;
use crate::adnl::NodeIdShort;
use super::super::incoming_transfer::verif::spec_force;

static mut SENT: usize = 0;
pub fn sent(_n: &adnl::Node, _l: &NodeIdShort, _p: &NodeIdShort, _d: &[u8]) -> Result<()> { unsafe { SENT += 1; } if kani::any() { Ok(()) } else { Err(anyhow::Error::msg("x")) } }
/// Contract of `process_chunk` for this caller: any result; the transfer ends up in any state.
pub fn processed(t: &mut IncomingTransfer, m: MessagePart) -> Result<Option<&[u8]>> {
    std::mem::forget(m);
    spec_force(t, if kani::any() { Some(kani::any()) } else { None }, kani::any());
    match kani::any::<u8>() % 3 { 0 => Ok(None), 1 => Ok(Some(&[0u8; 4])), _ => Err(anyhow::Error::msg("x")) }
}
fn message() -> MessagePart { MessagePart { fec_type: crate::proto::rldp::RaptorQFecType { total_len: 1, packet_len: 64, packet_count: 1 }, part: 0, total_size: 1, seqno: 0, data: Vec::new() } }

fn receive(messages: usize) -> (bool, bool, usize) {
    let a = NodeIdShort::new([1; 32]);
    let (tx, rx) = mpsc::unbounded_channel();
    let mut i = 0;
    while i < messages { let _ = tx.send(message()); i += 1; }
    let mut ctx = std::mem::ManuallyDrop::new(IncomingContext { adnl: any_node(a), local_id: a, peer_id: NodeIdShort::new([2; 32]), parts_rx: rx, transfer: IncomingTransfer::new([3; 32], kani::any()), transfer_id: [3; 32] });
    let state = Arc::new(OutgoingTransferState::default());
    unsafe { SENT = 0; }
    let ready = {
        let mut f = std::mem::ManuallyDrop::new(ctx.receive(Some(state.clone())));
        poll(unsafe { std::pin::Pin::new_unchecked(&mut *f) }).is_ready()
    };
    let complete = ctx.transfer.is_complete();
    let seen = ctx.transfer.state().updates() as usize;
    assert!(!ready || complete, "waiting ends only with a complete transfer");
    assert!(state.has_reply() == (seen > 0), "the sender learns about the first reply");
    assert!(seen <= messages && unsafe { SENT } <= seen, "each packet is processed once");
    std::mem::forget((state, tx));
    (ready, complete, seen)
}

//@ harness unwind=34 kind=bounded bound="2 packets queued" given=adnl::Node::send_custom_message>sent,rldp::incoming_transfer::IncomingTransfer::process_chunk>processed fns=IncomingContext::receive : the
//@ + receiver stops exactly when the transfer is complete
pub fn receiver_waits() { let (ready, complete, seen) = receive(2); assert!(ready == complete || seen < 2); kani::cover!(ready && seen == 1, "complete early"); kani::cover!(!ready, "still waiting"); }
