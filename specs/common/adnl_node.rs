use crate::proto::adnl::Message;
/// Options within the range that keeps clock sums below 2^32 until 2038.
pub(crate) fn any_options() -> NodeOptions {
    let o = NodeOptions {
        query_min_timeout_ms: kani::any(), query_default_timeout_ms: kani::any(), transfer_timeout_sec: kani::any(),
        clock_tolerance_sec: kani::any(), channel_reset_timeout_sec: kani::any(), address_list_timeout_sec: kani::any(),
        packet_history_enabled: kani::any(), packet_signature_required: kani::any(), force_use_priority_channels: kani::any(),
        use_loopback_for_neighbours: kani::any(), version: if kani::any() { Some(kani::any()) } else { None },
    };
    kani::assume(o.clock_tolerance_sec < 1 << 31 && o.channel_reset_timeout_sec < 1 << 31 && o.address_list_timeout_sec < 1 << 31);
    o
}
pub fn any_addr() -> SocketAddrV4 { SocketAddrV4::new(std::net::Ipv4Addr::from(kani::any::<u32>()), kani::any()) }
pub fn any_full_id() -> NodeIdFull { NodeIdFull::new(everscale_crypto::ed25519::PublicKey::from_bytes(kani::any()).unwrap()) }
/// A node with the given local identity and any options, with no peers, channels or transfers yet.
pub(crate) fn node_with(local: NodeIdShort, keystore: Keystore, options: NodeOptions) -> (Node, SenderQueueRx) {
    let (sender_queue_tx, rx) = mpsc::unbounded_channel();
    let mut peers = FastHashMap::default();
    peers.insert(local, Peers::default());
    (Node {
        socket_addr: any_addr(), keystore, options, peer_filter: None, peers,
        channels_by_id: Default::default(), channels_by_peers: Default::default(), incoming_transfers: Default::default(),
        queries: Default::default(), sender_queue_tx, init_state: Mutex::new(None), start_time: kani::any(),
        cancellation_token: Default::default(),
    }, rx)
}
