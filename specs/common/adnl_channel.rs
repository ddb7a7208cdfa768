fn any_key() -> ed25519::KeyPair { ed25519::KeyPair::from(&ed25519::SecretKey::from_bytes(kani::any())) }
fn any_id() -> NodeIdShort { NodeIdShort::new(kani::any()) }
/// The two ends of one channel, built the way each side builds it.
fn two_ends(a: NodeIdShort, b: NodeIdShort) -> (Channel, Channel) {
    let (ka, kb) = (any_key(), any_key());
    (
        Channel::new(a, b, &ka, kb.public_key, kani::any(), ChannelCreationContext::CreateChannel),
        Channel::new(b, a, &kb, ka.public_key, kani::any(), ChannelCreationContext::ConfirmChannel),
    )
}
/// A channel in any state, with the given parties.
pub fn any_channel(local_id: NodeIdShort, peer_id: NodeIdShort) -> Channel {
    let side = || SubChannelSide { id: kani::any(), secret: kani::any() };
    Channel {
        ready: AtomicBool::new(kani::any()), channel_out: ChannelSide { ordinary: side(), priority: side() },
        channel_in: ChannelSide { ordinary: side(), priority: side() }, local_id, peer_id,
        peer_channel_public_key: any_key().public_key, peer_channel_date: kani::any(), drop: AtomicU32::new(kani::any()),
    }
}
