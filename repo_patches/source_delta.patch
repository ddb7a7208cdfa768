From 0df7afe5b53c0f4e0fc2e2b9b92a70f9bff75c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 01/15] verification hooks: specification modules and boundary
 contracts under cfg(kani)

---
 src/adnl/channel.rs               |  8 ++++++++
 src/adnl/encryption.rs            |  8 ++++++++
 src/adnl/handshake.rs             |  8 ++++++++
 src/adnl/keystore.rs              | 11 +++++++++++
 src/adnl/mod.rs                   | 18 ++++++++++++++++++
 src/adnl/node/mod.rs              | 12 ++++++++++++
 src/adnl/node/receiver.rs         |  8 ++++++++
 src/adnl/node/sender.rs           |  8 ++++++++
 src/adnl/node_id.rs               |  8 ++++++++
 src/adnl/packet_view.rs           |  8 ++++++++
 src/adnl/peer.rs                  |  8 ++++++++
 src/adnl/peers_set.rs             | 14 ++++++++++++++
 src/adnl/ping_subscriber.rs       |  8 ++++++++
 src/adnl/queries_cache.rs         |  8 ++++++++
 src/adnl/socket.rs                |  4 ++++
 src/adnl/transfer.rs              |  8 ++++++++
 src/dht/buckets.rs                |  8 ++++++++
 src/dht/entry.rs                  |  8 ++++++++
 src/dht/futures.rs                |  8 ++++++++
 src/dht/mod.rs                    | 13 +++++++++++++
 src/dht/node.rs                   |  8 ++++++++
 src/dht/peers_iter.rs             |  8 ++++++++
 src/dht/storage.rs                | 11 +++++++++++
 src/dht/streams.rs                |  8 ++++++++
 src/lib.rs                        | 21 +++++++++++++++++++++
 src/overlay/broadcast_receiver.rs |  8 ++++++++
 src/overlay/mod.rs                | 13 +++++++++++++
 src/overlay/node.rs               |  8 ++++++++
 src/overlay/overlay.rs            | 11 +++++++++++
 src/overlay/overlay_id.rs         |  8 ++++++++
 src/proto/adnl.rs                 |  8 ++++++++
 src/proto/dht.rs                  |  8 ++++++++
 src/proto/mod.rs                  | 10 ++++++++++
 src/proto/overlay.rs              |  8 ++++++++
 src/proto/rldp.rs                 |  8 ++++++++
 src/rldp/compression.rs           |  8 ++++++++
 src/rldp/decoder.rs               |  8 ++++++++
 src/rldp/encoder.rs               |  8 ++++++++
 src/rldp/incoming_transfer.rs     |  8 ++++++++
 src/rldp/mod.rs                   | 13 +++++++++++++
 src/rldp/node.rs                  |  8 ++++++++
 src/rldp/outgoing_transfer.rs     |  8 ++++++++
 src/rldp/transfers_cache.rs       | 14 +++++++++++++-
 src/subscriber/mod.rs             |  8 ++++++++
 src/util/address_list.rs          |  8 ++++++++
 src/util/fast_rand.rs             |  8 ++++++++
 src/util/mod.rs                   | 17 +++++++++++++++++
 src/util/packets_history.rs       |  8 ++++++++
 src/util/updated_at.rs            | 12 ++++++++++++
 49 files changed, 465 insertions(+), 1 deletion(-)

diff --git a/src/adnl/channel.rs b/src/adnl/channel.rs
index 82cf7c6..fcf8e64 100644
--- a/src/adnl/channel.rs
+++ b/src/adnl/channel.rs
@@ -411,3 +411,11 @@ mod tests {
         }
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_channel.rs"));
+}
diff --git a/src/adnl/encryption.rs b/src/adnl/encryption.rs
index 2ba3df7..ac08015 100644
--- a/src/adnl/encryption.rs
+++ b/src/adnl/encryption.rs
@@ -69,3 +69,11 @@ mod tests {
         assert_eq!(encoded_data, data);
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_encryption.rs"));
+}
diff --git a/src/adnl/handshake.rs b/src/adnl/handshake.rs
index c711ccb..52c963b 100644
--- a/src/adnl/handshake.rs
+++ b/src/adnl/handshake.rs
@@ -174,3 +174,11 @@ pub enum HandshakeError {
     #[error("Invalid public key")]
     InvalidPublicKey,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_handshake.rs"));
+}
diff --git a/src/adnl/keystore.rs b/src/adnl/keystore.rs
index 6181295..d6daa7e 100644
--- a/src/adnl/keystore.rs
+++ b/src/adnl/keystore.rs
@@ -1,3 +1,4 @@
+#[cfg(not(kani))]
 use std::collections::hash_map;
 use std::sync::Arc;
 
@@ -6,6 +7,8 @@ use everscale_crypto::ed25519;
 
 use super::node_id::{ComputeNodeIds, NodeIdFull, NodeIdShort};
 use crate::util::FastHashMap;
+#[cfg(kani)]
+use crate::verif::env::hash_map;
 
 /// Tagged keystore for ADNL keys
 #[derive(Default)]
@@ -164,3 +167,11 @@ pub enum KeystoreError {
     #[error("Unexpected key")]
     UnexpectedKey,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_keystore.rs"));
+}
diff --git a/src/adnl/mod.rs b/src/adnl/mod.rs
index cf380f1..74eb150 100644
--- a/src/adnl/mod.rs
+++ b/src/adnl/mod.rs
@@ -324,3 +324,21 @@ fn parse_socket_addr<T: ToSocketAddrs>(addr: T) -> Result<SocketAddrV4> {
         None => anyhow::bail!("Invalid ip address"),
     }
 }
+
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused)]
+pub mod verif {
+    pub use super::channel::verif as adnl_channel;
+    pub use super::encryption::verif as adnl_encryption;
+    pub use super::handshake::verif as adnl_handshake;
+    pub use super::keystore::verif as adnl_keystore;
+    pub use super::node_id::verif as adnl_node_id;
+    pub use super::packet_view::verif as adnl_packet_view;
+    pub use super::peer::verif as adnl_peer;
+    pub use super::peers_set::verif as adnl_peers_set;
+    pub use super::ping_subscriber::verif as adnl_ping_subscriber;
+    pub use super::queries_cache::verif as adnl_queries_cache;
+    pub use super::transfer::verif as adnl_transfer;
+    pub use super::node::verif::*;
+}
diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index ff1b823..dd6404a 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -593,3 +593,15 @@ enum NodeError {
     #[error("Unknown peer")]
     UnknownPeer,
 }
+
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused)]
+pub mod verif {
+    pub use super::receiver::verif as adnl_node_receiver;
+    pub use super::sender::verif as adnl_node_sender;
+    pub mod adnl_node {
+        use super::super::*;
+        include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_node.rs"));
+    }
+}
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 6945295..704c402 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -650,3 +650,11 @@ enum AdnlPacketError {
     #[error("Invalid signature")]
     InvalidSignature,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_node_receiver.rs"));
+}
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index ebbb43a..5a68188 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -336,3 +336,11 @@ enum AdnlSenderError {
     #[error("Failed to send ADNL packet")]
     FailedToSendPacket,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_node_sender.rs"));
+}
diff --git a/src/adnl/node_id.rs b/src/adnl/node_id.rs
index 43476f9..a494bcb 100644
--- a/src/adnl/node_id.rs
+++ b/src/adnl/node_id.rs
@@ -195,3 +195,11 @@ impl ComputeNodeIds for ed25519::PublicKey {
         (full_id, short_id)
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_node_id.rs"));
+}
diff --git a/src/adnl/packet_view.rs b/src/adnl/packet_view.rs
index ceb73bd..dbffa60 100644
--- a/src/adnl/packet_view.rs
+++ b/src/adnl/packet_view.rs
@@ -70,3 +70,11 @@ impl<'a> From<&'a mut [u8]> for PacketView<'a> {
         Self { bytes }
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_packet_view.rs"));
+}
diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 6c5cb7c..2152bef 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -191,3 +191,11 @@ mod tests {
         assert_eq!(unpacked, test);
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_peer.rs"));
+}
diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index a1fc7b8..1354839 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -239,6 +239,9 @@ impl PeersSetState {
     }
 
     fn with_peers_and_capacity(peers: &[NodeIdShort], capacity: NonZeroU32) -> Self {
+        #[cfg(kani)]
+        use crate::verif::env::hash_map::Entry;
+        #[cfg(not(kani))]
         use std::collections::hash_map::Entry;
 
         let mut res = Self::with_capacity(capacity);
@@ -270,6 +273,9 @@ impl PeersSetState {
     }
 
     fn insert(&mut self, peer_id: NodeIdShort) -> bool {
+        #[cfg(kani)]
+        use crate::verif::env::hash_map::Entry;
+        #[cfg(not(kani))]
         use std::collections::hash_map::Entry;
 
         let peer_id = Ref(Rc::new(peer_id));
@@ -526,3 +532,11 @@ mod tests {
         }
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_peers_set.rs"));
+}
diff --git a/src/adnl/ping_subscriber.rs b/src/adnl/ping_subscriber.rs
index d4dbba0..3ad042b 100644
--- a/src/adnl/ping_subscriber.rs
+++ b/src/adnl/ping_subscriber.rs
@@ -23,3 +23,11 @@ impl QuerySubscriber for PingSubscriber {
         }
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_ping_subscriber.rs"));
+}
diff --git a/src/adnl/queries_cache.rs b/src/adnl/queries_cache.rs
index d8b684f..bbb077d 100644
--- a/src/adnl/queries_cache.rs
+++ b/src/adnl/queries_cache.rs
@@ -72,3 +72,11 @@ impl Drop for PendingAdnlQuery {
 
 type DataTx = oneshot::Sender<Vec<u8>>;
 type DataRx = oneshot::Receiver<Vec<u8>>;
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_queries_cache.rs"));
+}
diff --git a/src/adnl/socket.rs b/src/adnl/socket.rs
index bd57384..898124f 100644
--- a/src/adnl/socket.rs
+++ b/src/adnl/socket.rs
@@ -4,6 +4,10 @@ use std::sync::Arc;
 use anyhow::Result;
 use tokio::net::UdpSocket;
 
+#[cfg(kani)]
+pub use crate::verif::env::make_udp_socket;
+
+#[cfg(not(kani))]
 pub fn make_udp_socket(port: u16) -> Result<Arc<UdpSocket>> {
     let udp_socket = std::net::UdpSocket::bind((Ipv4Addr::UNSPECIFIED, port))?;
     udp_socket.set_nonblocking(true)?;
diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 46bff45..c945665 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -138,3 +138,11 @@ pub enum TransferError {
     #[error("Invalid transfer data hash")]
     InvalidHash,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/adnl_transfer.rs"));
+}
diff --git a/src/dht/buckets.rs b/src/dht/buckets.rs
index 4d090d2..2f86c4a 100644
--- a/src/dht/buckets.rs
+++ b/src/dht/buckets.rs
@@ -117,3 +117,11 @@ mod tests {
         assert_eq!(get_affinity(&[0xaa; 32], &[0xaa; 32]), 255);
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/dht_buckets.rs"));
+}
diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index 2d99158..c2d4dd4 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -170,3 +170,11 @@ impl<'a> EntryWithData<'a> {
         }
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/dht_entry.rs"));
+}
diff --git a/src/dht/futures.rs b/src/dht/futures.rs
index 445f239..a17dde5 100644
--- a/src/dht/futures.rs
+++ b/src/dht/futures.rs
@@ -136,3 +136,11 @@ where
 }
 
 type StoreFuture = BoxFuture<'static, ()>;
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/dht_futures.rs"));
+}
diff --git a/src/dht/mod.rs b/src/dht/mod.rs
index 397aa6c..8721bd2 100644
--- a/src/dht/mod.rs
+++ b/src/dht/mod.rs
@@ -89,3 +89,16 @@ pub const KEY_NODES: &str = "nodes";
 
 /// Max allowed DHT peers in the network
 pub const MAX_DHT_PEERS: u32 = 65536;
+
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused)]
+pub mod verif {
+    pub use super::buckets::verif as dht_buckets;
+    pub use super::entry::verif as dht_entry;
+    pub use super::futures::verif as dht_futures;
+    pub use super::node::verif as dht_node;
+    pub use super::peers_iter::verif as dht_peers_iter;
+    pub use super::storage::verif as dht_storage;
+    pub use super::streams::verif as dht_streams;
+}
diff --git a/src/dht/node.rs b/src/dht/node.rs
index ec0c8b0..a05e8c9 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -766,3 +766,11 @@ enum DhtNodeError {
     #[error("Invalid value key")]
     InvalidValueKey,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/dht_node.rs"));
+}
diff --git a/src/dht/peers_iter.rs b/src/dht/peers_iter.rs
index b755a9e..18b54ac 100644
--- a/src/dht/peers_iter.rs
+++ b/src/dht/peers_iter.rs
@@ -73,3 +73,11 @@ impl PeersIter {
         }
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/dht_peers_iter.rs"));
+}
diff --git a/src/dht/storage.rs b/src/dht/storage.rs
index 5c82479..9e89159 100644
--- a/src/dht/storage.rs
+++ b/src/dht/storage.rs
@@ -177,6 +177,9 @@ fn make_overlay_nodes_value<const N: usize>(
     new_nodes: SmallVec<[proto::overlay::Node<'_>; N]>,
     old_nodes: Option<SmallVec<[proto::overlay::Node<'_>; N]>>,
 ) -> proto::dht::ValueOwned {
+    #[cfg(kani)]
+    use crate::verif::env::hash_map::Entry;
+    #[cfg(not(kani))]
     use std::collections::hash_map::Entry;
 
     let mut result = match old_nodes {
@@ -248,3 +251,11 @@ enum StorageError {
     #[error("Invalid key")]
     InvalidKey,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/dht_storage.rs"));
+}
diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index dbff243..eae3256 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -148,3 +148,11 @@ type ValueFuture<T> = BoxFuture<'static, Option<ReceivedValue<T>>>;
 type ReceivedValue<T> = (proto::dht::KeyDescriptionOwned, T);
 
 const MAX_PARALLEL_FUTURES: usize = 5;
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/dht_streams.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 7c38542..50251b3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::too_many_arguments)]
+#![allow(unexpected_cfgs)]
 
 //! Implementation of the network part of the Everscale blockchain.
 
@@ -27,3 +28,23 @@ pub mod proto;
 pub mod rldp;
 mod subscriber;
 pub mod util;
+
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused)]
+pub mod verif {
+    pub use crate::adnl::verif::*;
+    #[cfg(feature = "dht")]
+    pub use crate::dht::verif::*;
+    pub use crate::overlay::verif::*;
+    pub use crate::proto::verif::*;
+    #[cfg(feature = "rldp")]
+    pub use crate::rldp::verif::*;
+    pub use crate::subscriber::verif as subscriber;
+    pub use crate::util::verif::*;
+
+    /// Contracts assumed for the clock, the socket and the standard hash tables
+    pub mod env {
+        include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/env.rs"));
+    }
+}
diff --git a/src/overlay/broadcast_receiver.rs b/src/overlay/broadcast_receiver.rs
index 52b9f45..ead640c 100644
--- a/src/overlay/broadcast_receiver.rs
+++ b/src/overlay/broadcast_receiver.rs
@@ -61,3 +61,11 @@ impl<T> Default for BroadcastReceiver<T> {
         }
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/overlay_broadcast_receiver.rs"));
+}
diff --git a/src/overlay/mod.rs b/src/overlay/mod.rs
index cff0972..88eab85 100644
--- a/src/overlay/mod.rs
+++ b/src/overlay/mod.rs
@@ -105,3 +105,16 @@ mod node_impl {
 
 #[cfg(feature = "overlay")]
 pub use node_impl::*;
+
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused)]
+pub mod verif {
+    pub use super::overlay_id::verif as overlay_overlay_id;
+    #[cfg(feature = "overlay")]
+    pub use super::broadcast_receiver::verif as overlay_broadcast_receiver;
+    #[cfg(feature = "overlay")]
+    pub use super::node::verif as overlay_node;
+    #[cfg(feature = "overlay")]
+    pub use super::overlay::verif as overlay_overlay;
+}
diff --git a/src/overlay/node.rs b/src/overlay/node.rs
index 19fbeee..73e0f82 100644
--- a/src/overlay/node.rs
+++ b/src/overlay/node.rs
@@ -220,3 +220,11 @@ enum NodeError {
     #[error("Unsupported query")]
     UnsupportedQuery,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/overlay_node.rs"));
+}
diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 7a0769e..877552f 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -689,6 +689,9 @@ impl Overlay {
         &self,
         query: proto::rpc::OverlayGetRandomPeers<'_>,
     ) -> proto::overlay::NodesOwned {
+        #[cfg(kani)]
+        use crate::verif::env::hash_map::Entry;
+        #[cfg(not(kani))]
         use std::collections::hash_map::Entry;
 
         // Update received peers
@@ -1424,3 +1427,11 @@ enum OverlayError {
 }
 
 const BROADCAST_FLAG_ANY_SENDER: u32 = 1; // Any sender
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/overlay_overlay.rs"));
+}
diff --git a/src/overlay/overlay_id.rs b/src/overlay/overlay_id.rs
index ba42d6e..545cdd5 100644
--- a/src/overlay/overlay_id.rs
+++ b/src/overlay/overlay_id.rs
@@ -138,3 +138,11 @@ enum OverlayIdError {
     #[error("Overlay id mismatch")]
     OverlayIdMismatch,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/overlay_overlay_id.rs"));
+}
diff --git a/src/proto/adnl.rs b/src/proto/adnl.rs
index dd75516..31f4c6e 100644
--- a/src/proto/adnl.rs
+++ b/src/proto/adnl.rs
@@ -443,3 +443,11 @@ mod tests {
         assert_eq!(test, addr);
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/proto_adnl.rs"));
+}
diff --git a/src/proto/dht.rs b/src/proto/dht.rs
index 1c6b216..c06c9c0 100644
--- a/src/proto/dht.rs
+++ b/src/proto/dht.rs
@@ -242,3 +242,11 @@ pub struct Pong {
 #[derive(Copy, Clone, TlWrite, TlRead)]
 #[tl(boxed, id = "dht.stored", size_hint = 0, scheme = "scheme.tl")]
 pub struct Stored;
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/proto_dht.rs"));
+}
diff --git a/src/proto/mod.rs b/src/proto/mod.rs
index c1c9131..769aa91 100644
--- a/src/proto/mod.rs
+++ b/src/proto/mod.rs
@@ -9,3 +9,13 @@ pub mod rldp;
 pub mod rpc;
 
 pub type HashRef<'a> = &'a [u8; 32];
+
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused)]
+pub mod verif {
+    pub use super::adnl::verif as proto_adnl;
+    pub use super::dht::verif as proto_dht;
+    pub use super::overlay::verif as proto_overlay;
+    pub use super::rldp::verif as proto_rldp;
+}
diff --git a/src/proto/overlay.rs b/src/proto/overlay.rs
index d268024..68691e8 100644
--- a/src/proto/overlay.rs
+++ b/src/proto/overlay.rs
@@ -176,3 +176,11 @@ pub enum Certificate<'tl> {
     #[tl(id = "overlay.emptyCertificate", size_hint = 0)]
     EmptyCertificate,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/proto_overlay.rs"));
+}
diff --git a/src/proto/rldp.rs b/src/proto/rldp.rs
index ac0ad53..8b00ce0 100644
--- a/src/proto/rldp.rs
+++ b/src/proto/rldp.rs
@@ -60,3 +60,11 @@ pub struct RaptorQFecType {
     pub packet_len: u32,
     pub packet_count: u32,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/proto_rldp.rs"));
+}
diff --git a/src/rldp/compression.rs b/src/rldp/compression.rs
index 62426e4..3e05b1d 100644
--- a/src/rldp/compression.rs
+++ b/src/rldp/compression.rs
@@ -70,3 +70,11 @@ mod tests {
         assert_eq!(decompressed, data);
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/rldp_compression.rs"));
+}
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 984f22b..c4d39d0 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -34,3 +34,11 @@ impl RaptorQDecoder {
         self.seqno
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/rldp_decoder.rs"));
+}
diff --git a/src/rldp/encoder.rs b/src/rldp/encoder.rs
index 00ed613..2098c1c 100644
--- a/src/rldp/encoder.rs
+++ b/src/rldp/encoder.rs
@@ -63,3 +63,11 @@ enum EncoderError {
 }
 
 pub const MAX_TRANSMISSION_UNIT: u32 = 768;
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/rldp_encoder.rs"));
+}
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 7607080..26bf0e8 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -175,3 +175,11 @@ enum IncomingTransferError {
     #[error("Too big size for RLDP transfer")]
     TooBigTransferSize,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/rldp_incoming_transfer.rs"));
+}
diff --git a/src/rldp/mod.rs b/src/rldp/mod.rs
index 89ef40a..54bc285 100644
--- a/src/rldp/mod.rs
+++ b/src/rldp/mod.rs
@@ -134,3 +134,16 @@ where
         NetworkBuilder(self.0.prepend(deferred), Default::default())
     }
 }
+
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused)]
+pub mod verif {
+    pub use super::compression::verif as rldp_compression;
+    pub use super::decoder::verif as rldp_decoder;
+    pub use super::encoder::verif as rldp_encoder;
+    pub use super::incoming_transfer::verif as rldp_incoming_transfer;
+    pub use super::node::verif as rldp_node;
+    pub use super::outgoing_transfer::verif as rldp_outgoing_transfer;
+    pub use super::transfers_cache::verif as rldp_transfers_cache;
+}
diff --git a/src/rldp/node.rs b/src/rldp/node.rs
index 40e0da0..5758e5c 100644
--- a/src/rldp/node.rs
+++ b/src/rldp/node.rs
@@ -225,3 +225,11 @@ enum NodeError {
     #[error("Unknown query id")]
     QueryIdMismatch,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/rldp_node.rs"));
+}
diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 5df3389..3639467 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -177,3 +177,11 @@ enum OutgoingTransferError {
     #[error("Part mismatch")]
     PartMismatch,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/rldp_outgoing_transfer.rs"));
+}
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index d6cb17d..532513e 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -1,6 +1,8 @@
 use std::borrow::Cow;
 use std::sync::Arc;
-use std::time::{Duration, Instant};
+use std::time::Duration;
+#[cfg(not(kani))]
+use std::time::Instant;
 
 use anyhow::Result;
 use parking_lot::Mutex;
@@ -15,6 +17,8 @@ use crate::adnl;
 use crate::proto;
 use crate::subscriber::*;
 use crate::util::*;
+#[cfg(kani)]
+use crate::verif::env::Instant;
 
 pub struct TransfersCache {
     transfers: Arc<FastDashMap<TransferId, RldpTransfer>>,
@@ -668,3 +672,11 @@ enum TransfersCacheError {
     #[error("Answer size exceeded")]
     AnswerSizeExceeded,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/rldp_transfers_cache.rs"));
+}
diff --git a/src/subscriber/mod.rs b/src/subscriber/mod.rs
index 85372d3..1bc6966 100644
--- a/src/subscriber/mod.rs
+++ b/src/subscriber/mod.rs
@@ -81,3 +81,11 @@ pub(crate) enum QueryProcessingResult<T> {
     Processed(Option<T>),
     Rejected,
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/subscriber.rs"));
+}
diff --git a/src/util/address_list.rs b/src/util/address_list.rs
index f1ad9cd..65a6fd8 100644
--- a/src/util/address_list.rs
+++ b/src/util/address_list.rs
@@ -48,3 +48,11 @@ mod tests {
         assert_eq!(ip.port(), 4560);
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/util_address_list.rs"));
+}
diff --git a/src/util/fast_rand.rs b/src/util/fast_rand.rs
index cfaefd0..02907f8 100644
--- a/src/util/fast_rand.rs
+++ b/src/util/fast_rand.rs
@@ -67,3 +67,11 @@ impl RngCore for SmallThreadRng {
         rng.try_fill_bytes(dest)
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/util_fast_rand.rs"));
+}
diff --git a/src/util/mod.rs b/src/util/mod.rs
index ba986a5..c2fd158 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -1,5 +1,8 @@
 //! # Basic primitives and helpers
 
+#[cfg(kani)]
+use crate::verif::env::{HashMap, HashSet};
+#[cfg(not(kani))]
 use std::collections::{HashMap, HashSet};
 
 pub use self::network_builder::{
@@ -23,9 +26,23 @@ pub(crate) type FastDashSet<K> = dashmap::DashSet<K, FastHasherState>;
 pub(crate) type FastDashMap<K, V> = dashmap::DashMap<K, V, FastHasherState>;
 pub(crate) type FastHasherState = ahash::RandomState;
 
+#[cfg(kani)]
+pub(crate) use crate::verif::env::now;
+
+#[cfg(not(kani))]
 pub(crate) fn now() -> u32 {
     std::time::SystemTime::now()
         .duration_since(std::time::UNIX_EPOCH)
         .unwrap_or_default()
         .as_secs() as u32
 }
+
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused)]
+pub mod verif {
+    pub use super::address_list::verif as util_address_list;
+    pub use super::fast_rand::verif as util_fast_rand;
+    pub use super::packets_history::verif as util_packets_history;
+    pub use super::updated_at::verif as util_updated_at;
+}
diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 5829f1a..9cbd5c3 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -190,3 +190,11 @@ const IN_TRANSIT: u64 = 0xFFFFFFFFFFFFFFFF;
 
 const HISTORY_BITS: usize = 512;
 const HISTORY_SIZE: usize = HISTORY_BITS / 64;
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/util_packets_history.rs"));
+}
diff --git a/src/util/updated_at.rs b/src/util/updated_at.rs
index 9dfa431..1f964c9 100644
--- a/src/util/updated_at.rs
+++ b/src/util/updated_at.rs
@@ -1,6 +1,10 @@
 use std::sync::atomic::{AtomicU64, Ordering};
+#[cfg(not(kani))]
 use std::time::Instant;
 
+#[cfg(kani)]
+use crate::verif::env::Instant;
+
 pub struct UpdatedAt {
     started_at: Instant,
     updated_at: AtomicU64,
@@ -29,3 +33,11 @@ impl Default for UpdatedAt {
         Self::new()
     }
 }
+
+/// Specifications and proof harnesses, compiled only by the verifier
+#[cfg(kani)]
+#[doc(hidden)]
+#[allow(unused, clippy::all)]
+pub mod verif {
+    include!(concat!(env!("EVERSCALE_VERIF_SPECS"), "/util_updated_at.rs"));
+}
-- 
2.43.0


From 34f6aba28a2e3abac8da195ad7815c5f0b403115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 02/15] fix: advance the replay window and remember the packet
 that moved it

The window never left block 0, so every packet with a sequence number of 256
or more was accepted again and again, and numbers close to u64::MAX
overflowed.
---
 src/util/packets_history.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 9cbd5c3..00ea653 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -91,7 +91,7 @@ impl PacketsHistory {
             let index_masked = index & INDEX_MASK;
             let index_normalized = index & !INDEX_MASK;
 
-            if index_normalized > seqno_normalized + INDEX_MASK + 1 {
+            if index_normalized.saturating_sub(seqno_normalized) > INDEX_MASK + 1 {
                 tracing::debug!(seqno, index_normalized, "peer packet is too old");
                 return false;
             }
@@ -138,7 +138,7 @@ impl PacketsHistory {
                         continue;
                     }
 
-                    if index_normalized + INDEX_MASK + 1 == seqno_normalized {
+                    if seqno_normalized - index_normalized == INDEX_MASK + 1 {
                         for i in 0..HISTORY_SIZE / 2 {
                             mask.bits[i].store(
                                 mask.bits[i + HISTORY_SIZE / 2].load(Ordering::Acquire),
@@ -155,7 +155,10 @@ impl PacketsHistory {
                         }
                     }
 
-                    index_normalized
+                    let mask_offset = HISTORY_SIZE / 2 + seqno_masked as usize / 64;
+                    mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
+
+                    seqno_normalized
                 }
             };
 
-- 
2.43.0


From 8344294530173973122ba83e7db081a0f814f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 03/15] fix: do not register the tag of a rejected duplicate
 key

---
 src/adnl/keystore.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/adnl/keystore.rs b/src/adnl/keystore.rs
index d6daa7e..561c482 100644
--- a/src/adnl/keystore.rs
+++ b/src/adnl/keystore.rs
@@ -54,16 +54,14 @@ impl Keystore {
         let (_, short_id) = secret_key.compute_node_ids();
 
         match self.tags.entry(tag) {
-            hash_map::Entry::Vacant(entry) => {
-                entry.insert(short_id);
-                match self.keys.entry(short_id) {
-                    hash_map::Entry::Vacant(entry) => {
-                        entry.insert(Arc::new(secret_key.into()));
-                        Ok(short_id)
-                    }
-                    hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            hash_map::Entry::Vacant(tag_entry) => match self.keys.entry(short_id) {
+                hash_map::Entry::Vacant(entry) => {
+                    tag_entry.insert(short_id);
+                    entry.insert(Arc::new(secret_key.into()));
+                    Ok(short_id)
                 }
-            }
+                hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
+            },
             hash_map::Entry::Occupied(entry) => {
                 if entry.get() == &short_id {
                     Ok(short_id)
-- 
2.43.0


From 21a54203cf3920ce4347e07e92ee66dc020d46de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 04/15] fix: continue a multipart message where the previous
 part ended

---
 src/adnl/node/sender.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index 5a68188..ba5f50e 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -157,7 +157,7 @@ impl Node {
                     },
                 };
 
-                *offset += len;
+                *offset = len;
                 result
             }
 
-- 
2.43.0


From 3bce8040a48a4c12a11af8ed2627c593fe32ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 05/15] fix: keep the first part of a transfer at each offset
 and ignore empty parts

---
 src/adnl/transfer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index c945665..f6fe543 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -48,11 +48,21 @@ impl Transfer {
         data: Vec<u8>,
         transfer_id: &TransferId,
     ) -> Result<Option<Vec<u8>>, TransferError> {
+        use dashmap::mapref::entry::Entry;
+
+        // Empty parts carry no data and can't be used to advance through the buffer
         let len = data.len();
-        if self.parts.insert(offset, data).is_some() {
+        if len == 0 {
             return Ok(None);
         }
 
+        match self.parts.entry(offset) {
+            Entry::Occupied(_) => return Ok(None),
+            Entry::Vacant(entry) => {
+                entry.insert(data);
+            }
+        }
+
         // Increase received length.
         // This part heavily relies on ordering, so hope that it works as expected
         self.received_len.fetch_add(len, Ordering::Release);
-- 
2.43.0


From e448d078a5944b7b6596c6df799f758433483432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 06/15] fix: apply the configured minimum to ADNL query
 timeouts

---
 src/adnl/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index dd6404a..16b2668 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -479,7 +479,7 @@ impl Node {
             .get(peer_id)
             .map(|entry| entry.value().clone());
 
-        let timeout = timeout.unwrap_or(self.options.query_default_timeout_ms);
+        let timeout = self.compute_query_timeout(timeout);
         let answer = tokio::time::timeout(Duration::from_millis(timeout), pending_query.wait())
             .await
             .ok()
-- 
2.43.0


From 14dab27960658ef9d01158a8cd8a462f9561bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 07/15] fix: return no DHT nodes when none are asked for

---
 src/dht/buckets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/buckets.rs b/src/dht/buckets.rs
index 2f86c4a..297ad21 100644
--- a/src/dht/buckets.rs
+++ b/src/dht/buckets.rs
@@ -67,10 +67,10 @@ impl Buckets {
                 // Add all nodes from this distance to the result
                 let bucket = &self.buckets[distance as usize];
                 for item in bucket.iter() {
-                    nodes.push(item.value().clone());
                     if nodes.len() >= k as usize {
                         break 'outer;
                     }
+                    nodes.push(item.value().clone());
                 }
 
                 // Skip one different bit:
-- 
2.43.0


From 05138b439387c22565c11675724e4994d87e2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 08/15] fix: require a signature for handshake packets naming
 their sender by short id

---
 src/adnl/node/receiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 704c402..7ec0049 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -450,7 +450,7 @@ impl Node {
                 raw_packet,
                 &mut packet.signature,
                 peer.id().public_key(),
-                false,
+                self.options.packet_signature_required && !from_channel,
             )?;
         }
 
-- 
2.43.0


From eaaf806bce8d3319d97cdbfa9f2304ec4222470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 09/15] fix: accept any number of random peers when one is
 excluded

---
 src/adnl/peers_set.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index 1354839..e7a6f2d 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -69,7 +69,11 @@ impl PeersSet {
 
         let items = state.index.choose_multiple(
             &mut fast_thread_rng(),
-            if except.is_some() { amount + 1 } else { amount } as usize,
+            if except.is_some() {
+                amount.saturating_add(1)
+            } else {
+                amount
+            } as usize,
         );
 
         match except {
-- 
2.43.0


From dce59b1fae9cca6b501b4b1deae64b8a320bf649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:22 +0000
Subject: [PATCH 10/15] fix: reject FEC parameters and packets that RaptorQ
 cannot decode

---
 src/overlay/overlay.rs        |  9 +++++++--
 src/rldp/decoder.rs           | 29 ++++++++++++++++++++++++++---
 src/rldp/incoming_transfer.rs | 12 +++++++++---
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 877552f..770b748 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -967,6 +967,11 @@ impl Overlay {
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
+        let mut decoder = match RaptorQDecoder::with_params(fec_type) {
+            Some(decoder) => decoder,
+            None => return Err(OverlayError::InvalidFecParameters.into()),
+        };
+
         let (broadcast_tx, mut broadcast_rx) = mpsc::unbounded_channel();
 
         let entry = entry
@@ -982,8 +987,6 @@ impl Overlay {
         // Spawn packets receiver
         let overlay = self.clone();
         tokio::spawn(async move {
-            let mut decoder = RaptorQDecoder::with_params(fec_type);
-
             // For each fec broadcast packet
             let mut packets = 0;
             while let Some(broadcast) = broadcast_rx.recv().await {
@@ -1420,6 +1423,8 @@ type BroadcastId = [u8; 32];
 enum OverlayError {
     #[error("Unsupported signature")]
     UnsupportedSignature,
+    #[error("Invalid FEC parameters")]
+    InvalidFecParameters,
     #[error("Data size mismatch")]
     DataSizeMismatch,
     #[error("Data hash mismatch")]
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index c4d39d0..73f9c94 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -5,22 +5,39 @@ use crate::proto::rldp::RaptorQFecType;
 pub struct RaptorQDecoder {
     engine: Decoder,
     params: RaptorQFecType,
+    symbol_size: u32,
     seqno: u32,
 }
 
 impl RaptorQDecoder {
-    pub fn with_params(params: RaptorQFecType) -> Self {
-        Self {
+    /// Returns `None` if there is no single block code with these parameters
+    pub fn with_params(params: RaptorQFecType) -> Option<Self> {
+        let symbol_size = params.packet_len - params.packet_len % SYMBOL_ALIGNMENT;
+        if params.total_len == 0
+            || params.packet_len > u16::MAX as u32
+            || symbol_size < MIN_SYMBOL_SIZE
+            || (params.total_len - 1) / symbol_size >= MAX_SOURCE_SYMBOLS
+        {
+            return None;
+        }
+
+        Some(Self {
             engine: Decoder::new(ObjectTransmissionInformation::with_defaults(
                 params.total_len as u64,
                 params.packet_len as u16,
             )),
             params,
+            symbol_size,
             seqno: 0,
-        }
+        })
     }
 
     pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
+        // Ignore packets which can't be a symbol of this code
+        if data.len() != self.symbol_size as usize || seqno > MAX_SEQNO {
+            return None;
+        }
+
         let packet = EncodingPacket::new(PayloadId::new(0, seqno), data);
         self.seqno = seqno;
         self.engine.decode(packet)
@@ -35,6 +52,12 @@ impl RaptorQDecoder {
     }
 }
 
+const SYMBOL_ALIGNMENT: u32 = 8;
+const MIN_SYMBOL_SIZE: u32 = 64;
+const MAX_SOURCE_SYMBOLS: u32 = 56403;
+// Symbol ids are 24 bit, including the padding symbols of the block
+const MAX_SEQNO: u32 = (1 << 24) - 1 - MAX_SOURCE_SYMBOLS;
+
 /// Specifications and proof harnesses, compiled only by the verifier
 #[cfg(kani)]
 #[doc(hidden)]
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 26bf0e8..82c759d 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -78,9 +78,13 @@ impl IncomingTransfer {
                     return Err(IncomingTransferError::PacketParametersMismatch.into())
                 }
                 Some(decoder) => decoder,
-                None => self
-                    .decoder
-                    .get_or_insert_with(|| RaptorQDecoder::with_params(fec_type)),
+                None if fec_type.total_len as usize > total_size - self.data.len() => {
+                    return Err(IncomingTransferError::TooBigTransferSize.into())
+                }
+                None => match RaptorQDecoder::with_params(fec_type) {
+                    Some(decoder) => self.decoder.insert(decoder),
+                    None => return Err(IncomingTransferError::InvalidPacketParameters.into()),
+                },
             },
             std::cmp::Ordering::Less => {
                 tl_proto::serialize_into(
@@ -172,6 +176,8 @@ enum IncomingTransferError {
     TotalSizeMismatch,
     #[error("Packet parameters mismatch")]
     PacketParametersMismatch,
+    #[error("Invalid packet parameters")]
+    InvalidPacketParameters,
     #[error("Too big size for RLDP transfer")]
     TooBigTransferSize,
 }
-- 
2.43.0


From 1bd8ee3911d72acab1af034727ca60333303b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 11/15] fix: keep RLDP sequence numbers valid for late, stale
 and hostile confirmations

---
 src/rldp/decoder.rs           |  4 +---
 src/rldp/encoder.rs           | 15 ++++++++++++++-
 src/rldp/outgoing_transfer.rs | 13 +++++++++++--
 src/rldp/transfers_cache.rs   |  4 +++-
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 73f9c94..33bb20f 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -1,5 +1,6 @@
 use everscale_raptorq::{Decoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};
 
+use super::encoder::{MAX_SEQNO, MAX_SOURCE_SYMBOLS};
 use crate::proto::rldp::RaptorQFecType;
 
 pub struct RaptorQDecoder {
@@ -54,9 +55,6 @@ impl RaptorQDecoder {
 
 const SYMBOL_ALIGNMENT: u32 = 8;
 const MIN_SYMBOL_SIZE: u32 = 64;
-const MAX_SOURCE_SYMBOLS: u32 = 56403;
-// Symbol ids are 24 bit, including the padding symbols of the block
-const MAX_SEQNO: u32 = (1 << 24) - 1 - MAX_SOURCE_SYMBOLS;
 
 /// Specifications and proof harnesses, compiled only by the verifier
 #[cfg(kani)]
diff --git a/src/rldp/encoder.rs b/src/rldp/encoder.rs
index 2098c1c..7f7bb1b 100644
--- a/src/rldp/encoder.rs
+++ b/src/rldp/encoder.rs
@@ -35,8 +35,17 @@ impl RaptorQEncoder {
         let packet = if let Some(packet) = self.source_packets.pop() {
             packet
         } else {
+            // Ids below the source packet count belong to the source packets
+            let repair_seqno = std::cmp::max(*seqno, self.params.packet_count);
+            if repair_seqno > MAX_SEQNO {
+                return Err(EncoderError::FailedToEncode.into());
+            }
+
             let encoders = self.engine.get_block_encoders();
-            let packet = match encoders[self.encoder_index].repair_packets(*seqno, 1).pop() {
+            let packet = match encoders[self.encoder_index]
+                .repair_packets(repair_seqno, 1)
+                .pop()
+            {
                 Some(packet) => packet,
                 None => return Err(EncoderError::FailedToEncode.into()),
             };
@@ -64,6 +73,10 @@ enum EncoderError {
 
 pub const MAX_TRANSMISSION_UNIT: u32 = 768;
 
+pub const MAX_SOURCE_SYMBOLS: u32 = 56403;
+// Symbol ids are 24 bit, including the padding symbols of the block
+pub const MAX_SEQNO: u32 = (1 << 24) - 1 - MAX_SOURCE_SYMBOLS;
+
 /// Specifications and proof harnesses, compiled only by the verifier
 #[cfg(kani)]
 #[doc(hidden)]
diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 3639467..bdc8906 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -49,7 +49,10 @@ impl OutgoingTransfer {
             return Ok(None);
         }
 
-        self.current_message_part = part as u32;
+        if self.current_message_part != part as u32 {
+            self.current_message_part = part as u32;
+            self.state.reset_seqno();
+        }
 
         let chunk_size = std::cmp::min(total - processed, SLICE);
         let encoder = self.encoder.insert(RaptorQEncoder::with_data(
@@ -78,7 +81,7 @@ impl OutgoingTransfer {
         let seqno_in = self.state.seqno_in();
 
         let mut next_seqno_out = seqno_out;
-        if seqno_out - seqno_in <= WINDOW {
+        if seqno_out.saturating_sub(seqno_in) <= WINDOW {
             if previous_seqno_out == seqno_out {
                 next_seqno_out += 1;
             }
@@ -165,6 +168,12 @@ impl OutgoingTransferState {
         }
         self.seqno_in.fetch_max(seqno, Ordering::Release);
     }
+
+    /// Each part has its own sequence numbers
+    fn reset_seqno(&self) {
+        self.seqno_in.store(0, Ordering::Release);
+        self.seqno_out.store(0, Ordering::Release);
+    }
 }
 
 const WINDOW: u32 = 1000;
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 532513e..14c2821 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -260,7 +260,9 @@ impl TransfersCache {
             proto::rldp::MessagePart::Complete { transfer_id, part } => {
                 if let Some(transfer) = self.transfers.get(transfer_id) {
                     if let RldpTransfer::Outgoing(state) = transfer.value() {
-                        state.set_part(part + 1);
+                        if let Some(next_part) = part.checked_add(1) {
+                            state.set_part(next_part);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 88de6a441554a59d777536251d13cb29bad4e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 12/15] fix: do not answer RLDP queries that were received only
 in part

---
 src/rldp/incoming_transfer.rs | 4 ++++
 src/rldp/transfers_cache.rs   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 82c759d..ee4d6de 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -38,6 +38,10 @@ impl IncomingTransfer {
         self.total_size
     }
 
+    pub fn is_complete(&self) -> bool {
+        matches!(self.total_size, Some(total_size) if self.data.len() >= total_size)
+    }
+
     pub fn data(&self) -> &[u8] {
         self.data.as_slice()
     }
diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 14c2821..a320eec 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -414,6 +414,11 @@ impl IncomingContext {
         query_options: QueryOptions,
         force_compression: bool,
     ) -> Result<Option<TransferId>> {
+        // Ignore queries that were not fully received in time
+        if !self.transfer.is_complete() {
+            return Err(TransfersCacheError::IncompleteQuery.into());
+        }
+
         // Deserialize incoming query
         let query = match OwnedRldpMessageQuery::from_data(self.transfer.take_data()) {
             Some(query) => query,
@@ -667,6 +672,8 @@ const TRANSFER_LOOP_INTERVAL: u64 = 10; // Milliseconds
 
 #[derive(thiserror::Error, Debug)]
 enum TransfersCacheError {
+    #[error("Incomplete query")]
+    IncompleteQuery,
     #[error("Unexpected message")]
     UnexpectedMessage,
     #[error("No subscribers for query")]
-- 
2.43.0


From 53017785ddded411992993fb2f563d9a846a3e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:16 +0000
Subject: [PATCH 13/15] fix: count unanswered DHT queries and the first failure
 towards the peer penalty

---
 src/dht/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index a05e8c9..20c76a4 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -454,7 +454,8 @@ impl Node {
         for<'a> A: TlRead<'a, Repr = tl_proto::Boxed> + 'static,
     {
         let result = self.adnl.query(&self.local_id, peer_id, query, None).await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -472,7 +473,8 @@ impl Node {
                 Some(self.options.query_timeout_ms),
             )
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -489,7 +491,8 @@ impl Node {
             .adnl
             .query_with_prefix::<Q, A>(&self.local_id, peer_id, &self.query_prefix, query, None)
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -622,7 +625,7 @@ impl NodeState {
                     *entry.get_mut() += 2;
                 }
                 Entry::Vacant(entry) => {
-                    entry.insert(0);
+                    entry.insert(2);
                 }
             }
         }
-- 
2.43.0


From 8c5a65770bd1e8157b06d7fb57c857cb7e65e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 14/15] fix: accept only unexpired DHT values of the key asked
 for, and only signed addresses

---
 src/dht/entry.rs   |  2 +-
 src/dht/node.rs    | 16 +++++++++++++++-
 src/dht/streams.rs |  6 +++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index c2d4dd4..fd4b3d3 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -89,7 +89,7 @@ impl<'a> Entry<'a> {
         let query = tl_proto::serialize(proto::rpc::DhtFindValue { key: &key_id, k: 6 }).into();
 
         match self.dht.query_raw(peer_id, query).await? {
-            Some(result) => self.dht.parse_value_result(&result),
+            Some(result) => self.dht.parse_value_result(&key_id, &result),
             None => Ok(None),
         }
     }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index 20c76a4..7fd0a58 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -14,7 +14,7 @@ use tl_proto::{BoxedConstructor, BoxedWrapper, TlRead, TlWrite};
 use super::buckets::Buckets;
 use super::entry::Entry;
 use super::futures::StoreValue;
-use super::storage::{Storage, StorageOptions};
+use super::storage::{Storage, StorageKeyId, StorageOptions};
 use super::{KEY_ADDRESS, KEY_NODES, MAX_DHT_PEERS};
 use crate::adnl;
 use crate::overlay;
@@ -346,6 +346,11 @@ impl Node {
     ) -> Result<(SocketAddrV4, adnl::NodeIdFull)> {
         let mut values = self.entry(peer_id, KEY_ADDRESS).values();
         while let Some((key, BoxedWrapper(value))) = values.next().await {
+            // Only the key owner can announce its address
+            if key.update_rule != proto::dht::UpdateRule::Signature {
+                continue;
+            }
+
             match (
                 parse_address_list(&value, self.adnl.options().clock_tolerance_sec),
                 adnl::NodeIdFull::try_from(key.id.as_equivalent_ref()),
@@ -498,6 +503,7 @@ impl Node {
 
     pub(super) fn parse_value_result<T>(
         &self,
+        key_id: &StorageKeyId,
         result: &[u8],
     ) -> Result<Option<(proto::dht::KeyDescriptionOwned, T)>>
     where
@@ -505,6 +511,12 @@ impl Node {
     {
         match tl_proto::deserialize::<proto::dht::ValueResult>(result)? {
             proto::dht::ValueResult::ValueFound(BoxedWrapper(mut value)) => {
+                if key_id != &tl_proto::hash_as_boxed(value.key.key) {
+                    return Err(DhtNodeError::InvalidValueKey.into());
+                }
+                if value.ttl <= now() {
+                    return Err(DhtNodeError::ValueExpired.into());
+                }
                 if value.key.update_rule == proto::dht::UpdateRule::Signature {
                     verify_signed_dht_value(&mut value)?;
                 }
@@ -768,6 +780,8 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Value expired")]
+    ValueExpired,
 }
 
 /// Specifications and proof harnesses, compiled only by the verifier
diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index eae3256..2a7692f 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -10,12 +10,14 @@ use tl_proto::TlRead;
 
 use super::node::Node;
 use super::peers_iter::PeersIter;
+use super::storage::StorageKeyId;
 use crate::proto;
 
 /// Stream for the `DhtNode::values` method.
 #[must_use = "streams do nothing unless polled"]
 pub struct DhtValuesStream<T> {
     dht: Arc<Node>,
+    key_id: StorageKeyId,
     query: Bytes,
     batch_len: Option<usize>,
     known_peers_version: u64,
@@ -43,6 +45,7 @@ where
 
         Self {
             dht,
+            key_id,
             query,
             batch_len,
             known_peers_version,
@@ -70,11 +73,12 @@ where
         // Spawn at most `max_tasks` queries
         while let Some(peer_id) = self.peers_iter.next() {
             let dht = self.dht.clone();
+            let key_id = self.key_id;
             let query = self.query.clone();
 
             self.futures.push(Box::pin(async move {
                 match dht.query_raw(&peer_id, query).await {
-                    Ok(Some(result)) => match dht.parse_value_result::<T>(&result) {
+                    Ok(Some(result)) => match dht.parse_value_result::<T>(&key_id, &result) {
                         Ok(Some(value)) => Some(value),
                         Ok(None) => None,
                         Err(e) => {
-- 
2.43.0


From 644ff6955d9202c8c1a5c71de7f7f223ad9dfde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:48 +0000
Subject: [PATCH 15/15] fix: do not overflow on broadcast dates close to the
 end of time

---
 src/overlay/overlay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 770b748..23bb887 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1136,7 +1136,7 @@ impl Overlay {
     }
 
     fn is_broadcast_outdated(&self, date: u32) -> bool {
-        date + (self.options.broadcast_timeout_sec as u32) < now()
+        date.saturating_add(self.options.broadcast_timeout_sec as u32) < now()
     }
 
     fn spawn_broadcast_gc_task(self: &Arc<Self>, broadcast_id: BroadcastId) {
-- 
2.43.0

