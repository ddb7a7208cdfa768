HOOKS = ["0df7afe5b53c0f4e0fc2e2b9b92a70f9bff75c30"]
I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"
SAMPLE = "The 24 tests run a handful of fixed inputs; "

prop("C01", "Both ends of a channel agree on keys and ids, and the ids are distinct",
     "When two peers build a channel from each other's channel keys, what one side uses for sending is exactly what the other side uses for receiving, for both the ordinary and the priority direction, with matching channel ids and secrets. The two directions never share a secret unless the two peer ids are equal.",
     [I], "all key pairs, peer ids, dates and channel roles",
     SAMPLE + "agreement must hold for every ordering of the two peer ids and every key pair.",
     ["src/adnl/channel.rs"], [("Channel::new derives both directions from the shared secret and the order of the ids", "src/adnl/channel.rs"), ("compute_shared_secret", "src/adnl/encryption.rs")],
     [("Channel", "directional secrets and ids", "src/adnl/channel.rs")], ["the ids and the packets each side produces and accepts"])

prop("C02", "Channel packets decrypt to what was sent, and nothing else is accepted",
     "A packet encrypted on one end of a channel is accepted by the other end and yields exactly the payload and protocol version that were sent. Any packet whose checksum does not match its decrypted content is refused with an error, and no input makes decryption panic.",
     [I], "all keys, payload bytes and versions; bounded payload lengths",
     SAMPLE + "no test reaches the refusal paths or unaligned lengths.",
     ["src/adnl/channel.rs", "src/adnl/encryption.rs", "src/adnl/packet_view.rs"],
     [("Channel::encrypt / Channel::decrypt / decode_version", "src/adnl/channel.rs"), ("build_packet_cipher, compute_packet_data_hash", "src/adnl/encryption.rs")],
     observe=["Channel::decrypt result and the packet view"], level="other",
     note="Bounded: packet lengths are concrete and small (stated per harness). ")

prop("C03", "Handshake packets decrypt to what was sent, and nothing else is accepted",
     "A handshake packet built for a local key is decrypted by the node owning that key to exactly the bytes and protocol version that were sent. A packet addressed to an unknown key is reported as not addressed to this node, any packet whose checksum does not match or whose ephemeral key is invalid is an error, and no input makes the parser panic.",
     [I], "all keys and packet bytes; bounded payload lengths",
     SAMPLE + "malformed handshakes are never tried.",
     ["src/adnl/handshake.rs", "src/adnl/encryption.rs"],
     [("build_handshake_packet / parse_handshake_packet", "src/adnl/handshake.rs")], observe=["parse_handshake_packet result"], level="other",
     note="Bounded: packet lengths are concrete and small (stated per harness). ")

prop("C04", "Packet contents survive encoding, and parsing untrusted bytes never fails badly",
     "Decoding the encoding of any packet contents gives back the same contents, including the optional fields announced by the flags. The bytes covered by a packet's signature are exactly its encoding without the signature. Parsing arbitrary bytes either fails with an error or yields contents; it never panics or reads outside the packet.",
     [I], "all field values and flag combinations, and all byte strings up to the stated length",
     SAMPLE + "the parser faces arbitrary network bytes.",
     ["src/proto/adnl.rs"], [("OutgoingPacketContents / IncomingPacketContents TL codecs", "src/proto/adnl.rs"), ("PacketContentsSignature::extract", "src/proto/adnl.rs")],
     observe=["tl_proto::serialize / deserialize"], level="other", note="Bounded: message counts and byte-string lengths. ")

prop("C05", "An incoming packet is accepted only from an authenticated, current, fresh sender",
     "The receiver accepts a packet only if its sender is established by the channel it came through or, where the node requires signatures, by a valid signature of the claimed sender key, and never for a sender it does not know. A packet that repeats a sequence number or refers to an obsolete reinit of either side is refused and delivers nothing.",
     [I, H, C], "all packet contents, peer states, options and channel origins",
     SAMPLE + "attackers choose every header combination.",
     ["src/adnl/node/receiver.rs"], [("Node::check_packet", "src/adnl/node/receiver.rs"), ("PeerState::packets_history, Peer reinit dates", "src/adnl/peer.rs")],
     [("peers", "known peers with their reinit dates and replay windows", "src/adnl/node/mod.rs")], ["whether the packet's messages are processed", "peer reinit dates, addresses and sequence numbers"])

prop("C06", "No sequence number is accepted twice, and fresh ones in the window are",
     "A peer's packet sequence number is accepted at most once. Numbers ahead of, or at most 256 behind, the highest accepted one are accepted exactly when not seen before, numbers that fell out of the window are refused, and a refused number changes nothing.",
     [H, I], "every reachable window state and every sequence number",
     SAMPLE + "the window state is exponential in the history.",
     ["src/util/packets_history.rs"], [("PacketsHistory::deliver_packet", "src/util/packets_history.rs")],
     [("PacketsHistory", "highest number and the bit window around it", "src/util/packets_history.rs")], ["deliver_packet's answer", "seqno()"])

prop("C07", "Peer reinitialisation and address updates never go backwards",
     "A peer's recorded reinit date only grows; a newer date restarts its receive history and an older one is refused without effect. Resetting a peer gives it a fresh channel key and a strictly newer local reinit date so that its old packets are recognised as obsolete.",
     [I, H], "all peer states and dates",
     SAMPLE + "none of them drives reinit sequences.",
     ["src/adnl/peer.rs"], [("Peer::try_reinit_sender, Peer::reset, Peer::set_addr", "src/adnl/peer.rs")],
     [("Peer", "reinit dates, address, histories, channel key", "src/adnl/peer.rs")], ["sender_state / receiver_state / addr()"])

prop("C08", "A multipart message is reassembled exactly, or not at all",
     "Splitting a message into parts for sending and feeding those parts in any order, with repetitions, to the receiving transfer yields exactly the original message. Parts that overlap, exceed the announced size or contradict the message hash never produce a message, and no sequence of parts makes the receiver panic or loop.",
     [I, H], "all part sequences within the stated part count and sizes",
     SAMPLE + "no test sends parts out of order or with hostile offsets.",
     ["src/adnl/transfer.rs", "src/adnl/node/sender.rs"], [("Transfer::add_part", "src/adnl/transfer.rs"), ("build_part_message and the splitting loop", "src/adnl/node/sender.rs")],
     [("Transfer", "received parts by offset", "src/adnl/transfer.rs")], ["the reassembled bytes"], level="other", note="Bounded: part counts and sizes. ")

prop("C09", "A query is answered at most once, by its own answer",
     "An answer completes exactly the pending query with the same id, with exactly the bytes received, and every other pending query is left waiting. A query that already has an answer or timed out cannot be completed again, and an answer with an unknown id has no effect.",
     [I, H], "all query ids, answers and pending sets of any size",
     SAMPLE + "query ids collide and answers repeat only under attack or loss.",
     ["src/adnl/queries_cache.rs"], [("QueriesCache::add_query, update_query, PendingAdnlQuery", "src/adnl/queries_cache.rs")],
     [("QueriesCache", "pending queries by id", "src/adnl/queries_cache.rs")], ["the value the waiting query receives"])

prop("C10", "Each peer has at most one channel, reachable by exactly its own ids",
     "At any time a peer has at most one channel, packets for its two incoming channel ids and no others reach it, and it is replaced only by an offer with a different key and a later date. Channels are used for sending only once the other side confirmed them, and resetting or removing a peer, or an unanswered channel timing out, makes the channel unreachable without touching other peers' channels.",
     [I, H, C], "all offers, keys, dates and channel tables of any size",
     SAMPLE + "stale and crossing channel offers are never tried.",
     ["src/adnl/node/mod.rs", "src/adnl/node/receiver.rs", "src/adnl/channel.rs"],
     [("Node::create_channel, Node::reset_peer, Node::remove_peer", "src/adnl/node/mod.rs"), ("Channel::is_still_valid, update_drop_timeout", "src/adnl/channel.rs")],
     [("channels_by_id / channels_by_peers", "the two channel tables", "src/adnl/node/mod.rs")], ["which channel a packet is decrypted with", "which channel a packet is sent through"])

prop("C11", "A keystore finds exactly the keys added to it",
     "After any sequence of successful additions a key is found by its tag and by its short id exactly as added, and a rejected addition leaves the store unchanged. No two tags or ids ever share a key and no key is replaced.",
     [I, H], "all keys, tags and stores of any size",
     SAMPLE + "rejected additions and the state they leave are untested.",
     ["src/adnl/keystore.rs"], [("Keystore::add_key, KeystoreBuilder", "src/adnl/keystore.rs")],
     [("Keystore", "keys by id, ids by tag", "src/adnl/keystore.rs")], ["key_by_id / key_by_tag"])

prop("C12", "A bounded peer set has no duplicates, never exceeds its capacity and keeps order",
     "A peer set never holds an id twice or more ids than its capacity, an insertion into a full set evicts exactly the oldest id, and membership, indexed access and iteration always agree. Taking random peers yields distinct members, at most the requested number, none of them excluded.",
     [I, H], "all operation sequences on sets of the stated capacity",
     SAMPLE + "eviction and removal orders are sampled only.",
     ["src/adnl/peers_set.rs"], [("PeersSet::push, contains, get, randomly_fill_from", "src/adnl/peers_set.rs")],
     [("PeersSet", "ring of ids with index", "src/adnl/peers_set.rs")], ["contains / len / iteration"], level="other", note="Bounded: capacity of the set. ")

prop("C13", "Address lists are taken only when they name one usable, current address",
     "An address list is accepted only if it is not empty, is not from the future beyond the clock tolerance and has not expired; every other list is refused with an error. The accepted address is exactly the list's UDP address and port.",
     [I, C], "all lists, dates and tolerances",
     SAMPLE + "boundary dates and ports are untested.",
     ["src/util/address_list.rs"], [("parse_address_list", "src/util/address_list.rs")], observe=["the returned socket address"])

prop("C14", "DHT distance and buckets order peers by shared key prefix",
     "The affinity of two keys is the length in bits of their common prefix, capped at 255, and it is symmetric. A peer is filed in exactly one bucket, the one of its affinity to the local key, an older record never replaces a newer one, and a search for the closest peers returns only known peers and at most the number asked for.",
     [I, H], "all keys; tables within the stated number of peers",
     SAMPLE + "the tests use random keys, which almost never share long prefixes.",
     ["src/dht/buckets.rs"], [("get_affinity, Buckets::insert, Buckets::find", "src/dht/buckets.rs")],
     [("Buckets", "peers by affinity", "src/dht/buckets.rs")], ["the peers a findNode query returns"])

prop("C15", "DHT storage keeps only valid values, and the newest of each key",
     "A value is stored only if its key description is signed by the key owner, the key id matches the description, its update rule and its own signature hold, and it has not expired. A stored value is replaced only by a strictly newer one and is returned unchanged until it expires, after which it is not returned.",
     [I, H], "all values, update rules, times and stores of any size",
     SAMPLE + "each forged field combination is a case of its own.",
     ["src/dht/storage.rs", "src/dht/entry.rs"], [("StorageKeyId checks and StoredValue insertion by update rule", "src/dht/storage.rs"), ("validate_key_description", "src/dht/storage.rs")],
     [("Storage", "values by key id", "src/dht/storage.rs")], ["Storage::get_ref after Storage::insert"])

prop("C16", "A DHT lookup returns only values valid for the key asked for",
     "The value a lookup returns belongs to the key that was asked for and passed the signature, time and update-rule checks, whatever the answering peers sent. An address lookup returns an address only if the record is signed by the full id it returns and that id hashes to the id asked for.",
     [I, F], "all answers from arbitrary peers",
     SAMPLE + "answers come from untrusted peers.",
     ["src/dht/node.rs"], [("parse_value_result, parse_dht_value_address", "src/dht/node.rs")], observe=["the value or address handed to the caller"])

prop("C17", "DHT peers are set aside after repeated failures and restored by answers",
     "Every failed query adds to a peer's penalty and every answer lowers it; a peer whose penalty exceeds the bad threshold is left out of searches until an answer clears it. Penalties of other peers are never changed.",
     [H, C], "all penalty states and table sizes",
     SAMPLE + "failure histories are not exercised.",
     ["src/dht/node.rs"], [("Node::update_peer_status", "src/dht/node.rs")], [("penalties", "failure score per peer", "src/dht/node.rs")], ["is_bad_peer", "peers offered to searches"])

prop("C18", "An RLDP transfer delivers exactly the announced number of decoded bytes",
     "An incoming transfer is delivered only when all its parts are decoded, with exactly the announced total size, the parts in order, and each part counted once. A message part for another transfer, beyond the announced size or over the size limit never contributes bytes, and no sequence of packets makes the receiver panic or allocate beyond the limit.",
     [I, H], "all message parts and transfer states, decoder outcomes arbitrary",
     SAMPLE + "the packets are chosen by the remote peer.",
     ["src/rldp/incoming_transfer.rs", "src/rldp/decoder.rs"], [("IncomingTransfer::process_chunk", "src/rldp/incoming_transfer.rs"), ("RaptorQDecoder", "src/rldp/decoder.rs")],
     [("IncomingTransfer", "current part, decoder, collected bytes", "src/rldp/incoming_transfer.rs")], ["the delivered data", "confirm / complete replies"], note="RaptorQ decoding itself is an assumed contract. ")

prop("C19", "An RLDP sender covers the whole message and advances only on confirmation",
     "The parts of an outgoing transfer partition the message in order, every prepared packet carries the current part's number, size and increasing sequence numbers, and the sender moves to the next part exactly when that part is confirmed complete. Confirmations for other parts or out-of-range numbers change nothing and cannot make the sender panic.",
     [I, H], "all data sizes in bound, confirmations and states",
     SAMPLE + "hostile confirmations are untested.",
     ["src/rldp/outgoing_transfer.rs", "src/rldp/encoder.rs"], [("OutgoingTransfer::start_next_part, prepare_chunk, is_finished", "src/rldp/outgoing_transfer.rs")],
     [("OutgoingTransferState", "part, seqno_in, seqno_out, reply", "src/rldp/outgoing_transfer.rs")], ["the packets sent"])

prop("C20", "RLDP pairs each query with its own answer and bounds what it accepts",
     "The answer returned for an RLDP query is one whose query id equals the query's own id, received on the transfer reserved for that query. Transfer ids of a query and its answer are complements, so neither side can confuse them, and the time allowed for a query grows with its size within fixed bounds.",
     [I, H, C], "all transfer ids, query ids, answers and options",
     SAMPLE + "mismatching answers are never produced.",
     ["src/rldp/node.rs", "src/rldp/transfers_cache.rs"], [("TransfersCache::query, make_answer transfer id, compute_timeout", "src/rldp/transfers_cache.rs"), ("RldpNode::query", "src/rldp/node.rs")],
     [("TransfersCache", "active transfers by id", "src/rldp/transfers_cache.rs")], ["the answer handed to the caller"])

prop("C21", "Compressed data decompresses to what was compressed",
     "Data of at most 256 bytes is passed on unchanged; longer data is replaced by tagged bytes from which decompressing gives back exactly the original. Bytes without the tag, or whose recorded length does not match what they decode to, are not taken for compressed data, and no input makes decompressing panic.",
     [I], "all byte strings up to the stated length",
     SAMPLE + "two fixed strings are tried today.",
     ["src/rldp/compression.rs"], [("Compressed::wrap / unwrap, tag byte", "src/rldp/compression.rs")], observe=["compress / decompress results"], level="other", note="The zstd codec is an assumed contract. ")

prop("C22", "Overlay node records are accepted only when signed by the node for this overlay",
     "An overlay node record is accepted only if it names this overlay and its signature by the named node over exactly that node id, overlay and version is valid. Signing a record for an overlay produces one that this check accepts.",
     [I, C], "all records, versions and overlays",
     SAMPLE + "forged and expired records are untested.",
     ["src/overlay/mod.rs", "src/overlay/overlay_id.rs", "src/overlay/overlay.rs"], [("IdFull::verify_overlay_node", "src/overlay/overlay_id.rs"), ("Overlay::sign_local_node", "src/overlay/overlay.rs")], observe=["which peers enter the overlay"])

prop("C23", "A broadcast is delivered and forwarded at most once, and only if authentic",
     "A simple broadcast is handed to the user and redistributed only if its signature by the stated source over exactly its data, flags and date is valid and it is not outdated or from the future, and never twice for the same broadcast id. What is delivered is exactly the signed data and source, and it is never sent back to where it came from.",
     [I, H], "all broadcasts and overlay states of any size",
     SAMPLE + "duplicates and forgeries come from the network.",
     ["src/overlay/overlay.rs"], [("Overlay::receive_broadcast, create_broadcast, distribute_broadcast", "src/overlay/overlay.rs")],
     [("owned_broadcasts", "broadcasts already seen", "src/overlay/overlay.rs")], ["received broadcasts", "packets sent to neighbours"])

prop("C24", "A FEC broadcast part is used and forwarded only if signed, fresh and consistent",
     "A FEC broadcast part is accepted and redistributed only if it is signed by the stated source, not outdated, not a repetition and agrees with the other parts of its broadcast. A decoded broadcast is delivered at most once and only if its bytes hash to the announced data hash.",
     [I, H], "all parts and overlay states of any size, decoder outcomes arbitrary",
     SAMPLE + "parts are network input.",
     ["src/overlay/overlay.rs"], [("Overlay::receive_fec_broadcast, process_fec_broadcast", "src/overlay/overlay.rs")],
     [("owned_broadcasts", "broadcasts being assembled", "src/overlay/overlay.rs")], ["received broadcasts", "packets sent to neighbours"])

prop("C25", "Node and overlay identifiers are injective encodings of what they name",
     "A node's short id is the hash of its public key's encoding, an overlay's short id the hash of its full id's encoding, and a full overlay id is computed from exactly the workchain, shard prefix and zero state hash. Converting ids to and from their wire or text form gives back the same id.",
     [I], "all keys, workchains, shards and hashes",
     SAMPLE + "a few constants are checked today.",
     ["src/adnl/node_id.rs", "src/overlay/overlay_id.rs"], [("NodeIdFull::compute_short_id", "src/adnl/node_id.rs"), ("IdFull::for_workchain_overlay, compute_short_id", "src/overlay/overlay_id.rs")], observe=["the id bytes"])

prop("C26", "Subscribers are offered messages in order until one takes it",
     "A message or query is offered to the subscribers in registration order, each at most once, until one accepts it, and nobody after it sees it. A query that nobody accepts comes back rejected with its bytes unchanged, and the answer returned is the accepting subscriber's.",
     [I, C], "all subscriber behaviours, for the stated number of subscribers",
     SAMPLE + "rejections and re-routing are not tested.",
     ["src/subscriber/mod.rs", "src/adnl/node/receiver.rs"], [("process_message_custom / process_query", "src/subscriber/mod.rs")], observe=["what each subscriber receives", "the answer sent back"], level="other", note="Bounded: number of subscribers. ")

prop("C27", "ADNL query timeouts follow the round trip and the configured minimum",
     "An ADNL query waits for the requested time, or for a default when none is given, and never less than the configured minimum. A query without an answer resolves to no answer, and is no longer pending afterwards.",
     [I, C], "all options and timeouts",
     SAMPLE + "no test changes the options.",
     ["src/adnl/node/mod.rs"], [("Node::query_raw, compute_query_timeout", "src/adnl/node/mod.rs")], observe=["how long the caller waits"])

prop("C28", "Concurrent deliveries to one replay window accept each number once",
     "When several receiver threads deliver packets of one peer at the same time, each sequence number is accepted by at most one of them. Concurrent deliveries of different numbers in the window are all accepted.",
     ["schedules"], "all thread interleavings", "Schedules are not controlled by any test.",
     ["src/util/packets_history.rs"], [("lock bit in PacketsHistory", "src/util/packets_history.rs")],
     na="a property of thread interleavings of weak-memory atomics: Kani verifies sequential code only and no permission-based verifier here accepts this code; the sequential part is C06")
prop("C29", "A waiting broadcast receiver is always woken by the next broadcast",
     "A task waiting for a broadcast is woken once one is available, and no broadcast is lost between several waiting tasks.",
     ["schedules"], "all task interleavings", "Schedules are not controlled by any test.",
     ["src/overlay/broadcast_receiver.rs"], [("BroadcastReceiver::pop / push waker queue", "src/overlay/broadcast_receiver.rs")],
     na="a liveness property over task interleavings; function contracts cannot state eventual wake-up")
prop("C30", "An RLDP query on a lossy network completes or fails within its time bound",
     "As long as some packets of each wave get through, an RLDP transfer completes; otherwise the query reports failure within its computed time bound and frees its state.",
     ["fault_sequences", "schedules"], "all loss patterns and timings", "Loss patterns are not simulated by any test.",
     ["src/rldp/transfers_cache.rs"], [("send loop with waves and round-trip estimate, delayed removal of transfers", "src/rldp/transfers_cache.rs")],
     na="liveness over timers and two concurrent tasks; outside per-function contracts")
