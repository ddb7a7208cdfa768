// C25: overlay identifiers.
fn words(k: &[u8; 32]) -> [u128; 2] { unsafe { std::mem::transmute(*k) } }
fn same(a: &[u8; 32], b: &[u8; 32]) -> bool { let (a, b) = (words(a), words(b)); (a[0] == b[0]) & (a[1] == b[1]) }

//@ harness unwind=52 fns=IdFull::for_workchain_overlay : a full overlay id is the hash of exactly the workchain, the
//@ + whole-chain shard prefix and the zero state file hash
pub fn workchain() {
    let (wc, zs): (i32, [u8; 32]) = (kani::any(), kani::any());
    let mut e = [0u8; 48];
    e[..4].copy_from_slice(&0x4d9ed329u32.to_le_bytes()); // tonNode.shardPublicOverlayId
    e[4..8].copy_from_slice(&wc.to_le_bytes());
    e[8..16].copy_from_slice(&(1u64 << 63).to_le_bytes());
    e[16..].copy_from_slice(&zs);
    let id = IdFull::for_workchain_overlay(wc, &zs);
    assert!(same(id.as_slice(), &sha2::spec_sha256(&e)), "hash of workchain, shard and zero state");
    kani::cover!(wc == -1, "masterchain");
}
//@ harness unwind=52 fns=IdFull::for_workchain_overlay,IdFull::compute_short_id : different workchains or zero states have different ids
pub fn injective() {
    let (w1, z1, w2, z2): (i32, [u8; 32], i32, [u8; 32]) = (kani::any(), kani::any(), kani::any(), kani::any());
    let (a, b) = (IdFull::for_workchain_overlay(w1, &z1).compute_short_id(), IdFull::for_workchain_overlay(w2, &z2).compute_short_id());
    assert!(same(a.as_slice(), b.as_slice()) == (w1 == w2 && same(&z1, &z2)), "one id per overlay");
    kani::cover!(w1 != w2, "other");
}
//@ harness unwind=52 fns=IdFull::compute_short_id : an overlay's short id is the hash of the encoding of its full id
pub fn short_id() {
    let raw: [u8; 32] = kani::any();
    let mut e = [0u8; 40];
    e[..4].copy_from_slice(&0x34ba45cbu32.to_le_bytes()); // pub.overlay
    e[4] = 32;
    e[5..37].copy_from_slice(&raw);
    let id = IdFull(raw).compute_short_id();
    assert!(same(id.as_slice(), &sha2::spec_sha256(&e)), "hash of the encoded full id");
    kani::cover!(true, "id");
}
//@ harness unwind=110 kind=bounded bound="two nodes" fns=IdFull::for_catchain_overlay : a catchain overlay id is the hash of the catchain hash and its nodes, in order
pub fn catchain() {
    let (u, a, b): ([u8; 32], [u8; 32], [u8; 32]) = (kani::any(), kani::any(), kani::any());
    let mut e = [0u8; 104];
    e[..4].copy_from_slice(&u32::to_le_bytes(tl_proto::id!("catchain.firstblock", scheme = "scheme.tl")));
    e[4..36].copy_from_slice(&u);
    e[36] = 2;
    e[40..72].copy_from_slice(&a);
    e[72..104].copy_from_slice(&b);
    let id = IdFull::for_catchain_overlay(&u, [&a, &b].into_iter());
    assert!(same(id.as_slice(), &sha2::spec_sha256(&e)), "hash of the catchain and its nodes");
    kani::cover!(true, "id");
}
//@ harness unwind=40 fns=IdShort::new,IdShort::as_slice,IdShort::from : a short overlay id is exactly its bytes
pub fn bytes() {
    let raw: [u8; 32] = kani::any();
    let id = IdShort::new(raw);
    assert!(same(id.as_slice(), &raw) && same(&<[u8; 32]>::from(id), &raw) && same(&<[u8; 32]>::from(&id), &raw) && same(IdShort::from(raw).as_slice(), &raw), "the same bytes");
    let other: [u8; 32] = kani::any();
    assert!((id == IdShort::new(other)) == same(&raw, &other) && (id == other) == same(&raw, &other) && (id == other[..]) == same(&raw, &other), "equal exactly when the bytes are");
    kani::cover!(id == other, "equal");
}
