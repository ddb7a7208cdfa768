// C22: overlay node records.
use everscale_crypto::{ed25519, tl};
fn words(k: &[u8; 32]) -> [u128; 2] { unsafe { std::mem::transmute(*k) } }
fn same(a: &[u8; 32], b: &[u8; 32]) -> bool { let (a, b) = (words(a), words(b)); (a[0] == b[0]) & (a[1] == b[1]) }
/// What a node signs to take part in an overlay.
fn signed_text(short: &[u8; 32], overlay: &[u8; 32], version: u32) -> [u8; 72] {
    let mut e = [0u8; 72];
    e[..4].copy_from_slice(&u32::to_le_bytes(tl_proto::id!("overlay.node.toSign", scheme = "scheme.tl")));
    e[4..36].copy_from_slice(short);
    e[36..68].copy_from_slice(overlay);
    e[68..].copy_from_slice(&version.to_le_bytes());
    e
}
fn short_of(key: &[u8; 32]) -> [u8; 32] {
    let mut e = [0u8; 36];
    e[..4].copy_from_slice(&0x4813b4c6u32.to_le_bytes());
    e[4..].copy_from_slice(key);
    sha2::spec_sha256(&e)
}

//@ harness unwind=76 fns=IdShort::verify_overlay_node,NodeIdFull::verify,NodeIdFull::compute_short_id,NodeIdFull::try_from : a
//@ + record is accepted exactly when it names this overlay and carries the named node's valid signature of
//@ + exactly that node's id, this overlay and the version
pub fn accepted() {
    let (id, overlay, key, version, signature): ([u8; 32], [u8; 32], [u8; 32], u32, [u8; 64]) = (kani::any(), kani::any(), kani::any(), kani::any(), kani::any());
    let node = proto::overlay::Node { id: tl::PublicKey::Ed25519 { key: &key }, overlay: &overlay, version, signature: &signature };
    let r = IdShort::new(id).verify_overlay_node(&node);
    let text = signed_text(&short_of(&key), &overlay, version);
    if same(&id, &overlay) {
        assert!(ed25519::spec_decisions() == 1, "the signature is checked");
        assert!(ed25519::spec_key_is(0, &key), "the named node's signature");
        assert!(r.is_ok() == ed25519::spec_outcome(0), "accepted exactly when the signature is valid");
        if r.is_ok() { assert!(ed25519::spec_accepted(0, &key, &text, &signature), "signed: this node, this overlay, this version"); }
    } else { assert!(r.is_err(), "a record of another overlay is refused"); }
    kani::cover!(r.is_ok(), "accepted");
    kani::cover!(r.is_err() && same(&id, &overlay), "forged");
    std::mem::forget(r);
}
//@ harness unwind=76 fns=IdShort::verify_overlay_node : a record without a valid signing key, or with a signature of the wrong size, is refused
pub fn malformed() {
    let (id, key, version): ([u8; 32], [u8; 32], u32) = (kani::any(), kani::any(), kani::any());
    let long: [u8; 65] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 65 && n != 64);
    let over = IdShort::new(id);
    let record = |k: tl::PublicKey<'_>, s: &[u8]| { let r = over.verify_overlay_node(&proto::overlay::Node { id: k, overlay: &id, version, signature: s }); let ok = r.is_ok(); std::mem::forget(r); ok };
    assert!(!record(tl::PublicKey::Ed25519 { key: &key }, &long[..n]), "wrong signature size");
    assert!(!record(tl::PublicKey::Aes { key: &key }, &long[..64]), "not a signing key");
    assert!(!record(tl::PublicKey::Overlay { name: &key }, &long[..64]), "not a signing key");
    ed25519::spec_declare_invalid(key);
    assert!(!record(tl::PublicKey::Ed25519 { key: &key }, &long[..64]), "not a valid key");
    kani::cover!(n == 65, "long");
}
