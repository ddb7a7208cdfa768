// C25: node identifiers.
fn key() -> ed25519::PublicKey { ed25519::PublicKey::from_bytes(kani::any()).unwrap() }
fn words(k: &[u8; 32]) -> [u128; 2] { unsafe { std::mem::transmute(*k) } }
fn same(a: &[u8; 32], b: &[u8; 32]) -> bool { let (a, b) = (words(a), words(b)); (a[0] == b[0]) & (a[1] == b[1]) }

//@ harness unwind=40 fns=NodeIdFull::compute_short_id,NodeIdFull::as_tl,NodeIdFull::new,NodeIdFull::public_key : a node's
//@ + short id is the hash of the encoding of its public key
pub fn short_id() {
    let k = key();
    let full = NodeIdFull::new(k);
    let id = full.compute_short_id();
    let mut e = [0u8; 36];
    e[0] = 0xc6; e[1] = 0xb4; e[2] = 0x13; e[3] = 0x48; // pub.ed25519
    e[4..36].copy_from_slice(k.as_bytes());
    assert!(same(id.as_slice(), &sha2::spec_sha256(&e)), "hash of the encoded key");
    assert!(same(full.public_key().as_bytes(), k.as_bytes()), "the full id is the key");
    kani::cover!(true, "id");
}
//@ harness unwind=40 fns=NodeIdFull::compute_short_id : different keys have different short ids
pub fn injective() {
    let (a, b) = (key(), key());
    let (x, y) = (NodeIdFull::new(a).compute_short_id(), NodeIdFull::new(b).compute_short_id());
    assert!(same(x.as_slice(), y.as_slice()) == same(a.as_bytes(), b.as_bytes()), "one id per key");
    kani::cover!(same(a.as_bytes(), b.as_bytes()), "same"); kani::cover!(!same(a.as_bytes(), b.as_bytes()), "other");
}
//@ harness unwind=40 fns=NodeIdFull::try_from,NodeIdFull::as_tl,NodeIdFull::from : the wire form of a full id gives it back
pub fn wire() {
    let k = key();
    let full = NodeIdFull::from(k);
    match NodeIdFull::try_from(full.as_tl()) {
        Ok(back) => assert!(same(back.public_key().as_bytes(), k.as_bytes()), "the same id"),
        Err(_) => assert!(false, "a valid id is accepted"),
    }
    let raw: [u8; 32] = kani::any();
    assert!(matches!(NodeIdFull::try_from(tl::PublicKey::Aes { key: &raw }), Err(NodeIdFullError::UnsupportedPublicKey)), "only signing keys are node ids");
    assert!(matches!(NodeIdFull::try_from(tl::PublicKey::Overlay { name: &raw }), Err(NodeIdFullError::UnsupportedPublicKey)), "only signing keys are node ids");
    assert!(matches!(NodeIdFull::try_from(tl::PublicKey::Unencoded { data: &raw }), Err(NodeIdFullError::UnsupportedPublicKey)), "only signing keys are node ids");
    ed25519::spec_declare_invalid(raw);
    assert!(matches!(NodeIdFull::try_from(tl::PublicKey::Ed25519 { key: &raw }), Err(NodeIdFullError::InvalidPublicKey)), "an invalid key is no id");
    kani::cover!(true, "wire");
}
//@ harness unwind=40 fns=NodeIdShort::new,NodeIdShort::as_slice,NodeIdShort::from,NodeIdShort::is_zero : a short id is exactly its bytes
pub fn bytes() {
    let raw: [u8; 32] = kani::any();
    let id = NodeIdShort::new(raw);
    assert!(same(id.as_slice(), &raw) && same(&<[u8; 32]>::from(id), &raw) && same(&<[u8; 32]>::from(&id), &raw) && same(NodeIdShort::from(raw).as_slice(), &raw), "the same bytes");
    let b: &[u8; 32] = id.borrow();
    assert!(same(b, &raw), "the same bytes");
    let other: [u8; 32] = kani::any();
    assert!((id == NodeIdShort::new(other)) == same(&raw, &other) && (id == other) == same(&raw, &other) && (id == other[..]) == same(&raw, &other), "equal exactly when the bytes are");
    assert!(id.is_zero() == same(&raw, &[0; 32]), "zero id");
    kani::cover!(id.is_zero(), "zero");
}
//@ harness unwind=70 fns=NodeIdShort::fmt : the text form of a short id is its bytes in hex
pub fn text() {
    let raw: [u8; 32] = kani::any();
    let i: usize = kani::any();
    kani::assume(i < 32);
    let mut s = Text([0; 64], 0);
    use std::fmt::Write;
    assert!(write!(s, "{}", NodeIdShort::new(raw)).is_ok(), "has a text form");
    let digit = |n: u8| if n < 10 { b'0' + n } else { b'a' + n - 10 };
    assert!(s.1 == 64 && s.0[2 * i] == digit(raw[i] >> 4) && s.0[2 * i + 1] == digit(raw[i] & 15), "two digits a byte, in order");
    kani::cover!(i == 31, "last");
}
struct Text([u8; 64], usize);
impl std::fmt::Write for Text { fn write_str(&mut self, s: &str) -> std::fmt::Result { let n = s.len(); if self.1 != 0 || n != 64 { return Err(std::fmt::Error); } self.0.copy_from_slice(s.as_bytes()); self.1 = 64; Ok(()) } }
