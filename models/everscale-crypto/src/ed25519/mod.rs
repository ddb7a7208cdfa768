//! Model of Ed25519/X25519. Assumed contract:
//! * a public key is an injective function of the secret key; `from_bytes` accepts any bytes
//!   except those listed as off-curve by `spec_declare_invalid`;
//! * `compute_shared_secret` is an uninterpreted symmetric function of the two public keys;
//! * `verify` is an uninterpreted predicate of (public key, message bytes, signature) that is
//!   true for every signature made by `sign` over the same bytes with the matching secret.
use rand::Rng;

#[derive(Copy, Clone)]
pub struct KeyPair { pub secret_key: ExpandedSecretKey, pub public_key: PublicKey }
impl KeyPair {
    pub fn generate(rng: &mut impl Rng) -> Self { Self::from(&SecretKey::generate(rng)) }
    pub fn sign<T: tl_proto::TlWrite>(&self, data: T) -> [u8; 64] { self.secret_key.sign(data, &self.public_key) }
    pub fn sign_raw(&self, data: &[u8]) -> [u8; 64] { self.secret_key.sign_raw(data, &self.public_key) }
    pub fn compute_shared_secret(&self, other: &PublicKey) -> [u8; 32] { self.secret_key.compute_shared_secret(other) }
}
impl From<ExpandedSecretKey> for KeyPair { fn from(s: ExpandedSecretKey) -> Self { KeyPair { public_key: PublicKey::from(&s), secret_key: s } } }
impl From<&'_ SecretKey> for KeyPair { fn from(s: &SecretKey) -> Self { Self::from(s.expand()) } }

#[derive(Copy, Clone)]
pub struct PublicKey { bytes: [u8; 32] }
static mut INVALID: Option<[u8; 32]> = None;
/// Spec-side: declares one byte string that is not a curve point.
pub fn spec_declare_invalid(b: [u8; 32]) { unsafe { INVALID = Some(b) } }
impl PublicKey {
    pub fn from_bytes(bytes: [u8; 32]) -> Option<Self> {
        let inv = unsafe { INVALID };
        if inv == Some(bytes) { return None; }
        Some(PublicKey { bytes })
    }
    pub fn from_tl(tl: crate::tl::PublicKey<'_>) -> Option<Self> { match tl { crate::tl::PublicKey::Ed25519 { key } => Self::from_bytes(*key), _ => None } }
    pub fn as_tl(&'_ self) -> crate::tl::PublicKey<'_> { crate::tl::PublicKey::Ed25519 { key: &self.bytes } }
    pub fn to_bytes(&self) -> [u8; 32] { self.bytes }
    pub fn as_bytes(&'_ self) -> &'_ [u8; 32] { &self.bytes }
    pub fn verify<T: tl_proto::TlWrite>(&self, message: T, signature: &[u8; 64]) -> bool { let m = tl_bytes(message); verify_model(&self.bytes, &m, signature) }
    pub fn verify_raw(&self, message: &[u8], signature: &[u8; 64]) -> bool { let mut m = Msg::new(); m.put(message); verify_model(&self.bytes, &m, signature) }
}
impl From<&'_ SecretKey> for PublicKey { fn from(s: &SecretKey) -> Self { PublicKey::from(&s.expand()) } }
impl From<&'_ ExpandedSecretKey> for PublicKey { fn from(s: &ExpandedSecretKey) -> Self { PublicKey { bytes: s.public } } }
impl AsRef<[u8; 32]> for PublicKey { fn as_ref(&self) -> &[u8; 32] { &self.bytes } }
impl PartialEq for PublicKey { fn eq(&self, o: &Self) -> bool { self.bytes == o.bytes } }
impl Eq for PublicKey {}
impl std::fmt::Display for PublicKey { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Debug for PublicKey { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

#[derive(Copy, Clone)]
pub struct ExpandedSecretKey { public: [u8; 32] }
impl ExpandedSecretKey {
    pub fn sign<T: tl_proto::TlWrite>(&self, message: T, pk: &PublicKey) -> [u8; 64] { let m = tl_bytes(message); sign_model(&self.public, pk, &m) }
    pub fn sign_raw(&self, message: &[u8], pk: &PublicKey) -> [u8; 64] { let mut m = Msg::new(); m.put(message); sign_model(&self.public, pk, &m) }
    pub fn compute_shared_secret(&self, other: &PublicKey) -> [u8; 32] { shared_model(&self.public, &other.bytes) }
}
impl From<&'_ SecretKey> for ExpandedSecretKey { fn from(s: &SecretKey) -> Self { let mut p = s.0; p[0] ^= 0x5a; p[31] ^= 0xa5; ExpandedSecretKey { public: p } } }

#[derive(Copy, Clone)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
    pub fn from_bytes(b: [u8; 32]) -> Self { SecretKey(b) }
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn generate(_rng: &mut impl Rng) -> Self { SecretKey(kani::any()) }
    pub fn expand(&self) -> ExpandedSecretKey { ExpandedSecretKey::from(self) }
}

// --- uninterpreted functions -------------------------------------------------------------
// Words instead of bytes and one object per table entry: the layout the verifier handles best.
const WORDS: usize = 32;
pub const MSG: usize = WORDS * 16;
#[derive(Clone, Copy)]
pub struct Msg { w: [u128; WORDS], len: usize }
impl Msg {
    pub const fn new() -> Self { Msg { w: [0; WORDS], len: 0 } }
    pub fn put(&mut self, d: &[u8]) {
        let n = d.len();
        if n > MSG || self.len > MSG - n { panic!("MODEL-LIMIT: signed message longer than the model"); }
        let mut i = 0;
        while i < n { let p = self.len + i; self.w[p / 16] |= (d[i] as u128) << (8 * (p % 16)); i += 1; }
        self.len += n;
    }
    fn same(&self, o: &Msg) -> bool {
        let mut r = self.len == o.len;
        let top = if self.len < o.len { self.len } else { o.len };
        let mut j = 0;
        while j * 16 < top { r &= self.w[j] == o.w[j]; j += 1; }
        r
    }
}
struct W<'a>(&'a mut Msg);
impl tl_proto::TlPacket for W<'_> {
    const TARGET: tl_proto::TlTarget = tl_proto::TlTarget::Hasher;
    fn write_u32(&mut self, d: u32) { self.0.put(&d.to_le_bytes()) }
    fn write_i32(&mut self, d: i32) { self.0.put(&d.to_le_bytes()) }
    fn write_u64(&mut self, d: u64) { self.0.put(&d.to_le_bytes()) }
    fn write_i64(&mut self, d: i64) { self.0.put(&d.to_le_bytes()) }
    fn write_raw_slice(&mut self, d: &[u8]) { self.0.put(d) }
}
fn tl_bytes<T: tl_proto::TlWrite>(m: T) -> Msg { let mut r = Msg::new(); m.write_to(&mut W(&mut r)); r }

type K = (u128, u128);
fn word(b: &[u8]) -> u128 { let mut w = 0u128; let mut i = 0; while i < 16 { w |= (b[i] as u128) << (8 * i); i += 1; } w }
fn key(b: &[u8; 32]) -> K { (word(&b[..16]), word(&b[16..])) }
fn sig(b: &[u8; 64]) -> (K, K) { ((word(&b[..16]), word(&b[16..32])), (word(&b[32..48]), word(&b[48..]))) }
fn keq(a: K, b: K) -> bool { (a.0 == b.0) & (a.1 == b.1) }

/// One signature decision: `ok` is the value of the predicate at (key, msg, sig).
struct Decision { key: K, msg: Msg, sig: (K, K), ok: bool }
macro_rules! decisions { ($($i:literal $n:ident),*) => {
    $( static mut $n: Decision = Decision { key: (0, 0), msg: Msg::new(), sig: ((0, 0), (0, 0)), ok: false }; )*
    fn decision(i: usize) -> &'static mut Decision { unsafe { match i { $( $i => &mut *core::ptr::addr_of_mut!($n), )* _ => panic!("MODEL-LIMIT: too many signature operations") } } }
} }
decisions!(0 D0, 1 D1, 2 D2, 3 D3, 4 D4, 5 D5, 6 D6, 7 D7);
static mut DN: usize = 0;
fn decide(k: K, m: &Msg, s: (K, K), fresh: bool) -> bool {
    let n = unsafe { DN };
    let mut ok = fresh;
    let mut i = 0;
    while i < n {
        let d = decision(i);
        if keq(d.key, k) & keq(d.sig.0, s.0) & keq(d.sig.1, s.1) & d.msg.same(m) { ok = d.ok; }
        i += 1;
    }
    let d = decision(n);
    d.key = k; d.msg = *m; d.sig = s; d.ok = ok;
    unsafe { DN = n + 1 }
    ok
}
fn verify_model(k: &[u8; 32], m: &Msg, s: &[u8; 64]) -> bool { decide(key(k), m, sig(s), kani::any()) }
fn sign_model(public: &[u8; 32], pk: &PublicKey, m: &Msg) -> [u8; 64] {
    let s: [u8; 64] = kani::any();
    let (p, q) = (key(public), key(&pk.bytes));
    if keq(p, q) { let ok = decide(p, m, sig(&s), true); kani::assume(ok); }
    s
}
/// Spec-side: the number of signature decisions taken so far.
pub fn spec_decisions() -> usize { unsafe { DN } }
/// Spec-side: was decision `i` about this key, these message bytes and this signature, and positive?
pub fn spec_accepted(i: usize, k: &[u8; 32], msg: &[u8], s: &[u8; 64]) -> bool {
    let d = decision(i);
    let mut m = Msg::new();
    m.put(msg);
    let g = sig(s);
    d.ok & keq(d.key, key(k)) & keq(d.sig.0, g.0) & keq(d.sig.1, g.1) & d.msg.same(&m)
}
/// Spec-side: the outcome of decision `i`.
pub fn spec_outcome(i: usize) -> bool { decision(i).ok }
/// Spec-side: decision `i` concerned this key.
pub fn spec_key_is(i: usize, k: &[u8; 32]) -> bool { keq(decision(i).key, key(k)) }
/// Spec-side: value of the predicate at a TL-serialised message (same function `verify` uses).
pub fn spec_verify<T: tl_proto::TlWrite>(k: &[u8; 32], message: T, s: &[u8; 64]) -> bool { let m = tl_bytes(message); verify_model(k, &m, s) }

struct Dh { a: K, b: K, r: K }
macro_rules! dhs { ($($i:literal $n:ident),*) => {
    $( static mut $n: Dh = Dh { a: (0, 0), b: (0, 0), r: (0, 0) }; )*
    fn dh(i: usize) -> &'static mut Dh { unsafe { match i { $( $i => &mut *core::ptr::addr_of_mut!($n), )* _ => panic!("MODEL-LIMIT: too many shared secrets") } } }
} }
dhs!(0 H0, 1 H1, 2 H2, 3 H3, 4 H4, 5 H5, 6 H6, 7 H7);
static mut HN: usize = 0;
fn shared_model(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let (a, b) = (key(a), key(b));
    let n = unsafe { HN };
    let mut r: K = (kani::any(), kani::any());
    let mut i = 0;
    while i < n {
        let d = dh(i);
        if (keq(d.a, a) & keq(d.b, b)) | (keq(d.a, b) & keq(d.b, a)) { r = d.r; }
        i += 1;
    }
    let d = dh(n);
    d.a = a; d.b = b; d.r = r;
    unsafe { HN = n + 1 }
    let mut out = [0; 32];
    out[..16].copy_from_slice(&r.0.to_le_bytes());
    out[16..].copy_from_slice(&r.1.to_le_bytes());
    out
}
