//! Model of `sha2`: SHA-256 as an uninterpreted, collision-free function of the absorbed byte
//! string (equal inputs give equal outputs, different inputs give different outputs; the output
//! values themselves are arbitrary).
//!
//! Inputs are packed into 128-bit words and compared without branches, and every table entry is an
//! object of its own: that is the layout the verifier handles best.
pub use digest::{self, Digest};
use digest::{consts::U32, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

pub const WORDS: usize = 24;
pub const CAP: usize = WORDS * 16;

#[derive(Clone, Copy)]
pub struct Absorb { pub w: [u128; WORDS], pub len: usize }
impl Absorb {
    pub const fn new() -> Self { Absorb { w: [0; WORDS], len: 0 } }
    /// Bits past `len` stay zero.
    pub fn push(&mut self, data: &[u8]) {
        if unsafe { OPAQUE } { return; }
        let n = data.len();
        if n > CAP || self.len > CAP - n { panic!("MODEL-LIMIT: hash input longer than the model buffer"); }
        let mut i = 0;
        while i < n { let p = self.len + i; self.w[p / 16] |= (data[i] as u128) << (8 * (p % 16)); i += 1; }
        self.len += n;
    }
    pub fn same(&self, o: &Absorb) -> bool {
        let mut r = self.len == o.len;
        let top = if self.len < o.len { self.len } else { o.len };
        let mut j = 0;
        while j * 16 < top { r &= self.w[j] == o.w[j]; j += 1; }
        r
    }
}

struct Entry { input: Absorb, out: (u128, u128) }
macro_rules! entries { ($($i:literal $n:ident),*) => {
    $( static mut $n: Entry = Entry { input: Absorb::new(), out: (0, 0) }; )*
    fn entry(i: usize) -> &'static mut Entry { unsafe { match i { $( $i => &mut *core::ptr::addr_of_mut!($n), )* _ => panic!("MODEL-LIMIT: too many hash evaluations") } } }
} }
entries!(0 E0, 1 E1, 2 E2, 3 E3, 4 E4, 5 E5, 6 E6, 7 E7, 8 E8, 9 E9, 10 E10, 11 E11, 12 E12, 13 E13, 14 E14, 15 E15);
static mut N: usize = 0;

static mut OPAQUE: bool = false;
/// Spec-side: from now on every digest is an arbitrary value (a weaker assumption, for inputs of any length).
pub fn spec_opaque() { unsafe { OPAQUE = true } }

fn eval(a: &Absorb) -> [u8; 32] {
    if unsafe { OPAQUE } { return kani::any(); }
    let n = unsafe { N };
    let out: (u128, u128) = (kani::any(), kani::any());
    let mut i = 0;
    while i < n {
        let e = entry(i);
        let same = e.input.same(a);
        let eq = (e.out.0 == out.0) & (e.out.1 == out.1);
        kani::assume(same == eq);
        i += 1;
    }
    let e = entry(n);
    e.input = *a;
    e.out = out;
    unsafe { N = n + 1 }
    let mut r = [0; 32];
    r[..16].copy_from_slice(&out.0.to_le_bytes());
    r[16..].copy_from_slice(&out.1.to_le_bytes());
    r
}

/// Spec-side evaluation of the same function.
pub fn spec_sha256(data: &[u8]) -> [u8; 32] { let mut a = Absorb::new(); a.push(data); eval(&a) }

#[derive(Clone)]
pub struct Sha256 { a: Absorb }
impl Default for Sha256 { fn default() -> Self { Self { a: Absorb::new() } } }
impl HashMarker for Sha256 {}
impl OutputSizeUser for Sha256 { type OutputSize = U32; }
impl Update for Sha256 { fn update(&mut self, data: &[u8]) { self.a.push(data) } }
impl FixedOutput for Sha256 { fn finalize_into(self, out: &mut Output<Self>) {
    let r: [u8; 32] = eval(&self.a);
    out.copy_from_slice(&r);
}
    fn finalize_fixed(self) -> Output<Self> { Output::<Self>::from(eval(&self.a)) }
}
impl Reset for Sha256 { fn reset(&mut self) { self.a = Absorb::new(); } }
impl FixedOutputReset for Sha256 { fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
    let r: [u8; 32] = eval(&self.a);
    out.copy_from_slice(&r);
    self.a = Absorb::new();
} }
