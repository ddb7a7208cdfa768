//! Model of AES-256-CTR: the keystream is an uninterpreted function of (key, iv); applying it is
//! XOR at the current position. No cryptographic strength is modelled or assumed.
use aes::cipher::*;
use generic_array::{GenericArray, typenum::{U16, U32}};
use std::marker::PhantomData;
const WORDS: usize = 24;
pub const STREAM: usize = WORDS * 16;
struct Entry { key: (u128, u128), iv: u128, stream: [u128; WORDS] }
macro_rules! entries { ($($i:literal $n:ident),*) => {
    $( static mut $n: Entry = Entry { key: (0, 0), iv: 0, stream: [0; WORDS] }; )*
    fn entry(i: usize) -> &'static mut Entry { unsafe { match i { $( $i => &mut *core::ptr::addr_of_mut!($n), )* _ => panic!("MODEL-LIMIT: too many ciphers") } } }
} }
entries!(0 E0, 1 E1, 2 E2, 3 E3, 4 E4, 5 E5, 6 E6, 7 E7);
static mut N: usize = 0;
static mut PLAIN: bool = false;
/// Spec-side: the keystream is zero from now on, so that what was encrypted can be read (for
/// properties that do not depend on the cipher, and inputs of any length).
pub fn spec_plain() { unsafe { PLAIN = true } }
fn word(b: &[u8]) -> u128 { let mut w = 0u128; let mut i = 0; while i < 16 { w |= (b[i] as u128) << (8 * i); i += 1; } w }

pub struct CtrModel<C> { e: usize, pos: usize, _c: PhantomData<C> }
pub type Ctr64BE<C> = CtrModel<C>;
pub type Ctr128BE<C> = CtrModel<C>;
pub type Ctr32BE<C> = CtrModel<C>;
impl<C> KeyIvInit for CtrModel<C> {
    fn new(key: &GenericArray<u8, U32>, iv: &GenericArray<u8, U16>) -> Self {
        let k: [u8; 32] = (*key).into();
        let v: [u8; 16] = (*iv).into();
        let k = (word(&k[..16]), word(&k[16..]));
        let v = word(&v);
        let n = unsafe { N };
        let e = entry(n);
        e.key = k;
        e.iv = v;
        e.stream = kani::any();
        let mut i = 0;
        while i < n {
            let o = entry(i);
            if (o.key.0 == k.0) & (o.key.1 == k.1) & (o.iv == v) { e.stream = o.stream; }
            i += 1;
        }
        unsafe { N = n + 1 }
        CtrModel { e: n, pos: 0, _c: PhantomData }
    }
}
impl<C> StreamCipher for CtrModel<C> {
    fn apply_keystream(&mut self, buf: &mut [u8]) {
        if unsafe { PLAIN } { return; }
        let n = buf.len();
        if n > STREAM || self.pos > STREAM - n { panic!("MODEL-LIMIT: keystream longer than the model"); }
        let s = &entry(self.e).stream;
        let mut i = 0;
        while i < n { let p = self.pos + i; buf[i] ^= (s[p / 16] >> (8 * (p % 16))) as u8; i += 1; }
        self.pos += n;
    }
}
impl<C> StreamCipherSeek for CtrModel<C> { fn seek(&mut self, pos: usize) { self.pos = pos; } }
