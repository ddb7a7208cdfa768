//! Model of `aes`: only the type names and the cipher traits; the keystream model is in `ctr`.
pub struct Aes256;
pub struct Aes128;
pub mod cipher {
    pub use generic_array;
    use generic_array::{GenericArray, typenum::{U16, U32}};
    pub trait KeyIvInit: Sized { fn new(key: &GenericArray<u8, U32>, iv: &GenericArray<u8, U16>) -> Self; }
    pub trait StreamCipher { fn apply_keystream(&mut self, buf: &mut [u8]); }
    pub trait StreamCipherSeek { fn seek(&mut self, pos: usize); }
}
