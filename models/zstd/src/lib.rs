//! Model of `zstd`: frames with the contract `decode_all(encode(a) ++ encode(b)) == a ++ b`;
//! anything that is not a concatenation of whole frames fails to decode.
//! Frame of `d` = len(d) as 4 LE bytes, then `d`.
pub mod stream {
    use std::io::{self, Read, Write};
    pub fn copy_encode<R: Read, W: Write>(mut src: R, mut dst: W, _level: i32) -> io::Result<()> {
        let mut d = Vec::new(); src.read_to_end(&mut d)?;
        dst.write_all(&(d.len() as u32).to_le_bytes())?; dst.write_all(&d)
    }
    pub fn encode_all<R: Read>(src: R, level: i32) -> io::Result<Vec<u8>> { let mut v = Vec::new(); copy_encode(src, &mut v, level)?; Ok(v) }
    static mut ANY: usize = 0;
    static mut CALLS: usize = 0;
    /// Spec-side: input from the network. Decoding fails or yields anything (up to 4096 bytes).
    pub fn spec_any() { unsafe { ANY = 1 } }
    pub fn spec_calls() -> usize { unsafe { CALLS } }
    pub fn decode_all<R: Read>(src: R) -> io::Result<Vec<u8>> {
        unsafe { CALLS += 1; }
        if unsafe { ANY } != 0 { anything() } else { frames(src) }
    }
    fn anything() -> io::Result<Vec<u8>> {
        if kani::any() { return Err(io::ErrorKind::InvalidData.into()); }
        let mut v: Vec<u8> = Vec::with_capacity(4096); let n: usize = kani::any(); kani::assume(n <= 4096); unsafe { v.set_len(n) }
        Ok(v)
    }
    fn frames<R: Read>(mut src: R) -> io::Result<Vec<u8>> {
        let mut d = Vec::with_capacity(1024); src.read_to_end(&mut d)?;
        let mut out = Vec::with_capacity(1024); let mut p = 0;
        while p < d.len() {
            if d.len() - p < 4 { return Err(io::ErrorKind::InvalidData.into()); }
            let n = u32::from_le_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]]) as usize; p += 4;
            if d.len() - p < n { return Err(io::ErrorKind::InvalidData.into()); }
            out.extend_from_slice(&d[p..p + n]); p += n;
        }
        Ok(out)
    }
    pub fn copy_decode<R: Read, W: Write>(src: R, mut dst: W) -> io::Result<()> { dst.write_all(&decode_all(src)?) }
}
pub use stream::{decode_all, encode_all};
