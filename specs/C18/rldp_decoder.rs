// C18 (decoder): no parameters and no packet from the network make the code undefined.
use super::super::encoder::{MAX_SEQNO, MAX_SOURCE_SYMBOLS};

pub(crate) fn any_params() -> RaptorQFecType { RaptorQFecType { total_len: kani::any(), packet_len: kani::any(), packet_count: kani::any() } }
/// A decoder for any code there is.
pub(crate) fn any_decoder(params: RaptorQFecType) -> RaptorQDecoder {
    match RaptorQDecoder::with_params(params) { Some(d) => d, None => { kani::assume(false); loop {} } }
}
/// Bytes of any length up to `n`, of which nothing but the length is known.
pub(crate) fn any_len(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    let l: usize = kani::any();
    kani::assume(l <= n);
    unsafe { v.set_len(l) };
    v
}

//@ harness unwind=2 fns=RaptorQDecoder::with_params : a decoder is made only for parameters RaptorQ is defined for,
//@ + whatever the remote peer announces, and it is made for exactly these
pub fn parameters() {
    let p = any_params();
    match RaptorQDecoder::with_params(p) {
        Some(d) => {
            assert!(d.params() == &p, "the decoder is for the announced parameters");
            let c = d.engine.spec_config();
            assert!(c.transfer_length() == p.total_len as u64, "the whole announced length is decoded");
            kani::cover!(p.packet_len == 768 && p.total_len == 2_000_000, "usual parameters");
            std::mem::forget(d);
        }
        None => assert!(!(p.packet_len == 768 && p.total_len >= 1 && p.total_len <= 2_000_000), "what this library sends is accepted"),
    }
    kani::cover!(p.packet_len == 0, "hostile parameters");
}

//@ harness unwind=12 fns=RaptorQDecoder::decode : for all codes, sequence numbers and packet sizes, decoding is defined,
//@ + and a decoded block has exactly the announced length
pub fn packets() {
    let p = any_params();
    kani::assume(p.total_len <= 8);
    let mut d = any_decoder(p);
    let data = any_len(66000);
    let (n, seqno): (usize, u32) = (data.len(), kani::any());
    let r = d.decode(seqno, data);
    if let Some(v) = &r {
        assert!(v.len() == p.total_len as usize, "a decoded block has the announced length");
        assert!(d.seqno() == seqno, "the sequence number is remembered");
        kani::cover!(n == 64, "decoded");
    }
    kani::cover!(r.is_none() && n == 0 && seqno == u32::MAX, "nonsense is ignored");
    std::mem::forget((d, r));
}
