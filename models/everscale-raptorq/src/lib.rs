//! Model of `everscale-raptorq`. Assumed contract: `decode` may answer `None` at any packet; once it
//! answers `Some(data)` the data has exactly the declared transfer length; nothing else is assumed
//! about its bytes, except where a harness fixes them with `spec_set_result`.
#[derive(Clone, Copy)]
pub struct ObjectTransmissionInformation { pub len: u64, pub mtu: u16 }
impl ObjectTransmissionInformation {
    /// Defined for 1..=255 blocks of at most 56403 symbols of at least 64 bytes each.
    pub fn with_defaults(len: u64, mtu: u16) -> Self {
        assert!(mtu >= 64, "raptorq: symbol too small to be divided into sub-symbols");
        let symbol = (mtu - mtu % 8) as u64;
        assert!(len >= 1 && len <= 255 * 56403 * symbol, "raptorq: no code of this length");
        Self { len, mtu: symbol as u16 }
    }
    pub fn transfer_length(&self) -> u64 { self.len }
    pub fn symbol_size(&self) -> u16 { self.mtu }
}
#[derive(Clone, Copy)]
pub struct PayloadId { s: u8, e: u32 }
impl PayloadId { pub fn new(s: u8, e: u32) -> Self { assert!(e < 16777216, "raptorq: encoding symbol id must be a 24-bit unsigned int"); PayloadId { s, e } } pub fn source_block_number(&self) -> u8 { self.s } pub fn encoding_symbol_id(&self) -> u32 { self.e } }
#[derive(Clone)]
pub struct EncodingPacket { id: PayloadId, data: Vec<u8> }
impl EncodingPacket { pub fn new(id: PayloadId, data: Vec<u8>) -> Self { EncodingPacket { id, data } } pub fn split(self) -> (PayloadId, Vec<u8>) { (self.id, self.data) } pub fn payload_id(&self) -> &PayloadId { &self.id } pub fn data(&self) -> &[u8] { &self.data } }
static mut RESULT: Option<Vec<u8>> = None;
/// Spec-side: the bytes the next successful decode yields.
pub fn spec_set_result(v: Vec<u8>) { unsafe { RESULT = Some(v) } }
pub struct Decoder { cfg: ObjectTransmissionInformation }
impl Decoder {
    /// Spec-side: the code the decoder was made for.
    pub fn spec_config(&self) -> ObjectTransmissionInformation { self.cfg }
    pub fn new(cfg: ObjectTransmissionInformation) -> Self { Decoder { cfg } }
    pub fn decode(&mut self, p: EncodingPacket) -> Option<Vec<u8>> {
        assert!(p.data.len() == self.cfg.mtu as usize, "raptorq: packet of another size than the symbol");
        assert!(p.id.e <= 0xff_ffff - 56403, "raptorq: symbol id above 24 bits once padding symbols are counted");
        let one_block = self.cfg.len <= 56403 * self.cfg.mtu as u64;
        if !one_block || kani::any() { return None; }
        let r = unsafe { (*core::ptr::addr_of_mut!(RESULT)).take() };
        match r {
            Some(v) => { kani::assume(v.len() as u64 == self.cfg.len); Some(v) }
            None => {
                const M: usize = 8;
                if self.cfg.len > M as u64 { return None; }
                let mut v = Vec::with_capacity(M); let mut i = 0u64;
                while i < M as u64 { if i < self.cfg.len { v.push(kani::any()); } i += 1; }
                Some(v)
            }
        }
    }
}
static mut SYMBOL: usize = 0;
/// Spec-side: let the encoder cut its data into packets of this size.
pub fn spec_symbol(n: usize) { unsafe { SYMBOL = n } }
pub struct SourceBlockEncoder { src: *const u8, len: usize, size: usize, count: u32 }
unsafe impl Send for SourceBlockEncoder {} unsafe impl Sync for SourceBlockEncoder {}
impl SourceBlockEncoder {
    pub fn source_packets(&self) -> Vec<EncodingPacket> {
        let mut v = Vec::with_capacity(self.count as usize); let mut i = 0;
        while i < self.count { let p = i as usize * self.size; let l = core::cmp::min(self.size, self.len - p); v.push(EncodingPacket::new(PayloadId::new(0, i), unsafe { core::slice::from_raw_parts(self.src.add(p), l) }.to_vec())); i += 1; }
        v
    }
    /// Defined for numbers of repair packets only: what a lower number yields is not the packet it names.
    pub fn repair_packets(&self, start: u32, n: u32) -> Vec<EncodingPacket> {
        assert!(start >= self.count, "raptorq: a repair packet under the number of a source packet");
        assert!(start <= 0xff_ffff - 56403 && n == 1, "raptorq: symbol id above 24 bits once padding symbols are counted");
        vec![EncodingPacket::new(PayloadId::new(0, start), vec![0])]
    }
}
pub struct Encoder { cfg: ObjectTransmissionInformation, blocks: Vec<SourceBlockEncoder> }
impl Encoder {
    pub fn with_defaults(data: &[u8], mtu: u16) -> Self {
        let size = if unsafe { SYMBOL } != 0 { unsafe { SYMBOL } } else { mtu as usize };
        let count = ((data.len() + size - 1) / size) as u32;
        Encoder { cfg: ObjectTransmissionInformation::with_defaults(data.len() as u64, mtu), blocks: vec![SourceBlockEncoder { src: data.as_ptr(), len: data.len(), size, count }] }
    }
    /// Spec-side: an encoder of one block of `count` source packets, which are not looked at.
    pub fn spec_new(count: u32) -> Self { Encoder { cfg: ObjectTransmissionInformation { len: 1, mtu: 768 }, blocks: vec![SourceBlockEncoder { src: core::ptr::null(), len: 0, size: 1, count }] } }
    pub fn get_config(&self) -> ObjectTransmissionInformation { self.cfg }
    pub fn get_block_encoders(&self) -> &Vec<SourceBlockEncoder> { &self.blocks }
}
