/// Any signature record a parsed packet can carry.
pub fn any_signature() -> PacketContentsSignature { PacketContentsSignature { signature: kani::any(), flags_offset: kani::any(), signature_start: kani::any(), signature_end: kani::any() } }
