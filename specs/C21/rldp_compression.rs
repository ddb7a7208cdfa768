// C21: compressed data decompresses to what was compressed.
fn round_trip<const N: usize>() {
    let data: [u8; N] = kani::any();
    let mut v = data.to_vec();
    assert!(compress(&mut v).is_ok(), "compressing succeeds");
    assert!(v.len() > N && v[v.len() - 1] == TAG_COMPRESSED, "compressed data is tagged");
    match decompress(&v) {
        Some(d) => {
            assert!(d.len() == N, "as long as the original");
            let i: usize = kani::any();
            kani::assume(i < N);
            assert!(d[i] == data[i], "byte for byte the original");
            kani::cover!(true, "round trip");
            std::mem::forget(d);
        }
        None => assert!(false, "it decompresses"),
    }
    std::mem::forget(v);
}
//@ harness unwind=12 kind=bounded bound="data of 257 bytes" fns=compress,decompress : data just above the threshold comes back unchanged
pub fn above_threshold() { round_trip::<257>(); }

//@ harness unwind=12 kind=bounded bound="data of 256 bytes" fns=compress : data up to the threshold is left as it is
pub fn at_threshold() {
    let data: [u8; 256] = kani::any();
    let mut v = data.to_vec();
    assert!(compress(&mut v).is_ok());
    let i: usize = kani::any();
    kani::assume(i < 256);
    assert!(v.len() == 256 && v[i] == data[i], "unchanged");
    kani::cover!(v[255] == TAG_COMPRESSED, "even if it ends like compressed data");
    std::mem::forget(v);
}

//@ harness unwind=12 fns=decompress : bytes without the tag are never taken for compressed data, whatever their length
pub fn untagged() {
    let mut v: Vec<u8> = Vec::with_capacity(2048);
    let n: usize = kani::any();
    kani::assume(n <= 2048);
    unsafe { v.set_len(n); }
    kani::assume(n == 0 || v[n - 1] != TAG_COMPRESSED);
    zstd::stream::spec_any();
    assert!(decompress(&v).is_none() && zstd::stream::spec_calls() == 0, "not compressed");
    kani::cover!(n == 0, "nothing");
    kani::cover!(n == 2048, "much");
    std::mem::forget(v);
}

//@ harness unwind=12 fns=decompress : bytes from the network never make it panic, whatever they decode to; what is returned is
//@ + what was decoded without its length, and only if the length is right
pub fn hostile() {
    let data: [u8; 6] = kani::any();
    zstd::stream::spec_any();
    let r = decompress(&data);
    if let Some(v) = &r { assert!(data[5] == TAG_COMPRESSED && v.len() <= 4092 && zstd::stream::spec_calls() == 1, "only tagged data, decoded once"); }
    kani::cover!(matches!(&r, Some(v) if v.len() == 0), "nothing, compressed");
    kani::cover!(matches!(&r, Some(v) if v.len() == 4092), "much");
    kani::cover!(r.is_none() && data[5] == TAG_COMPRESSED, "refused");
    std::mem::forget(r);
}

//@ harness unwind=8 kind=bounded bound="frame of 6 bytes" fns=decompress : a length that does not match the data is refused
pub fn wrong_length() {
    let (p, l): ([u8; 2], [u8; 4]) = (kani::any(), kani::any());
    let data = [6, 0, 0, 0, p[0], p[1], l[0], l[1], l[2], l[3], TAG_COMPRESSED];
    match decompress(&data) {
        Some(d) => { assert!(l == [0, 0, 0, 2] && d.len() == 2 && d[0] == p[0] && d[1] == p[1], "exactly the data with its length"); kani::cover!(true, "accepted"); std::mem::forget(d); }
        None => { assert!(l != [0, 0, 0, 2], "the right length is accepted"); kani::cover!(true, "refused"); }
    }
}
