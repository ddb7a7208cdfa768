// C14: DHT distance and buckets.

/// Length of the common prefix, from the two keys read as one big-endian number.
fn prefix(a: &[u8; 32], b: &[u8; 32]) -> u32 {
    let w = |k: &[u8; 32]| -> [u128; 2] { unsafe { std::mem::transmute(*k) } };
    let (x, y) = (w(a), w(b));
    let (hi, lo) = (u128::from_be(x[0] ^ y[0]), u128::from_be(x[1] ^ y[1]));
    if hi != 0 { hi.leading_zeros() } else { 128 + lo.leading_zeros() }
}
//@ harness unwind=34 fns=get_affinity : the affinity of any two keys is the length of their common prefix (at most 255), and symmetric
pub fn affinity() {
    let (a, b): ([u8; 32], [u8; 32]) = (kani::any(), kani::any());
    let p = prefix(&a, &b);
    let r = get_affinity(&a, &b);
    assert!(r as u32 == if p < 255 { p } else { 255 }, "length of the common prefix");
    assert!(get_affinity(&b, &a) == r, "symmetric");
    kani::cover!(p == 256, "equal"); kani::cover!(p == 0, "far"); kani::cover!(p == 200, "near");
}
