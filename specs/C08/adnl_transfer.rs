// C08 (receiving side): a transfer yields exactly the announced message or nothing.

/// A transfer in any state, known at no part.
fn any_transfer() -> Transfer {
    let t = Transfer::new(kani::any());
    kani::assume(t.total_len <= u32::MAX as usize);
    let r: usize = kani::any();
    kani::assume(r <= 1 << 40);
    t.received_len.store(r, Ordering::Relaxed);
    t
}
/// A part of any size a datagram can carry.
fn any_part() -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(2048);
    let n: usize = kani::any();
    kani::assume(n <= 2048);
    unsafe { v.set_len(n) };
    v
}

//@ harness unwind=9 counts=real fns=Transfer::add_part : in any state, a second part at an offset changes nothing
pub fn repeated_part() {
    let t = any_transfer();
    let (o, old): (usize, [u8; 3]) = (kani::any(), kani::any());
    t.parts.insert(o, old.to_vec());
    t.parts.spec_partial();
    let before = t.received_len.load(Ordering::Relaxed);
    let r = t.add_part(o, any_part(), &kani::any());
    assert!(matches!(r, Ok(None)), "a repeated part is ignored");
    assert!(t.received_len.load(Ordering::Relaxed) == before, "a repeated part is not counted");
    let kept = t.parts.get(&o).unwrap();
    assert!(kept.len() == 3 && kept[0] == old[0] && kept[1] == old[1] && kept[2] == old[2], "the part already stored is kept");
    kani::cover!(before + 3 > t.total_len, "late repetition");
    std::mem::forget(kept); std::mem::forget(t);
}

//@ harness unwind=9 counts=real fns=Transfer::add_part : in any state, a part that does not complete the transfer
//@ + is stored and counted, and one that exceeds the announced size is an error
pub fn new_part() {
    let t = any_transfer();
    let o: usize = kani::any();
    t.parts.spec_absent(o);
    t.parts.spec_partial();
    let before = t.received_len.load(Ordering::Relaxed);
    let data = any_part();
    let n = data.len();
    kani::assume(n > 0 && before + n != t.total_len);
    let r = t.add_part(o, data, &kani::any());
    if before + n > t.total_len { assert!(matches!(r, Err(TransferError::ReceivedTooMuch)), "more than announced is an error"); }
    else {
        assert!(matches!(r, Ok(None)), "the transfer waits for the rest");
        assert!(t.received_len.load(Ordering::Relaxed) == before + n, "the part is counted once");
        assert!(t.parts.get(&o).unwrap().len() == n, "the part is stored");
    }
    kani::cover!(before + n > t.total_len, "too much");
    kani::cover!(before + n < t.total_len && n == 2048, "waits");
    std::mem::forget((t, r));
}

//@ harness unwind=9 counts=real fns=Transfer::add_part : an empty part never blocks or completes a non-empty transfer
pub fn empty_part() {
    let t = any_transfer();
    let o: usize = kani::any();
    kani::assume(t.total_len > 0);
    let before = t.received_len.load(Ordering::Relaxed);
    kani::assume(before + 1 < t.total_len);
    let r = t.add_part(o, Vec::new(), &kani::any());
    assert!(matches!(r, Ok(None)), "nothing is delivered");
    assert!(t.received_len.load(Ordering::Relaxed) == before, "nothing is counted");
    let r = t.add_part(o, any_part1(), &kani::any());
    assert!(matches!(r, Ok(None)) && t.received_len.load(Ordering::Relaxed) == before + 1, "the real part can still arrive");
    assert!(t.parts.get(&o).unwrap().len() == 1, "the real part is stored");
    kani::cover!(true, "real part");
    std::mem::forget((t, r));
}
fn any_part1() -> Vec<u8> { let b: [u8; 1] = kani::any(); b.to_vec() }

/// Message of 5 bytes in parts of 2, 1 and 2 bytes, delivered in the given order.
fn reassembled(order: [usize; 4]) {
    let m: [u8; 5] = kani::any();
    let id = sha2::spec_sha256(&m);
    let t = Transfer::new(5);
    let mut seen = [false; 3];
    let mut i = 0;
    while i < 4 {
        let k = order[i];
        let (o, part): (usize, Vec<u8>) = match k { 0 => (0, m[0..2].to_vec()), 1 => (2, m[2..3].to_vec()), _ => (3, m[3..5].to_vec()) };
        let fresh = !seen[k];
        seen[k] = true;
        let last = fresh && seen[0] && seen[1] && seen[2];
        match t.add_part(o, part, &id) {
            Ok(Some(b)) => { assert!(last, "delivered when complete"); assert!(b.len() == 5 && b[0] == m[0] && b[1] == m[1] && b[2] == m[2] && b[3] == m[3] && b[4] == m[4], "delivered as sent"); kani::cover!(i == 3, "complete"); std::mem::forget(b); }
            Ok(None) => assert!(!last, "delivered once complete"),
            Err(_) => assert!(false, "a correct part is never an error"),
        }
        i += 1;
    }
    std::mem::forget(t);
}
//@ harness unwind=36 counts=real kind=bounded bound="3 parts, 5 bytes" fns=Transfer::add_part : every order, with a repetition
pub fn order_a() { reassembled([0, 1, 1, 2]); }
//@ harness unwind=36 counts=real kind=bounded bound="3 parts, 5 bytes" fns=Transfer::add_part : every order, with a repetition
pub fn order_b() { reassembled([1, 0, 0, 2]); }
//@ harness unwind=36 counts=real kind=bounded bound="3 parts, 5 bytes" fns=Transfer::add_part : every order, with a repetition
pub fn order_c() { reassembled([2, 1, 2, 0]); }
//@ harness unwind=36 counts=real kind=bounded bound="3 parts, 5 bytes" fns=Transfer::add_part : every order, with a repetition
pub fn order_d() { reassembled([0, 2, 0, 1]); }
//@ harness unwind=36 counts=real kind=bounded bound="3 parts, 5 bytes" fns=Transfer::add_part : every order, with a repetition
pub fn order_e() { reassembled([1, 2, 1, 0]); }
//@ harness unwind=36 counts=real kind=bounded bound="3 parts, 5 bytes" fns=Transfer::add_part : every order, with a repetition
pub fn order_f() { reassembled([2, 0, 0, 1]); }

/// Two parts of 2 and 3 bytes for an announced size of 5.
fn two_parts(o1: usize, o2: usize, a: [u8; 2], b: [u8; 3], id: &[u8; 32]) -> Result<Option<Vec<u8>>, TransferError> {
    let t = Transfer::new(5);
    let r = t.add_part(o1, a.to_vec(), id);
    assert!(matches!(r, Ok(None)), "incomplete");
    let r2 = t.add_part(o2, b.to_vec(), id);
    std::mem::forget((t, r));
    r2
}
//@ harness unwind=36 counts=real kind=bounded bound="2 parts, 5 bytes" fns=Transfer::add_part : data of the announced size
//@ + is delivered exactly when its hash is the announced one
pub fn other_hash() {
    let id: [u8; 32] = kani::any();
    let (a, b): ([u8; 2], [u8; 3]) = (kani::any(), kani::any());
    let h = sha2::spec_sha256(&[b[0], b[1], b[2], a[0], a[1]]);
    let r = two_parts(3, 0, a, b, &id);
    match &r {
        Ok(Some(m)) => assert!(h == id && m.len() == 5, "only data with the announced hash is delivered"),
        Ok(None) => assert!(false, "a complete transfer is decided"),
        Err(e) => assert!(h != id && matches!(e, TransferError::InvalidHash), "data with the announced hash is delivered"),
    }
    kani::cover!(matches!(r, Ok(Some(_))), "delivered");
    kani::cover!(matches!(r, Err(_)), "wrong hash");
    std::mem::forget(r);
}
//@ harness unwind=36 counts=real kind=bounded bound="2 parts, 5 bytes" fns=Transfer::add_part : parts that leave a gap or
//@ + overlap are never delivered, however many bytes arrived
pub fn gap_first() { gap(1, 3); }
//@ harness unwind=36 counts=real kind=bounded bound="2 parts, 5 bytes" fns=Transfer::add_part : parts that leave a gap
pub fn gap_middle() { gap(0, 3); }
//@ harness unwind=36 counts=real kind=bounded bound="2 parts, 5 bytes" fns=Transfer::add_part : parts that overlap
pub fn overlap() { gap(0, 1); }
fn gap(o1: usize, o2: usize) {
    let r = two_parts(o1, o2, kani::any(), kani::any(), &kani::any());
    assert!(!matches!(r, Ok(Some(_))), "only parts that tile the message are delivered");
    kani::cover!(r.is_err(), "refused");
    std::mem::forget(r);
}
//@ harness unwind=36 counts=real kind=bounded bound="1 part, 4 bytes" fns=Transfer::add_part : a message in a single
//@ + part is delivered exactly when its hash is the announced one
pub fn single_part() {
    let (id, a): ([u8; 32], [u8; 4]) = (kani::any(), kani::any());
    let h = sha2::spec_sha256(&a);
    let t = std::mem::ManuallyDrop::new(Transfer::new(4));
    let r = std::mem::ManuallyDrop::new(t.add_part(0, a.to_vec(), &id));
    match &*r {
        Ok(Some(m)) => assert!(h == id && m.len() == 4 && m[0] == a[0] && m[3] == a[3], "only data with the announced hash is delivered"),
        Ok(None) => assert!(false, "a complete transfer is decided"),
        Err(e) => assert!(h != id && matches!(e, TransferError::InvalidHash), "data with the announced hash is delivered"),
    }
    kani::cover!(matches!(&*r, Ok(Some(_))), "delivered");
    kani::cover!(matches!(&*r, Err(_)), "wrong hash");
}
