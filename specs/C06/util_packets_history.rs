// C06: per-peer replay window.
//
// Abstract view of a receiving history: `seen(h, t)` says whether delivering `t` must be refused.
// Representation invariant: the window starts at the block of the highest accepted number.
fn block(s: u64) -> u64 { s / 256 }

fn well_formed(h: &PacketsHistory) -> bool {
    let m = h.mask.as_ref().unwrap();
    m.index.load(Ordering::Relaxed) == block(h.seqno.load(Ordering::Relaxed)) * 256
}

fn seen(h: &PacketsHistory, t: u64) -> bool {
    let m = h.mask.as_ref().unwrap();
    let top = block(h.seqno.load(Ordering::Relaxed));
    let b = block(t);
    if b > top { return false; }
    if top - b > 1 { return true; }
    let base = if b == top { HISTORY_SIZE / 2 } else { 0 };
    m.bits[base + (t % 256) as usize / 64].load(Ordering::Relaxed) >> (t % 64) & 1 == 1
}

fn any_history() -> PacketsHistory {
    let h = PacketsHistory::for_recv();
    let s: u64 = kani::any();
    h.seqno.store(s, Ordering::Relaxed);
    let m = h.mask.as_ref().unwrap();
    m.index.store(block(s) * 256, Ordering::Relaxed);
    let mut i = 0;
    while i < HISTORY_SIZE { m.bits[i].store(kani::any(), Ordering::Relaxed); i += 1; }
    h
}

//@ harness unwind=11 fns=PacketsHistory::for_recv,PacketsHistory::deliver_packet : a new history has seen nothing
//@ + and satisfies the invariant the inductive step starts from
pub fn fresh() {
    let h = PacketsHistory::for_recv();
    let t: u64 = kani::any();
    assert!(well_formed(&h));
    assert!(h.seqno() == 0);
    assert!(!seen(&h, t), "a new history refuses nothing");
    kani::cover!(t > 100000, "large numbers");
}

//@ harness unwind=11 fns=PacketsHistory::deliver_packet,PacketsHistory::seqno : inductive step from every
//@ + well-formed state: a number is accepted iff it was not seen and is not older than the window, acceptance is
//@ + remembered, nothing else is forgotten inside the window, and the reported number is the highest accepted
pub fn deliver() {
    let h = any_history();
    let (s, t): (u64, u64) = (kani::any(), kani::any());
    let top = h.seqno();
    let was_seen = seen(&h, s);
    let t_seen = seen(&h, t);
    kani::cover!(was_seen && block(s) == block(top), "duplicate in the current block");
    kani::cover!(was_seen && block(s) < block(top), "old number");
    kani::cover!(!was_seen && block(s) == block(top) + 1, "next block");
    kani::cover!(!was_seen && s == u64::MAX, "largest number");
    let r = h.deliver_packet(s);
    assert!(r == !was_seen, "accepted exactly when fresh and inside the window");
    assert!(well_formed(&h), "the window follows the highest accepted number");
    assert!(h.seqno() == if r && s > top { s } else { top }, "the highest accepted number is reported");
    if r {
        assert!(seen(&h, s), "an accepted number is remembered");
        let dropped = block(h.seqno()) - core::cmp::min(block(t), block(h.seqno())) > 1;
        assert!(seen(&h, t) == (t_seen || t == s || dropped), "no other number changes its status inside the window");
    } else {
        assert!(seen(&h, t) == t_seen, "a refused packet leaves the window unchanged");
    }
}

//@ harness unwind=11 fns=PacketsHistory::deliver_packet : consequence: delivering a number twice, with one arbitrary
//@ + delivery in between, accepts it at most once
pub fn no_double_accept() {
    let h = any_history();
    let (s, t): (u64, u64) = (kani::any(), kani::any());
    let a = h.deliver_packet(s);
    let _ = h.deliver_packet(t);
    let b = h.deliver_packet(s);
    assert!(!(a && b), "a sequence number is never accepted twice");
    kani::cover!(a && !b && s != t, "second copy refused");
}

//@ harness unwind=11 fns=PacketsHistory::deliver_packet : consequence: a number at most 256 behind the highest
//@ + accepted one is never refused as too old, and one 512 or more behind is always refused
pub fn window_bounds() {
    let h = PacketsHistory::for_recv();
    let (top, s): (u64, u64) = (kani::any(), kani::any());
    assert!(h.deliver_packet(top), "first number");
    let r = h.deliver_packet(s);
    if s == top { assert!(!r, "duplicate refused"); }
    else if s > top || top - s <= 256 { assert!(r, "fresh number inside the window accepted"); }
    else if top - s >= 512 { assert!(!r, "number behind the window refused"); }
    kani::cover!(r && s < top, "reordered packet");
}

//@ harness unwind=11 fns=PacketsHistory::reset : after a reset the history starts over (number 0 is reserved)
pub fn reset() {
    let h = any_history();
    let t: u64 = kani::any();
    h.reset();
    assert!(h.seqno() == 0 && well_formed(&h));
    if t != 0 { assert!(!seen(&h, t), "everything is fresh after a reset"); }
    kani::cover!(t > 300, "reset with a large number");
}

//@ harness unwind=4 fns=PacketsHistory::for_send,PacketsHistory::bump_seqno,PacketsHistory::deliver_packet : the sending
//@ + side hands out consecutive numbers and records the highest number it was told about
pub fn send_side() {
    let h = PacketsHistory::for_send();
    let s: u64 = kani::any();
    kani::assume(s < u64::MAX);
    h.seqno.store(s, Ordering::Relaxed);
    assert!(h.bump_seqno() == s + 1 && h.seqno() == s + 1, "numbers are handed out consecutively");
    let t: u64 = kani::any();
    assert!(h.deliver_packet(t));
    assert!(h.seqno() == core::cmp::max(t, s + 1), "the highest number is kept");
    kani::cover!(t > 5 && t - 5 > s, "jump forward");
}
