/// The whole state of a history, for frame conditions.
#[derive(Clone, Copy)]
pub struct Snap { seqno: u64, window: Option<(u64, [u64; HISTORY_SIZE])> }
pub fn snap(h: &PacketsHistory) -> Snap {
    Snap { seqno: h.seqno.load(Ordering::Relaxed), window: match &h.mask { None => None, Some(m) => {
        let mut bits = [0; HISTORY_SIZE];
        let mut i = 0;
        while i < HISTORY_SIZE { bits[i] = m.bits[i].load(Ordering::Relaxed); i += 1; }
        Some((m.index.load(Ordering::Relaxed), bits))
    } } }
}
pub fn same(a: &Snap, b: &Snap) -> bool {
    a.seqno == b.seqno && match (&a.window, &b.window) {
        (None, None) => true,
        (Some((i, x)), Some((j, y))) => { let mut r = i == j; let mut k = 0; while k < HISTORY_SIZE { r &= x[k] == y[k]; k += 1; } r }
        _ => false,
    }
}
/// Nothing but the reserved number 0 has been seen (C06 proves that such a history refuses nothing else).
pub fn is_fresh(h: &PacketsHistory) -> bool {
    let s = snap(h);
    s.seqno == 0 && match s.window { None => true, Some((index, bits)) => {
        let mut r = index == 0;
        let mut i = 0;
        while i < HISTORY_SIZE { r &= bits[i] == 0 || i == HISTORY_SIZE / 2 && bits[i] == 1; i += 1; }
        r
    } }
}
/// Any well-formed history of received packets (window aligned to the highest accepted number).
pub fn any_recv_history() -> PacketsHistory {
    let h = PacketsHistory::for_recv();
    let s: u64 = kani::any();
    h.seqno.store(s, Ordering::Relaxed);
    let m = h.mask.as_ref().unwrap();
    m.index.store(s / 256 * 256, Ordering::Relaxed);
    let mut i = 0;
    while i < HISTORY_SIZE { m.bits[i].store(kani::any(), Ordering::Relaxed); i += 1; }
    h
}
pub fn any_send_history() -> PacketsHistory {
    let h = PacketsHistory::for_send();
    h.seqno.store(kani::any(), Ordering::Relaxed);
    h
}
