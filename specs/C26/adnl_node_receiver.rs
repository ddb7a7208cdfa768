// C26: custom messages.
use crate::verif::subscriber::*;
use crate::verif::env::ready;

//@ harness unwind=12 kind=bounded bound="3 subscribers, message of 8 bytes" fns=process_message_custom : a custom message
//@ + is offered in order until one takes it
pub fn messages() {
    let (subs, d, m) = three_messages();
    with_context(|ctx| {
        let r = ready(process_message_custom(ctx, &subs, &m));
        match (&r, first_taker(d)) {
            (Ok(false), None) => assert!(spec_calls() == 3, "everyone was asked"),
            (Ok(true), Some((i, k))) => assert!(k != 3 && spec_calls() == i + 1, "nobody else was asked"),
            (Err(_), Some((i, 3))) => assert!(spec_calls() == i + 1, "a failure ends it"),
            _ => assert!(false, "the first subscriber that takes the message decides"),
        }
        kani::cover!(first_taker(d) == Some((2, 1)), "last takes");
        kani::cover!(first_taker(d).is_none(), "all reject");
        std::mem::forget(r);
    });
    std::mem::forget(subs);
}
