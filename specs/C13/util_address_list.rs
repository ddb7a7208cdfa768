// C13: an address list is used exactly when it names an address, is not from the future and has not expired.
use crate::verif::env::set_now;

//@ harness unwind=8 fns=parse_address_list : the exact acceptance rule, and the address that comes out
pub fn acceptance() {
    let (now, tolerance): (u32, u32) = (kani::any(), kani::any());
    kani::assume(now < 1 << 31 && tolerance < 1 << 31);
    set_now(now);
    let (ip, port): (u32, u16) = (kani::any(), kani::any());
    let known: bool = kani::any();
    let list = proto::adnl::AddressList {
        address: if known { Some(proto::adnl::Address { ip, port: port as u32 }) } else { None },
        version: kani::any(),
        reinit_date: kani::any(),
        expire_at: kani::any(),
    };
    let r = parse_address_list(&list, tolerance);
    let future = list.reinit_date as u64 > now as u64 + tolerance as u64;
    let expired = list.expire_at != 0 && list.expire_at < now;
    assert!(r.is_ok() == (known && !future && !expired), "accepted exactly when addressed, not from the future, not expired");
    if let Ok(a) = r { assert!(a == SocketAddrV4::new(Ipv4Addr::from(ip), port), "the listed address is returned"); }
    kani::cover!(known && !future && expired, "expired");
    kani::cover!(known && future, "from the future");
    kani::cover!(known && !future && list.expire_at == 0, "never expires");
    kani::cover!(known && !future && list.expire_at == now, "expires now");
}

//@ harness unwind=8 fns=parse_address_list,Address::from : the address a node advertises is the address its peers use
pub fn advertised() {
    let now: u32 = kani::any();
    kani::assume(now < 1 << 31);
    set_now(now);
    let a = SocketAddrV4::new(Ipv4Addr::from(kani::any::<u32>()), kani::any());
    let list = proto::adnl::AddressList { address: Some(proto::adnl::Address::from(&a)), version: now, reinit_date: now, expire_at: 0 };
    match parse_address_list(&list, kani::any::<u8>() as u32) { Ok(b) => assert!(a == b, "nothing is lost"), Err(_) => assert!(false, "a fresh list is accepted") }
    kani::cover!(a.port() > 255, "two-byte port");
}
