// needs module retrofit
// What the standard library's address and duration types are: their parts (assumed; no fourleaf code here).
pub mod netspec {
    use vstd::prelude::*;
    use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
    use std::time::Duration;
    use crate::vio::*;
    use crate::sspec::*;
    use crate::dspec::*;
    use crate::hspec::*;
    use crate::de::Deserialize;
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExIpv4Addr(Ipv4Addr);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExIpv6Addr(Ipv6Addr);
    #[verifier::external_type_specification]
    pub struct ExIpAddr(IpAddr);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExSocketAddrV4(SocketAddrV4);
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExSocketAddrV6(SocketAddrV6);
    #[verifier::external_type_specification]
    pub struct ExSocketAddr(SocketAddr);

    pub uninterp spec fn oct4(a: Ipv4Addr) -> [u8; 4];
    pub uninterp spec fn oct6(a: Ipv6Addr) -> [u8; 16];
    pub open spec fn ip4(a: Ipv4Addr) -> Seq<u8> { oct4(a)@ }
    pub open spec fn ip6(a: Ipv6Addr) -> Seq<u8> { oct6(a)@ }
    pub uninterp spec fn dur(d: Duration) -> (u64, u32);
    pub uninterp spec fn sock4(a: SocketAddrV4) -> (Ipv4Addr, u16);
    pub uninterp spec fn sock6(a: SocketAddrV6) -> (Ipv6Addr, u16, u32, u32);
    pub assume_specification [Ipv4Addr::octets] (a: &Ipv4Addr) -> (r: [u8; 4]) ensures r@ == ip4(*a);
    pub assume_specification [Ipv4Addr::new] (a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures ip4(r) == seq![a, b, c, d];
    pub assume_specification [Ipv6Addr::octets] (a: &Ipv6Addr) -> (r: [u8; 16]) ensures r@ == ip6(*a);
    pub open spec fn hi(a: u16) -> u8 { (a >> 8) as u8 }
    pub open spec fn lo(a: u16) -> u8 { (a & 0xff) as u8 }
    pub assume_specification [Ipv6Addr::new] (a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16) -> (r: Ipv6Addr)
        ensures ip6(r) == seq![hi(a), lo(a), hi(b), lo(b), hi(c), lo(c), hi(d), lo(d), hi(e), lo(e), hi(f), lo(f), hi(g), lo(g), hi(h), lo(h)];
    pub broadcast proof fn b_hi(w: u16) ensures (#[trigger] hi(w)) as int == w as int / 256
    { assert(((w >> 8) as u8) as u16 == w / 256) by (bit_vector); }
    pub broadcast proof fn b_lo(w: u16) ensures (#[trigger] lo(w)) as int == w as int % 256
    { assert(((w & 0xff) as u8) as u16 == w % 256) by (bit_vector); }
    pub broadcast proof fn b_shl(a: u8) ensures (#[trigger] ((a as u16) << 8)) == a as int * 256
    { assert(((a as u16) << 8) == (a as u16) * 256) by (bit_vector); }
    pub broadcast proof fn b_or(w: u16, b: u8) requires w % 256 == 0 ensures (#[trigger] (w | (b as u16))) == w + b
    { assert((w | (b as u16)) == w + (b as u16)) by (bit_vector) requires w % 256 == 0; }
    pub broadcast proof fn b_ro(w: u16, b: u8) requires w % 256 == 0 ensures (#[trigger] ((b as u16) | w)) == w + b
    { assert(((b as u16) | w) == w + (b as u16)) by (bit_vector) requires w % 256 == 0; }
    pub broadcast proof fn b_xor(w: u16, b: u8) requires w % 256 == 0 ensures (#[trigger] (w ^ (b as u16))) == w + b
    { assert((w ^ (b as u16)) == w + (b as u16)) by (bit_vector) requires w % 256 == 0; }
    pub broadcast group b_seg { b_hi, b_lo, b_shl, b_or, b_ro, b_xor }
    pub assume_specification [Duration::new] (s: u64, n: u32) -> (r: Duration) requires n < 1_000_000_000 ensures dur(r) == (s, n);
    pub assume_specification [Duration::as_secs] (d: &Duration) -> (r: u64) ensures r == dur(*d).0;
    pub assume_specification [Duration::subsec_nanos] (d: &Duration) -> (r: u32) ensures r == dur(*d).1, r < 1_000_000_000;
    pub assume_specification [SocketAddrV4::new] (a: Ipv4Addr, p: u16) -> (r: SocketAddrV4) ensures sock4(r) == (a, p);
    pub assume_specification [SocketAddrV4::ip] (a: &SocketAddrV4) -> (r: &Ipv4Addr) ensures *r == sock4(*a).0;
    pub assume_specification [SocketAddrV4::port] (a: &SocketAddrV4) -> (r: u16) ensures r == sock4(*a).1;
    pub assume_specification [SocketAddrV6::new] (a: Ipv6Addr, p: u16, f: u32, s: u32) -> (r: SocketAddrV6) ensures sock6(r) == (a, p, f, s);
    pub assume_specification [SocketAddrV6::ip] (a: &SocketAddrV6) -> (r: &Ipv6Addr) ensures *r == sock6(*a).0;
    pub assume_specification [SocketAddrV6::port] (a: &SocketAddrV6) -> (r: u16) ensures r == sock6(*a).1;
    pub assume_specification [SocketAddrV6::flowinfo] (a: &SocketAddrV6) -> (r: u32) ensures r == sock6(*a).2;
    pub assume_specification [SocketAddrV6::scope_id] (a: &SocketAddrV6) -> (r: u32) ensures r == sock6(*a).3;
}
