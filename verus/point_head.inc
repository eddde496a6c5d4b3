pub assume_specification [ u16::div_ceil ](a: u16, b: u16) -> (r: u16)
    requires b > 0,
    ensures r == (a + b - 1) / b as int;
impl U16 {
    /// ASSUMED: the numbers of endian_types are big endian (decided by C07's and Kani's harnesses of byte-fmt)
    #[verifier::external_body] pub const fn get(self) -> (r: u16) ensures r == be(self.0@) { unimplemented!() }
    #[verifier::external_body] pub const fn new(v: u16) -> (r: U16) ensures be(r.0@) == v { unimplemented!() }
}
pub proof fn kinds(t: u8)
    ensures t == 1 || t == 3 || t == 7 || t == 128 ==> (t & 2 == 2) == linked(t) && (t & 4 == 4) == (t == 7),
{
    assert(1u8 & 2 == 0 && 3u8 & 2 == 2 && 7u8 & 2 == 2 && 128u8 & 2 == 0 && 1u8 & 4 == 0 && 3u8 & 4 == 0 && 7u8 & 4 == 4 && 128u8 & 4 == 0) by (bit_vector);
}
impl PointHeader {
    //@fn crates/pkt/src/point.rs upoint_size
    //@ret r
    //@contract
        ensures r == us(*self),
    //@end
    //@fn crates/pkt/src/point.rs padding
    //@ret r
    //@contract
        requires us(*self) <= 65528,
        ensures r == npad(*self), 0 <= npad(*self) < 8,
    //@end
    //@fn crates/pkt/src/point.rs padded_point_size
    //@ret r
    //@contract
        requires us(*self) <= 65528,
        ensures r == full(*self), us(*self) <= r < us(*self) + 8, r % 8 == 0,
    //@end
    //@fn crates/pkt/src/point.rs ucontent_size
    //@ret r
    //@contract
        ensures r == (if us(*self) >= 4 { us(*self) - 4 } else { 0 }),
    //@end
    //@fn crates/pkt/src/point.rs padded_content_size
    //@ret r
    //@contract
        requires us(*self) <= 65528,
        ensures r == (if full(*self) >= 4 { full(*self) - 4 } else { 0 }),
    //@end
    //@fn crates/pkt/src/point.rs size
    //@ret r
    //@contract
        requires us(*self) <= 65456,
        ensures r == full(*self) + 64,
    //@end
    //@fn crates/pkt/src/point.rs check
    //@pre PointTypeFlags::(\w+) =\> => t_ if t_.is(PointTypeFlags::\1) => ## matching on a constant as the comparison it stands for
    //@ret r
    //@contract
        ensures r is Ok <==> hdr_ok(self), r matches Ok(h) ==> h == self,
    //@end
}
