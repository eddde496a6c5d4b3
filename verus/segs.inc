// ---------------------------------------------------------------- a list of byte slices standing for their concatenation
pub struct ByteSegments<'a>(pub [&'a [u8]; 8]);
//@need crates/pkt/src/byte_segments.rs pub struct ByteSegments<'a>\(pub\(crate\) \[&'a \[u8\]; 8\]\);
pub open spec fn upto(s: Seq<&[u8]>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { upto(s, n - 1) + s[n - 1]@ } }
pub open spec fn cat(s: Seq<&[u8]>) -> Seq<u8> { upto(s, s.len() as int) }
/// the bytes a list of segments stands for
pub open spec fn all(b: &ByteSegments) -> Seq<u8> { b.0@[0]@ + b.0@[1]@ + b.0@[2]@ + b.0@[3]@ + b.0@[4]@ + b.0@[5]@ + b.0@[6]@ + b.0@[7]@ }
pub proof fn cat8(s: Seq<&[u8]>)
    requires s.len() == 8,
    ensures cat(s) == s[0]@ + s[1]@ + s[2]@ + s[3]@ + s[4]@ + s[5]@ + s[6]@ + s[7]@,
{ reveal_with_fuel(upto, 9); assert(cat(s) =~= s[0]@ + s[1]@ + s[2]@ + s[3]@ + s[4]@ + s[5]@ + s[6]@ + s[7]@); }
pub const fn eight<'a>() -> (r: [&'a [u8]; 8]) ensures forall|i: int| 0 <= i < 8 ==> (#[trigger] r@[i])@ == Seq::<u8>::empty()
{ let e: &'a [u8] = &[]; let r = [e, e, e, e, e, e, e, e]; proof { assert(e@ =~= Seq::<u8>::empty()); } r }
impl<'a> ByteSegments<'a> {
    //@fn crates/pkt/src/byte_segments.rs from_array
    //@pre \[&\[\]; 8\] => eight() ## eight empty slices
    //@ret r
    //@contract
        requires N < 8,
        ensures forall|i: int| 0 <= i < 8 ==> (#[trigger] r.0@[i])@ == (if i < N { segments@[i]@ } else { seq![] }), N == 1 ==> all(&r) == segments@[0]@,
    //@loop 1
        invariant N < 8, i <= N, forall|k: int| 0 <= k < 8 ==> (#[trigger] r@[k])@ == (if k < i { segments@[k]@ } else { seq![] }),
        decreases N - i,
    //@before ByteSegments\(r\)
    proof { if N == 1 { let z: [&[u8]; 8] = r; assert(z@[0]@ == segments@[0]@); assert(z@[0]@ + z@[1]@ + z@[2]@ + z@[3]@ + z@[4]@ + z@[5]@ + z@[6]@ + z@[7]@ =~= segments@[0]@); } }
    //@end
}
/// ASSUMED: the hash of segments is the hash of their concatenation (blake3)
#[verifier::external_body] pub fn hash_segments(s: &[&[u8]]) -> (r: [u8; 32]) ensures r@ == H(cat(s@)) { unimplemented!() }
