// ---------------------------------------------------------------- std and dependencies
#[derive(Debug)]
pub struct ApplyErr;
//@item crates/abe/src/eval.rs pub enum ApplyResult<
//@end
pub type AR<V> = ApplyResult<V>;
pub type E = ApplyErr;
pub open spec fn views(a: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(a.len(), |i: int| a[i]@) }
/// a text that is valid utf8 (nothing more is used of it)
pub struct Str<'a> { pub b: &'a [u8] }
impl<'a> View for Str<'a> { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.b@ } }
/// ASSUMED: from_utf8 accepts every string of ascii bytes (all that a number is read from)
#[verifier::external_body]
pub fn from_utf8<'a>(b: &'a [u8]) -> (r: Result<Str<'a>, ApplyErr>)
    ensures r matches Ok(s) ==> s@ == b@, (forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] < 128) ==> r is Ok,
{ unimplemented!() }
/// unsigned integer types
pub trait Uint: Sized {
    spec fn top() -> int;
    spec fn width() -> nat;
    spec fn value(self) -> int;
    /// ASSUMED: FromStr of unsigned integers
    fn parse_(s: &Str) -> (r: Result<Self, ApplyErr>)
        ensures match r { Ok(v) => num_r(s@, 10, Self::top()) == Some(v.value()), Err(_) => num_r(s@, 10, Self::top()) is None };
    /// ASSUMED: to_be_bytes, to_le_bytes and to_string are the documented ones
    fn to_be_(self) -> (r: &'static [u8]) ensures r@ == be(self.value(), Self::width()), 0 <= self.value() <= Self::top();
    fn to_le_(self) -> (r: &'static [u8]) ensures r@ == le(self.value(), Self::width()), 0 <= self.value() <= Self::top();
    fn to_string_(self) -> (r: Text) ensures r@ == dec(self.value()), 0 <= self.value();
}
impl<'a> Str<'a> {
    pub fn parse<N: Uint>(&self) -> (r: Result<N, ApplyErr>)
        ensures match r { Ok(v) => num_r(self@, 10, N::top()) == Some(v.value()), Err(_) => num_r(self@, 10, N::top()) is None },
    { N::parse_(self) }
}
//@each T,W = u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; usize, 8
impl Uint for {{T}} {
    open spec fn top() -> int { {{T}}::MAX as int }
    open spec fn width() -> nat { {{W}} }
    open spec fn value(self) -> int { self as int }
    #[verifier::external_body] fn parse_(s: &Str) -> (r: Result<Self, ApplyErr>) { unimplemented!() }
    #[verifier::external_body] fn to_be_(self) -> (r: &'static [u8]) { unimplemented!() }
    #[verifier::external_body] fn to_le_(self) -> (r: &'static [u8]) { unimplemented!() }
    #[verifier::external_body] fn to_string_(self) -> (r: Text) { unimplemented!() }
}
//@endeach
/// ASSUMED: b.try_into().ok().map(uN::from_be_bytes) of a byte slice
//@each T,W = u8, 1; u16, 2; u32, 4; u64, 8; u128, 16
#[verifier::external_body]
pub fn from_be_{{T}}(b: &[u8]) -> (r: Option<{{T}}>)
    ensures r is Some <==> b@.len() == {{W}}, r matches Some(v) ==> v as int == val(b@),
{ unimplemented!() }
//@endeach
/// ASSUMED: from_be_bytes and from_le_bytes of 16 bytes
#[verifier::external_body]
pub fn u128_be(b: [u8; 16]) -> (r: u128) ensures r as int == val(b@) { unimplemented!() }
#[verifier::external_body]
pub fn u128_le(b: [u8; 16]) -> (r: u128) ensures r as int == val(rev(b@)) { unimplemented!() }
/// ASSUMED: v[lo..hi].copy_from_slice(b)
#[verifier::external_body]
pub fn put16(v: &mut [u8; 16], lo: usize, hi: usize, b: &[u8])
    requires lo <= hi <= 16, b@.len() == hi - lo,
    ensures final(v)@ == old(v)@.take(lo as int) + b@ + old(v)@.skip(hi as int),
{ unimplemented!() }
/// ASSUMED: u128::from_str_radix
#[verifier::external_body]
pub fn u128_from_str_radix(s: Str, radix: u32) -> (r: Result<u128, ApplyErr>)
    requires 2 <= radix <= 36,
    ensures match r { Ok(v) => num_r(s@, radix as int, u128::MAX as int) == Some(v as int), Err(_) => num_r(s@, radix as int, u128::MAX as int) is None },
{ unimplemented!() }
/// ASSUMED: the base64 crate: what it prints reads back, and is of its alphabet
pub uninterp spec fn b64(url: bool, v: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn unb64(url: bool, s: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
pub broadcast proof fn b64_inverse(url: bool, v: Seq<u8>)
    ensures #![trigger b64(url, v)] unb64(url, b64(url, v)) == Some(v),
        forall|i: int| 0 <= i < b64(url, v).len() ==> plain(#[trigger] b64(url, v)[i]) || (!url && b64(url, v)[i] == 47),
        (b64(url, v).len() == 0) == (v.len() == 0),
{ }
#[verifier::external_body]
pub fn b64_encode(url: bool, b: &[u8]) -> (r: Text) ensures r@ == b64(url, b@) { unimplemented!() }
#[verifier::external_body]
pub fn b64_decode(url: bool, s: &[u8]) -> (r: Result<Vec<u8>, ApplyErr>)
    ensures match r { Ok(v) => unb64(url, s@) == Some(v@), Err(_) => unb64(url, s@) is None },
{ unimplemented!() }
/// str::replace of one byte
pub open spec fn subst(s: Seq<u8>, c: u8, t: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { subst(s.drop_last(), c, t) + (if s.last() == c { t } else { seq![s.last()] }) }
}
impl Text {
    /// ASSUMED: str::replace of a one byte pattern
    #[verifier::external_body]
    pub fn replace(&self, c: u8, t: &[u8]) -> (r: Text) ensures r@ == subst(self@, c, t@) { unimplemented!() }
}
/// [T]::contains of numbers
#[verifier::external_body]
pub fn member(s: &Vec<usize>, n: &usize) -> (r: bool) ensures r == s@.contains(*n) { unimplemented!() }
/// iter().map(f).try_collect() by its defining loop
#[verifier::external_body]
pub fn try_collect_map<F: Fn(&ABE) -> Result<usize, ApplyErr>>(s: &[ABE], f: F) -> (r: Result<Vec<usize>, ApplyErr>)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)),
    ensures match r {
        Ok(v) => v@.len() == s@.len() && forall|i: int| #![trigger v@[i]] #![trigger s@[i]] 0 <= i < s@.len() ==> f.ensures((&s@[i],), Ok::<usize, ApplyErr>(v@[i])),
        Err(_) => exists|i: int, e: ApplyErr| #![trigger f.ensures((&s@[i],), Err::<usize, ApplyErr>(e))] 0 <= i < s@.len() && f.ensures((&s@[i],), Err::<usize, ApplyErr>(e)),
    },
{ unimplemented!() }
/// proved in unit abtxt
#[verifier::external_body]
pub fn as_abtxt(b: &[u8]) -> (r: Text) ensures r@ == print(b@) { unimplemented!() }
/// proved in unit fit
#[verifier::external_body]
pub fn cut_prefix_nulls(b: &[u8]) -> (r: &[u8]) ensures stripped_front(b@, 0, r@) { unimplemented!() }
#[verifier::external_body]
pub fn cut_ending_nulls2(b: &[u8]) -> (r: &[u8]) ensures stripped_back(b@, r@) { unimplemented!() }
/// proved in unit bytes
#[verifier::external_body]
pub fn pad(inp: &[&[u8]], left: bool, default_pad: u8, check_len: bool, fixed: bool) -> (r: Result<Vec<u8>, ApplyErr>)
    requires inp@.len() >= 1,
    ensures check_len && !fixed ==> (spec_pad(inp@, left, default_pad) is Some <==> r is Ok) && (r is Ok ==> r->Ok_0@ == spec_pad(inp@, left, default_pad)->0),
{ unimplemented!() }
pub proof fn ascii(s: Seq<u8>, r: int, max: int)
    requires num_r(s, r, max) is Some, r <= 36,
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128,
{
    let t = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s };
    digs_ascii(t, r);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by { if t.len() < s.len() && i > 0 { assert(s[i] == t[i - 1]); } }
}
proof fn digs_ascii(s: Seq<u8>, r: int)
    requires digs(s, r) is Some, r <= 36,
    ensures forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128,
    decreases s.len(),
{ if s.len() > 0 { digs_ascii(s.drop_last(), r); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 128 by { if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); } } } }
proof fn tvs_each(l: Seq<ABE>, i: int)
    requires 0 <= i < l.len(),
    ensures tvs(l)[i] == tv(l[i]), tvs(l).len() == l.len(),
{ tvs_at(l); }
// ---------------------------------------------------------------- specification: the readers
pub open spec fn opt1(a: Seq<Seq<u8>>) -> bool { a.len() == 1 }
/// uN: the big endian bytes of the number
pub open spec fn rd_be(s: Seq<u8>, n: nat) -> Option<Seq<u8>> { match num_r(s, 10, p256(n) - 1) { Some(v) => Some(be(v, n)), None => None } }
pub open spec fn rd_le(s: Seq<u8>, n: nat) -> Option<Seq<u8>> { match num_r(s, 10, p256(n) - 1) { Some(v) => Some(le(v, n)), None => None } }
/// lu: without its trailing zeros
pub open spec fn rd_lu(s: Seq<u8>) -> Option<Seq<u8>> { match rd_le(s, 16) { Some(b) => Some(cut_back(b, 0)), None => None } }
/// b2, b8, b16: without its leading zeros, but at least one byte
pub open spec fn rd_bin(s: Seq<u8>, radix: int) -> Option<Seq<u8>> {
    match num_r(s, radix, p256(16) - 1) { Some(v) => Some(if v == 0 { seq![0u8] } else { cut_front(be(v, 16), 0) }), None => None }
}
pub open spec fn rd_a(a: Seq<Seq<u8>>) -> Option<Seq<u8>> {
    let len = if a.len() < 2 || a[1].len() == 0 { Some(16usize) } else { num(a[1]) };
    match len {
        None => None,
        Some(n) => if a[0].len() > n { None } else if a.len() > 2 && a[2].len() != 1 { None } else { Some(fill(if a.len() > 2 { a[2][0] } else { 0 }, n - a[0].len()) + a[0]) },
    }
}
/// ?u and ?lu
pub open spec fn pr_be(b: Seq<u8>) -> Option<Seq<u8>> { if b.len() > 16 { None } else { Some(dec(val(b))) } }
pub open spec fn pr_le(b: Seq<u8>) -> Option<Seq<u8>> { if b.len() > 16 { None } else { Some(dec(val(rev(b)))) } }
/// an encoder's answer
pub enum Enc { No, Bad, Text(Seq<u8>) }
pub open spec fn ev_(r: ApplyResult<Text>) -> Enc { match r { ApplyResult::NoValue => Enc::No, ApplyResult::Err(_) => Enc::Bad, ApplyResult::Value(t) => Enc::Text(t@) } }
pub open spec fn enc_is(r: ApplyResult<Text>, e: Enc) -> bool {
    match r { ApplyResult::NoValue => e is No, ApplyResult::Err(_) => e is Bad, ApplyResult::Value(t) => e is Text && t@ =~= e->Text_0 }
}
/// what a reader gives, as the result of a function
pub open spec fn gives(r: Result<Vec<u8>, ApplyErr>, o: Option<Seq<u8>>) -> bool { match r { Ok(v) => o is Some && o->0 =~= v@, Err(_) => o is None } }
proof fn p16() ensures p256(1) == 0x100, p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000, p256(16) == u128::MAX + 1
{ reveal_with_fuel(p256, 18); }
// ---------------------------------------------------------------- the readers of numbers
//@fn crates/abe/src/scope/uint.rs parse_b
//@pre T: FromStr => T: Uint ## the unsigned integers it is used at
//@pre where\s*<T as FromStr>::Err: std::error::Error \+ Send \+ Sync \+ 'static, =>  ## error type
//@pre std::str::from_utf8 => from_utf8 ## by its contract
//@ret r
//@contract
    ensures match r { Ok(v) => num_r(b@, 10, T::top()) == Some(v.value()), Err(_) => num_r(b@, 10, T::top()) is None },
//@after \{
    proof { if num_r(b@, 10, T::top()) is Some { ascii(b@, 10, T::top()); } }
//@end
//@each T,W,L = u8, 1, 1; u16, 2, 2; u32, 4, 4; u64, 8, 8; u128, 16, 16
//@expr crates/abe/src/scope/uint.rs "{{T}}"\s*,\s*1\.\.=1,\s*"[^"]*",\s*\|_,\s*inp:&\[&\[u8\]\]\| => pub fn fn_{{T}}(inp: &[&[u8]]) -> Result<Vec<u8>, E>
//@pre \.to_(be|le)_bytes\(\) => .to_\1_() ## by its contract
//@ret r
//@contract
    requires inp@.len() == 1,
    ensures gives(r, rd_be(inp@[0]@, {{W}})),
//@after \{
    proof { p16(); }
//@end
//@expr crates/abe/src/scope/uint.rs "l{{T}}"\s*,\s*1\.\.=1,\s*"[^"]*",\s*\|_,\s*inp:&\[&\[u8\]\]\| => pub fn fn_l{{T}}(inp: &[&[u8]]) -> Result<Vec<u8>, E>
//@pre \.to_(be|le)_bytes\(\) => .to_\1_() ## by its contract
//@ret r
//@contract
    requires inp@.len() == 1,
    ensures gives(r, rd_le(inp@[0]@, {{W}})),
//@after \{
    proof { p16(); }
//@end
//@endeach
//@expr crates/abe/src/scope/uint.rs "lu"\s*,\s*1\.\.=1,\s*"[^"]*",\s*\|_,\s*inp:&\[&\[u8\]\]\| => pub fn fn_lu(inp: &[&[u8]]) -> Result<Vec<u8>, E>
//@pre &parse_b::<u128>\((\w+\[0\])\)\?\.to_(be|le)_bytes\(\) => parse_b::<u128>(\1)?.to_\2_() ## by its contract
//@ret r
//@contract
    requires inp@.len() == 1,
    ensures gives(r, rd_lu(inp@[0]@)),
//@after \{
    proof { p16(); if let Some(b) = rd_le(inp@[0]@, 16) { assert forall|r: Seq<u8>| stripped_back(b, r) implies r == cut_back(b, 0) by { stripped_is(b, 0, r); } } }
//@end
//@block crates/abe/src/scope/uint.rs "\?u"\s*,\s*1\.\.=1,\s*"[^"]*",\s*\|_,\s*inp:&\[&\[u8\]\]\| => pub fn print_u(inp: &[&[u8]]) -> Result<Vec<u8>, E>
//@swap anyhow::anyhow!\( => ApplyErr ## the error value
//@pre let mut v = \[0;16\] => let mut v: [u8; 16] = [0; 16] ## type written out
//@pre v\[([^\]]*?)\.\.\]\.copy_from_slice\((\w+)\) => put16(&mut v, \1, 16, \2) ## by its contract
//@pre u128::from_(be|le)_bytes\(v\)\.to_string\(\) => u128_\1(v).to_string_() ## by its contract
//@ret r
//@contract
    requires inp@.len() == 1,
    ensures gives(r, pr_be(inp@[0]@)),
//@before Ok\(
        proof { if val@.len() <= 16 { val_zeros(v@, val@, 16 - val@.len()); } }
//@end
//@block crates/abe/src/scope/uint.rs "\?lu"\s*,\s*1\.\.=1,\s*"[^"]*",\s*\|_,\s*inp:&\[&\[u8\]\]\| => pub fn print_lu(inp: &[&[u8]]) -> Result<Vec<u8>, E>
//@swap anyhow::anyhow!\( => ApplyErr ## the error value
//@pre let mut v = \[0;16\] => let mut v: [u8; 16] = [0; 16] ## type written out
//@pre v\[0\.\.([^\]]*?)\]\.copy_from_slice\((\w+)\) => put16(&mut v, 0, \1, \2) ## by its contract
//@pre u128::from_(be|le)_bytes\(v\)\.to_string\(\) => u128_\1(v).to_string_() ## by its contract
//@ret r
//@contract
    requires inp@.len() == 1,
    ensures gives(r, pr_le(inp@[0]@)),
//@before Ok\(
        proof { if val@.len() <= 16 { val_zeros(rev(v@), rev(val@), 16 - val@.len()); } }
//@end
pub proof fn val_zeros(s: Seq<u8>, t: Seq<u8>, k: int)
    requires k >= 0, s.len() == k + t.len(), forall|i: int| 0 <= i < k ==> s[i] == 0, forall|i: int| k <= i < s.len() ==> s[i] == t[i - k],
    ensures val(s) == val(t),
    decreases s.len(),
{
    if t.len() > 0 { val_zeros(s.drop_last(), t.drop_last(), k); }
    else if k > 0 { val_zeros(s.drop_last(), t, k - 1); }
}
// ---------------------------------------------------------------- b2, b8, b16
//@fn crates/abe/src/ast.rs as_bytes
//@pre VResult<&\[u8\]> => Result<&[u8], ApplyErr> ## error type
//@pre ME::ExpectedBytes\.atp_v\(a\) => Err(ApplyErr) ## the error value
//@ret r
//@contract
    ensures match tv(*a) { T::Bytes(b) => r is Ok && r->Ok_0@ == b, _ => r is Err },
//@end
/// an option that is a number
pub open spec fn opt_num(t: T) -> Option<usize> { match t { T::Bytes(s) => num(s), _ => None } }
pub open spec fn all_nums(o: Seq<T>) -> bool { forall|i: int| 0 <= i < o.len() ==> opt_num(#[trigger] o[i]) is Some }
pub open spec fn some_num(o: Seq<T>, n: nat) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] opt_num(o[i]) matches Some(k) && k == n) }
/// the binary and hex encoders: refuse an option that is not a number; apply to the lengths asked for, to what their reader gives back
pub open spec fn sp_bin(b: Seq<u8>, o: Seq<T>, radix: int) -> Enc {
    if !all_nums(o) { Enc::Bad }
    else if o.len() > 0 && !some_num(o, b.len()) { Enc::No }
    else if b.len() == 0 || b.len() > 16 || (b[0] == 0 && b.len() > 1) { Enc::No }
    else if radix == 2 { Enc::Text(call_text(id_b2(), seq![all_bits(b)])) }
    else if radix == 16 { Enc::Text(call_text(id_b16(), seq![all_hex(b)])) }
    else { Enc::Bad }
}
pub open spec fn id_b2() -> Seq<u8> { seq![98u8, 50] }
pub open spec fn id_b16() -> Seq<u8> { seq![98u8, 49, 54] }
pub open spec fn id_b() -> Seq<u8> { seq![98u8] }
pub open spec fn id_bs() -> Seq<u8> { seq![98u8, 115] }
pub open spec fn id_a() -> Seq<u8> { seq![97u8] }
//@fn crates/abe/src/scope/base.rs bin
//@pre std::str::from_utf8 => from_utf8 ## by its contract
//@pre u128::from_str_radix => u128_from_str_radix ## by its contract
//@pre i\.to_be_bytes\(\) => i.to_be_() ## by its contract
//@pre &i => i ## by its contract
//@ret r
//@contract
    requires inp@.len() == 1, 2 <= radix <= 36,
    ensures gives(r, rd_bin(inp@[0]@, radix as int)),
//@after \{
    proof {
        p16();
        if num_r(inp@[0]@, radix as int, u128::MAX as int) is Some { ascii(inp@[0]@, radix as int, u128::MAX as int); }
        assert forall|b: Seq<u8>, r: Seq<u8>| #[trigger] stripped_front(b, 0, r) implies r == cut_front(b, 0) by { stripped_is_front(b, 0, r); }
    }
//@end
pub proof fn stripped_is_front(b: Seq<u8>, p: u8, r: Seq<u8>)
    requires stripped_front(b, p, r),
    ensures r == cut_front(b, p),
{ stripped_is(b, p, r); }
//@fn crates/abe/src/scope/base.rs enc_bin
//@pre opts\s*\.iter\(\)\s*\.map\(\|v\| -> anyhow::Result<usize> (\{[^{}]*\})\)\s*\.try_collect\(\)\? => match try_collect_map(opts, |v: &ABE| -> (q: Result<usize, ApplyErr>) ensures match opt_num(tv(*v)) { Some(n) => q is Ok && q->Ok_0 == n, None => q is Err } { proof { opt_ascii(*v); } \1 }) { Ok(x_) => x_, Err(e_) => return ApplyResult::Err(e_) } ## map, try_collect by their defining loop; `?` on ApplyResult
//@pre std::str::from_utf8 => from_utf8 ## by its contract
//@pre crate::ast:: =>  ## path
//@pre len_set\.contains\(&(bytes\.len\(\))\) => member(&len_set, &\1) ## contains of numbers
//@pre use std::fmt::Write; =>  ## import
//@pre bytes\.iter\(\)\.for_each\(\|b\| (\{[^;]*;\s*\})\); => for b in it: bytes \1 ## for_each by its defining loop
//@swap anyhow::anyhow!\( => ApplyErr ## the error value
//@pre ApplyResult<String> => ApplyResult<Text> ## text as its bytes
//@pre String:: => Text:: ## text as its bytes
//@pre bytes\.len\(\) \* => 0 * ## a capacity
//@format
//@ret r
//@contract
    ensures enc_is(r, sp_bin(bytes@, tvs(opts@), radix as int)),
//@after \{
    proof { tvs_at(opts@); plain_print(id_b2()); plain_print(id_b16()); bits_val(bytes@); hex_val(bytes@); plain_print(all_bits(bytes@)); plain_print(all_hex(bytes@)); call1(id_b2(), all_bits(bytes@)); call1(id_b16(), all_hex(bytes@)); dec2(); }
//@before if !len_set
    proof {
        assert(all_nums(tvs(opts@))) by { assert forall|i: int| 0 <= i < tvs(opts@).len() implies opt_num(#[trigger] tvs(opts@)[i]) is Some by { assert(opts@[i] == opts@[i]); let x = len_set@[i]; } }
        if len_set@.contains(bytes@.len() as usize) { let i = choose|i: int| 0 <= i < len_set@.len() && len_set@[i] == bytes@.len() as usize; assert(opt_num(tvs(opts@)[i]) == Some(len_set@[i])); }
        if some_num(tvs(opts@), bytes@.len()) { let i = choose|i: int| 0 <= i < tvs(opts@).len() && (#[trigger] opt_num(tvs(opts@)[i]) matches Some(k) && k == bytes@.len()); assert(opts@[i] == opts@[i]); assert(len_set@[i] == bytes@.len() as usize); }
    }
//@loop 1
        invariant st@ == all_bits(bytes@.take(it.index@)), it.index@ == bytes@.len() ==> st@ == all_bits(bytes@),
//@before let _ = st\.append_\(fmt_new\(\)\.arg_08b
                proof { let n = it.index@; assert(bytes@.take(n + 1).drop_last() =~= bytes@.take(n)); if n + 1 == bytes@.len() { assert(bytes@.take(n + 1) =~= bytes@); } }
//@loop 2
        invariant st@ == all_hex(bytes@.take(it.index@)), it.index@ == bytes@.len() ==> st@ == all_hex(bytes@),
//@before let _ = st\.append_\(fmt_new\(\)\.arg_02X
                proof { let n = it.index@; assert(bytes@.take(n + 1).drop_last() =~= bytes@.take(n)); if n + 1 == bytes@.len() { assert(bytes@.take(n + 1) =~= bytes@); } }
//@end
pub proof fn opt_ascii(a: ABE)
    ensures tv(a) matches T::Bytes(s) ==> (num(s) is Some ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128),
{ if let T::Bytes(s) = tv(a) { if num(s) is Some { ascii(s, 10, usize::MAX as int); } } }
pub proof fn dec2() ensures dec(2) == seq![50u8], dec(16) == seq![49u8, 54], dec(8) == seq![56u8]
{ reveal_with_fuel(dec, 3); assert(dec(16) =~= seq![49u8, 54]); }
// ---------------------------------------------------------------- base64
//@fn crates/abe/src/scope/base.rs base64
//@pre impl AsRef<\[u8\]> => &[u8] ## AsRef of bytes is the bytes
//@pre b\.as_ref\(\) => b ## AsRef of bytes is the bytes
//@pre BASE64_URL_SAFE_NO_PAD\.encode\( => b64_encode(true, ## base64 by its contract
//@pre -> String => -> Text ## text as its bytes
//@ret r
//@contract
    ensures r@ == b64(true, b@),
//@end
//@fn crates/abe/src/scope/base.rs base64_decode
//@pre impl AsRef<\[u8\]> => &[u8] ## AsRef of bytes is the bytes
//@pre st\.as_ref\(\) => st ## AsRef of bytes is the bytes
//@pre BASE64_URL_SAFE_NO_PAD\.decode\( => b64_decode(true, ## base64 by its contract
//@pre DecodeError => ApplyErr ## the error value
//@ret r
//@contract
    ensures gives(r, unb64(true, st@)),
//@end
//@expr crates/abe/src/scope/base.rs \( @C "b2",1\.\.=1, None, "[^"]*",\|_,i:&\[&\[u8\]\],_,_\| => pub fn fn_b2(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, rd_bin(i@[0]@, 2)),
//@end
//@expr crates/abe/src/scope/base.rs \("b8",1\.\.=1,"[^"]*",\|_,i:&\[&\[u8\]\]\| => pub fn fn_b8(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, rd_bin(i@[0]@, 8)),
//@end
//@expr crates/abe/src/scope/base.rs \( @C "b16",1\.\.=1, None, "[^"]*",\|_,i:&\[&\[u8\]\],_,_\| => pub fn fn_b16(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, rd_bin(i@[0]@, 16)),
//@end
//@expr crates/abe/src/scope/base.rs "b2",1\.\.=1, None, "[^"]*",[^\n]*?\|_,b:&\[u8\],opts:&\[ABE\]\| => pub fn to_b2(b: &[u8], opts: &[ABE]) -> AR<Text>
//@ret r
//@contract
    ensures enc_is(r, sp_bin(b@, tvs(opts@), 2)),
//@end
//@expr crates/abe/src/scope/base.rs "b16",1\.\.=1, None, "[^"]*",[^\n]*?\|_,b:&\[u8\],opts:&\[ABE\]\| => pub fn to_b16(b: &[u8], opts: &[ABE]) -> AR<Text>
//@ret r
//@contract
    ensures enc_is(r, sp_bin(b@, tvs(opts@), 16)),
//@end
//@expr crates/abe/src/scope/base.rs \("\?b",1\.\.=1,"[^"]*",\|_,i:&\[&\[u8\]\]\| => pub fn print_b(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, Some(b64(true, i@[0]@))),
//@end
//@expr crates/abe/src/scope/base.rs \("\?bs",1\.\.=1,"[^"]*",\|_,i:&\[&\[u8\]\]\| => pub fn print_bs(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@pre BASE64_STANDARD\.encode\( => b64_encode(false, ## base64 by its contract
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, Some(b64(false, i@[0]@))),
//@end
//@expr crates/abe/src/scope/base.rs \( @C "b", 1\.\.=1, None, "[^"]*",\s*\|_,i:&\[&\[u8\]\],_,_\| => pub fn fn_b(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, unb64(true, i@[0]@)),
//@end
//@expr crates/abe/src/scope/base.rs \( @C "bs", 1\.\.=1, None, "[^"]*",\s*\|_,i:&\[&\[u8\]\],_,_\| => pub fn fn_bs(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@pre BASE64_STANDARD\.decode\( => b64_decode(false, ## base64 by its contract
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, unb64(false, i@[0]@)),
//@end
/// the options of b: lengths, the first one that fits decides; what is not bytes is passed over
pub open spec fn sp_len(o: Seq<T>, n: nat) -> Enc decreases o.len() {
    if o.len() == 0 { Enc::No } else { match o[0] {
        T::Bytes(s) => match num_r(s, 10, u32::MAX as int) { None => Enc::Bad, Some(v) => if v == n { Enc::Text(seq![]) } else { sp_len(o.skip(1), n) } },
        _ => sp_len(o.skip(1), n),
    } }
}
pub open spec fn sp_b(b: Seq<u8>, o: Seq<T>) -> Enc {
    match if o.len() == 0 { Enc::Text(seq![]) } else { sp_len(o, b.len()) } { Enc::Text(_) => Enc::Text(call_text(id_b(), seq![b64(true, b)])), e => e }
}
//@block crates/abe/src/scope/base.rs "b", 1\.\.=1, None, "[^"]*",\s*\|_,i[^\n]*\n\s*\|_,b:&\[u8\],opts:&\[ABE\]\| -> ApplyResult<String> => pub fn to_b(b: &[u8], opts: &[ABE]) -> AR<Text>
//@pre for len_st in opts\.iter\(\)\.filter_map\(\|v\| crate::ast::as_bytes\(v\)\.ok\(\)\)\s*\{ => let mut k_: usize = 0; while k_ < opts.len() { let v = &opts[k_]; k_ += 1; let len_st = match as_bytes(v) { Ok(x_) => x_, Err(_) => { continue; } }; ## filter_map by its defining loop
//@pre std::str::from_utf8\((\w+)\)\?\.parse::<(\w+)>\(\)\? => match from_utf8(\1) { Ok(s_) => match s_.parse::<\2>() { Ok(n_) => n_, Err(e_) => { return ApplyResult::Err(e_); } }, Err(e_) => { return ApplyResult::Err(e_); } } ## `?` on ApplyResult
//@format
//@ret r
//@contract
    ensures enc_is(r, sp_b(b@, tvs(opts@))),
//@after \{
    proof { tvs_at(opts@); b64_inverse(true, b@); plain_print(id_b()); plain_print(b64(true, b@)); call1(id_b(), b64(true, b@)); }
//@before let mut k_: usize
    proof { assert(tvs(opts@).skip(0) =~= tvs(opts@)); }
//@loop 1
        invariant k_ <= opts@.len(), tvs(opts@).len() == opts@.len(), sp_len(tvs(opts@).skip(k_ as int), b@.len()) == sp_len(tvs(opts@), b@.len()), opts@.len() > 0,
            print(id_b()) == id_b(), print(b64(true, b@)) == b64(true, b@), call_text(id_b(), seq![b64(true, b@)]) == seq![91u8] + print(id_b()) + seq![58u8] + print(b64(true, b@)) + seq![93u8],
        decreases opts@.len() - k_,
//@before k_ \+= 1;
            proof {
                let o = tvs(opts@);
                tvs_at(opts@); assert(o.skip(k_ as int)[0] == tv(opts@[k_ as int])); assert(o.skip(k_ as int).skip(1) =~= o.skip(k_ + 1));
                if let T::Bytes(s) = tv(*v) { if num_r(s, 10, u32::MAX as int) is Some { ascii(s, 10, u32::MAX as int); } }
            }
//@end
pub proof fn slash_print(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) || s[i] == 47,
    ensures print(s) == subst(s, 47, seq![92u8, 47]),
    decreases s.len(),
{
    if s.len() > 0 { slash_print(s.drop_last()); assert(print(s) =~= subst(s, 47, seq![92u8, 47])); } else { assert(print(s) =~= subst(s, 47, seq![92u8, 47])); }
}
//@block crates/abe/src/scope/base.rs "bs", 1\.\.=1, None, "[^"]*",\s*\|_,i[^\n]*\n\s*\|_,b:&\[u8\],_\| -> ApplyResult<String> => pub fn to_bs(b: &[u8]) -> AR<Text>
//@pre BASE64_STANDARD\.encode\( => b64_encode(false, ## base64 by its contract
//@pre? \.replace\('([^'\\])', ("(?:[^"\\]|\\.)*")\) => .replace(b'\1', b\2) ## text as its bytes
//@format
//@bytestr
//@ret r
//@contract
    ensures enc_is(r, Enc::Text(call_text(id_bs(), seq![b64(false, b@)]))),
//@after \{
    proof { b64_inverse(false, b@); plain_print(id_bs()); slash_print(b64(false, b@)); call1(id_bs(), b64(false, b@)); assert([92u8, 47u8]@ =~= seq![92u8, 47]); }
//@end
// ---------------------------------------------------------------- big endian numbers
//@need crates/abe/src/eval.rs \$crate::fnc!\(\$id,\$argc,None,\$help,\$fnc,\s*\|_,bytes:&\[u8\],options:&\[\$crate::ABE\]\| -> \$crate::eval::ApplyResult<String>\{\s*#\[allow\(clippy::redundant_closure_call\)\]\s*let st : Option<String> = \$to_abe\(bytes,options\);
//@expr crates/abe/src/eval.rs let st : Option<String> = \$to_abe\(bytes,options\); => pub fn fnc_encode(id: &[u8], st: Option<Text>) -> AR<Text>
//@pre \$crate::eval::ApplyResult => ApplyResult ## path
//@pre \$id => id ## macro parameter as a function's
//@format
//@ret r
//@contract
    ensures enc_is(r, match st { None => Enc::No, Some(t) => Enc::Text(seq![91u8] + id@ + seq![58u8] + t@ + seq![93u8]) }),
//@end
pub open spec fn sp_u(id: Seq<u8>, b: Seq<u8>, n: nat) -> Enc { if b.len() == n { Enc::Text(call_text(id, seq![dec(val(b))])) } else { Enc::No } }
pub proof fn dec_plain(n: int)
    requires n >= 0,
    ensures print(dec(n)) == dec(n),
{ dec_reads(n); plain_print(dec(n)); }
//@each T,W,I = u8, 1, 56u8; u16, 2, 49u8 @54u8; u32, 4, 51u8 @50u8; u64, 8, 54u8 @52u8; u128, 16, 49u8 @50u8 @56u8
//@expr crates/abe/src/scope/uint.rs "{{T}}"\s*,\s*1\.\.=1,\s*"[^"]*",\s*\|_,inp:&\[&\[u8\]\]\|[^\n]*?,\s*\{ id : \|b:&\[u8\],_\| => pub fn dec_{{T}}(b: &[u8]) -> Option<Text>
//@pre b\.try_into\(\)\.ok\(\)\.map\((\w+)::from_be_bytes\)\.map\(\|t\| t\.to_string\(\)\) => from_be_\1(b).map(|t: \1| -> (q: Text) ensures q@ == dec(t as int) { t.to_string_() }) ## by its contract
//@ret r
//@contract
    ensures match r { None => b@.len() != {{W}}, Some(t) => b@.len() == {{W}} && t@ == dec(val(b@)) },
//@end
pub open spec fn id_{{T}}() -> Seq<u8> { seq![117u8, {{I}}] }
/// the entry of the table
pub fn to_{{T}}(b: &[u8]) -> (r: AR<Text>)
    ensures enc_is(r, sp_u(id_{{T}}(), b@, {{W}})),
{
    proof { val_bound(b@); plain_print(id_{{T}}()); dec_plain(val(b@)); call1(id_{{T}}(), dec(val(b@))); assert([117u8, {{I}}]@ =~= id_{{T}}()); }
    fnc_encode(&[117u8, {{I}}], dec_{{T}}(b))
}
//@endeach
// ---------------------------------------------------------------- a
//@expr crates/abe/src/scope/bytes.rs \(@C "a",1\.\.=3,None,"(?:[^"\\]|\\.)*",\|_,i:&\[&\[u8\]\],_,_\| => pub fn fn_a(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires 1 <= i@.len() <= 3,
    ensures gives(r, rd_a(views(i@))),
//@end
//@need crates/abe/src/scope/bytes.rs \(@C "a",1\.\.=3,None,"(?:[^"\\]|\\.)*",\|_,i:&\[&\[u8\]\],_,_\| [^\n]*,\s*encode_a\),
//@expr crates/abe/src/scope/bytes.rs \("\?a",1\.\.=1,"[^"]*",\|_,i:&\[&\[u8\]\]\| => pub fn print_a(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, Some(print(i@[0]@))),
//@end
//@expr crates/abe/src/scope/bytes.rs \("\?a0",1\.\.=1,"[^"]*",\s*\|_,i:&\[&\[u8\]\]\| => pub fn print_a0(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires i@.len() == 1,
    ensures gives(r, Some(print(cut_front(i@[0]@, 0)))),
//@after \{
    proof { assert forall|r: Seq<u8>| stripped_front(i@[0]@, 0, r) implies r == cut_front(i@[0]@, 0) by { stripped_is(i@[0]@, 0, r); } }
//@end
pub open spec fn sp_a(b: Seq<u8>) -> Enc {
    Enc::Text(call_text(id_a(), if b.len() == 16 { seq![cut_front(b, 0)] } else { seq![cut_front(b, 0), dec(b.len() as int)] }))
}
//@fn crates/abe/src/scope/bytes.rs encode_a
//@pre _: &BytesFE, b: &\[u8\], _: &\[ABE\] => b: &[u8] ## unused parameters
//@pre ApplyResult<String> => ApplyResult<Text> ## text as its bytes
//@format
//@ret r
//@contract
    ensures enc_is(r, sp_a(b@)),
//@after \{
    proof {
        assert forall|r: Seq<u8>| stripped_front(b@, 0, r) implies r == cut_front(b@, 0) by { stripped_is(b@, 0, r); }
        plain_print(id_a()); dec_plain(b@.len() as int);
        call1(id_a(), cut_front(b@, 0)); call2(id_a(), cut_front(b@, 0), dec(b@.len() as int));
    }
//@end
