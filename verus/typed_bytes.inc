// ---------------------------------------------------------------- fixed byte strings
/// what bytes are taken from
pub trait Bs { spec fn bv(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
impl<const L: usize> Bs for [u8; L] { open spec fn bv(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self } }
impl Bs for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
pub struct AB<N>(pub N);
pub struct B64<N>(pub N);
//@need crates/byte-fmt/src/lib.rs pub struct AB<N: \?Sized = Vec<u8>>\(pub N\);
//@need crates/byte-fmt/src/lib.rs pub struct B64<N = \[u8; 32\]>\(pub N\);
//@each S = AB; B64
impl<N: Bs> Bs for {{S}}<N> {
    open spec fn bv(&self) -> Seq<u8> { self.0.bv() }
//@fn crates/byte-fmt/src/lib.rs as_ref in impl<N: AsRef<\[u8\]>> AsRef<\[u8\]> for {{S}}<N> \{
//@end
}
//@endeach
pub open spec fn id_f() -> Seq<u8> { seq![102u8] }
/// f: as a, filled with 0xff
pub open spec fn rd_f(a: Seq<Seq<u8>>) -> Option<Seq<u8>> {
    let len = if a.len() < 2 || a[1].len() == 0 { Some(16usize) } else { num(a[1]) };
    match len {
        None => None,
        Some(n) => if a[0].len() > n { None } else if a.len() > 2 && a[2].len() != 1 { None } else { Some(fill(if a.len() > 2 { a[2][0] } else { 255 }, n - a[0].len()) + a[0]) },
    }
}
//@expr crates/abe/src/scope/bytes.rs \("f",1\.\.=3,"(?:[^"\\]|\\.)*",\|_,i:&\[&\[u8\]\]\| => pub fn fn_f(i: &[&[u8]]) -> Result<Vec<u8>, E>
//@ret r
//@contract
    requires 1 <= i@.len() <= 3,
    ensures gives(r, rd_f(views(i@))),
//@end
pub open spec fn has_a() -> bool { forall|a: Seq<Seq<u8>>| 1 <= a.len() <= 3 && #[trigger] rd_a(a) is Some ==> answers(id_a(), a, rd_a(a)->0) }
pub open spec fn has_f() -> bool { forall|a: Seq<Seq<u8>>| 1 <= a.len() <= 3 && #[trigger] rd_f(a) is Some ==> answers(id_f(), a, rd_f(a)->0) }
/// which function writes these bytes, and its arguments: what it would fill in itself is left out
pub open spec fn high(b: Seq<u8>) -> bool { b.len() > 0 && b[0] == 255 }
pub open spec fn ab_id(b: Seq<u8>) -> Seq<u8> { if high(b) { id_f() } else { id_a() } }
pub open spec fn ab_cut(b: Seq<u8>) -> Seq<u8> { if high(b) { cut_front(b, 255) } else { cut_front(b, 0) } }
pub open spec fn ab_args(b: Seq<u8>) -> Seq<Seq<u8>> { if b.len() == 16 { seq![ab_cut(b)] } else { seq![ab_cut(b), dec(b.len() as int)] } }
pub fn str_f() -> (r: &'static [u8]) ensures r@ == id_f() { let r: &'static [u8] = &[102u8]; proof { assert(r@ =~= id_f()); } r }
pub fn str_a() -> (r: &'static [u8]) ensures r@ == id_a() { let r: &'static [u8] = &[97u8]; proof { assert(r@ =~= id_a()); } r }
//@need crates/abe/src/abtxt.rs pub const MAX_STR: &str = "f";
impl<N: Bs> AB<N> {
//@fn crates/byte-fmt/src/lib.rs x_prefix_cut in impl<N> AB<N>\s*where\s*Self: AsRef<\[u8\]>,
//@ret r
//@contract
    ensures r.0 == high(self.bv()), r.1@ == ab_cut(self.bv()),
//@after \{
    proof {
        let b = self.bv();
        assert forall|r: Seq<u8>| #[trigger] stripped_front(b, 0, r) implies r == cut_front(b, 0) by { stripped_is(b, 0, r); }
        assert forall|r: Seq<u8>| #[trigger] stripped_front(b, 255, r) implies r == cut_front(b, 255) by { stripped_is(b, 255, r); }
    }
//@end
//@fn crates/byte-fmt/src/lib.rs write_abe in impl<N> ToABE for AB<N>
//@pre fn write_abe\(&self, out: &mut dyn FnMut\(ABE\)\) => pub fn write_abe(&self, out: &mut Vec<ABE>) ## a consumer of items, as the items it was given
//@pre \bMAX_STR\b => str_f() ## text as its bytes
//@pre "a" => str_a() ## text as its bytes
//@pre (abe::abe!\((?:[^()]|\((?:[^()]|\((?:[^()]|\(\))*\))*\))*\))\.for_each\(out\) => each_item(\1, out) ## for_each, as its loop
//@pre \.to_string\(\) => .to_string_() ## by its contract
//@abe
//@contract
    ensures tvs(final(out)@) == tvs(old(out)@) + raw_call(ab_id(self.bv()), ab_args(self.bv())),
//@after \{
    proof {
        let b = self.bv();
        raw1(ab_id(b), ab_cut(b)); raw2(ab_id(b), ab_cut(b), dec(b.len() as int));
        broadcast use tvs_small;
    }
//@end
//@fn crates/byte-fmt/src/lib.rs to_abe_str in impl<N> ToABE for AB<N>
//@pre fn to_abe_str\(&self\) -> String => pub fn to_abe_str(&self) -> Text ## text as its bytes
//@pre \bMAX_STR\b => str_f() ## text as its bytes
//@pre "a" => str_a() ## text as its bytes
//@pre abe::abtxt:: =>  ## path
//@pre let st: &str = st\.borrow\(\); =>  ## borrow of a text
//@format
//@ret r
//@contract
    ensures r@ == call_text(ab_id(self.bv()), ab_args(self.bv())),
//@after \{
    proof {
        let b = self.bv();
        plain_print(id_a()); plain_print(id_f()); dec_plain(b.len() as int);
        call1(ab_id(b), ab_cut(b)); call2(ab_id(b), ab_cut(b), dec(b.len() as int));
    }
//@end
}

// ---------------------------------------------------------------- from bytes, lists and texts
/// at most the length, what is missing is zeros in front
pub open spec fn fits_of(l: L, n: int) -> Option<Seq<u8>> { match exact(l) { Some(b) => if b.len() <= n { Some(left_padded(b, 0, n)) } else { None }, None => None } }
impl<const L: usize> AB<[u8; L]> {
//@fn crates/byte-fmt/src/lib.rs try_fit_byte_slice in impl<const L: usize> AB<\[u8; L\]> \{
//@pre pub const fn => pub fn ## const not needed
//@pre , L> => , { L }> ## a generic argument in braces
//@ret r
//@contract
    ensures match r { Ok(v) => slice@.len() <= L && v.0@ == left_padded(slice@, 0, L as int), Err(_) => slice@.len() > L },
//@end
//@fn crates/byte-fmt/src/lib.rs try_fit_slice_filled in impl<const L: usize> AB<\[u8; L\]> \{
//@pre pub const fn => pub fn ## const not needed
//@pre , L> => , { L }> ## a generic argument in braces
//@ret r
//@contract
    ensures match r { Ok(v) => slice@.len() <= L && v.0@ == left_padded(slice@, FILL, L as int), Err(_) => slice@.len() > L },
//@end
//@fn crates/byte-fmt/src/lib.rs parse_abtxt in impl<const L: usize> AB<\[u8; L\]> \{
//@pre impl AsRef<\[u8\]> => &[u8] ## AsRef of bytes is the bytes
//@pre st\.as_ref\(\) => st ## AsRef of bytes is the bytes
//@pre abe::abtxt:: =>  ## path
//@pre parse_abtxt_into\( => parse_abtxt_into_n( ## the destination as an array
//@pre map_err\(ABTxtError::FitSlice\) => map_err(|e_: FitSliceErr| ApplyErr) ## the error value
//@pre ABTxtError => ApplyErr ## the error value
//@ret r
//@contract
    ensures match r { Ok(v) => parse(st@) matches Some(b) && b.len() <= L && v.0@ == left_padded(b, 0, L as int), Err(_) => !(parse(st@) matches Some(b) && b.len() <= L) },
//@end
//@block crates/byte-fmt/src/lib.rs impl<const N: usize> FromStr for AB<\[u8; N\]> \{\s*type Err = ABTxtError;\s*fn from_str\(s: &str\) -> Result<Self, Self::Err> => pub fn from_str(s: &[u8]) -> Result<Self, ApplyErr>
//@ret r
//@contract
    ensures match r { Ok(v) => parse(s@) matches Some(b) && b.len() <= L && v.0@ == left_padded(b, 0, L as int), Err(_) => !(parse(s@) matches Some(b) && b.len() <= L) },
//@end
/// TEXT READS BACK
pub fn text_round_trip(v: Self) -> (r: Self)
    ensures r.0@ == v.0@,
{
    let mut f = Text::new();
    v.fmt(&mut f);
    proof { let b = v.0@; assert(f@ =~= print(b)); round_trip(b); assert(left_padded(b, 0, L as int) =~= b); }
    match Self::from_str(f.as_bytes()) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() }
}
}
/// the destination as an array
#[verifier::external_body]
pub fn parse_abtxt_into_n<const N: usize>(s: &[u8], dest: &mut [u8; N]) -> (r: Result<usize, ApplyErr>)
    ensures match r { Ok(n) => parse(s@) matches Some(v) && v.len() == n && n <= N && final(dest)@.take(n as int) == v, Err(_) => !(parse(s@) matches Some(v) && v.len() <= N) },
{ unimplemented!() }
impl AB<Vec<u8>> {
//@fn crates/byte-fmt/src/lib.rs from_str in impl FromStr for AB<Vec<u8>> \{
//@pre fn from_str\(s: &str\) => pub fn from_str(s: &[u8]) ## text as its bytes
//@pre Self::Err => ApplyErr ## the error value
//@pre abe::abtxt:: =>  ## path
//@pre map\(AB\) => map(|v_: Vec<u8>| -> (q: AB<Vec<u8>>) ensures q.0 == v_ { AB(v_) }) ## closure written out
//@ret r
//@contract
    ensures match r { Ok(v) => parse(s@) == Some(v.0@) && v.0@.len() <= 65000, Err(_) => !(parse(s@) matches Some(v) && v.len() <= 65000) },
//@end
/// TEXT READS BACK (up to the documented maximum)
pub fn text_round_trip(v: Self) -> (r: Self)
    requires v.0@.len() <= 65000,
    ensures r.0@ == v.0@,
{
    let mut f = Text::new();
    v.fmt(&mut f);
    proof { let b = v.0@; assert(f@ =~= print(b)); round_trip(b); }
    match Self::from_str(f.as_bytes()) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() }
}
}
impl<N: Bs> AB<N> {
//@fn crates/byte-fmt/src/lib.rs fmt in impl<X> Display for AB<X>
//@pre f\.write_str\(&(as_abtxt\(self\.as_ref\(\)\))\) => f.append_(\1) ## text as its bytes
//@pre fmt::Formatter<'_> => Text ## text as its bytes
//@pre -> fmt::Result =>  ## no failure
//@pre fn fmt => pub fn fmt ## trait method as a function
//@contract
    ensures final(f)@ == old(f)@ + print(self.bv()),
//@end
}
//@each S = AB; B64
//@block crates/byte-fmt/src/lib.rs impl<N> From<{{S}}<N>> for ABList\s*where\s*{{S}}<N>: AsRef<\[u8\]>,\s*\{\s*fn from\(val: {{S}}<N>\) -> Self => pub fn list_from_{{S}}<N: Bs>(val: {{S}}<N>) -> ABList
//@pre val\.as_ref\(\)\.to_vec\(\)\.into\(\) => list_of(val.as_ref().to_vec()) ## From as a function
//@ret r
//@contract
    ensures r@ == one(val.bv()),
//@after \{
    proof { assert forall|v: Seq<u8>| v.len() == val.bv().len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == val.bv()[i]) implies #[trigger] one(v) == one(val.bv()) by { assert(v =~= val.bv()); } }
//@end
//@endeach
impl<const L: usize> Typed for AB<[u8; L]> {
    type Error = FitSliceErr;
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
    open spec fn of(l: CL) -> Option<Seq<u8>> { fits_of(l, L as int) }
    open spec fn room() -> bool { true }
    open spec fn shape(l: Seq<T>) -> bool { no_ctr(l) }
    fn check(b: &[ABE]) -> (r: Result<(), MatchError>) { check_ab(b) }
//@fn crates/byte-fmt/src/lib.rs try_from in impl<const L: usize> TryFrom<ABList> for AB<\[u8; L\]> \{
//@pre try_from\(value: ABList\) -> Result<Self, Self::Error> => try_from_(value: ABList) -> Result<Self, Self::Error> ## trait method as a function
//@pre map_err\(\|_\| => map_err(|_e: ApplyErr| ## closure annotated
//@end
}
/// what a value gives as a list gives the value
pub fn list_round_ab<const L: usize>(v: AB<[u8; L]>) -> (r: AB<[u8; L]>)
    ensures r.0@ == v.0@,
{
    let ghost b = v.0@;
    let l = list_from_AB(v);
    proof { assert(left_padded(b, 0, L as int) =~= b); }
    match AB::<[u8; L]>::try_from_(l) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() }
}
/// the arguments written are read as the bytes
pub proof fn ab_back(b: Seq<u8>)
    requires has_a(), has_f(), b.len() <= usize::MAX,
    ensures answers(ab_id(b), ab_args(b), b), ab_args(b).len() == 1 || ab_args(b).len() == 2, ab_cut(b).len() <= b.len(),
{
    let p = if high(b) { 255u8 } else { 0u8 };
    front_run_bound(b, p);
    let c = ab_cut(b);
    assert(fill(p, b.len() - c.len()) + c =~= b);
    dec_num(b.len() as int, usize::MAX as int); dec_reads(b.len() as int);
    assert(num(dec(b.len() as int)) == Some(b.len() as usize));
    if high(b) { assert(rd_f(ab_args(b)) == Some(b)); } else { assert(rd_a(ab_args(b)) == Some(b)); }
}
proof fn print_short(b: Seq<u8>) ensures print(b).len() <= 4 * b.len() decreases b.len() { if b.len() > 0 { print_short(b.drop_last()); } }
proof fn dec_short(n: int) requires 0 <= n < 1_0000_0000 ensures dec(n).len() <= 8 { reveal_with_fuel(dec, 9); }
/// AS AN EXPRESSION, A TREE OR A TEXT, IT EVALUATES BACK TO ITSELF
pub fn round_ab<const L: usize>(v: AB<[u8; L]>, scope: &mut Sc) -> (r: AB<[u8; L]>)
    requires has_a(), has_f(),
    ensures r.0@ == v.0@,
{
    let ghost b = v.0@;
    let mut t = vec![];
    v.write_abe(&mut t);
    proof { assert(tvs(Seq::<ABE>::empty()) + raw_call(ab_id(b), ab_args(b)) =~= raw_call(ab_id(b), ab_args(b))); ab_back(b); raw_gives(ab_id(b), ab_args(b), b); raw_nests(ab_id(b), ab_args(b)); assert(left_padded(b, 0, L as int) =~= b); }
    tree_round_trip_::<AB<[u8; L]>>(t, scope, Ghost(b), Ghost(b))
}
pub fn round_text_ab<const L: usize>(v: AB<[u8; L]>, scope: &mut Sc) -> (r: AB<[u8; L]>)
    requires has_a(), has_f(), L < 1_0000_0000,
    ensures r.0@ == v.0@,
{
    let ghost b = v.0@;
    let t = v.to_abe_str();
    let ghost a = ab_args(b);
    proof {
        ab_back(b); assert(left_padded(b, 0, L as int) =~= b); print_short(ab_cut(b)); print_short(ab_id(b)); dec_short(b.len() as int); print_short(dec(b.len() as int));
        call1(ab_id(b), ab_cut(b)); call2(ab_id(b), ab_cut(b), dec(b.len() as int));
    }
    text_round_trip_::<AB<[u8; L]>>(t.as_bytes(), scope, Ghost(ab_id(b)), Ghost(a), Ghost(b), Ghost(b))
}
// ---------------------------------------------------------------- base64
/// ASSUMED: the base64 crate's url safe alphabet without padding: four characters for each three bytes, and one text for each byte string
#[verifier::external_body]
pub broadcast proof fn b64_lengths(v: Seq<u8>)
    ensures #[trigger] b64(true, v).len() == (4 * v.len() + 2) / 3,
{ }
#[verifier::external_body]
pub broadcast proof fn b64_canonical(s: Seq<u8>)
    ensures #[trigger] unb64(true, s) matches Some(v) ==> b64(true, v) == s,
{ }
/// ASSUMED: decode_slice_unchecked, given room for as many bytes as that many characters can hold
#[verifier::external_body]
pub fn b64_decode_slice<const N: usize>(s: &[u8], out: &mut [u8; N]) -> (r: Result<usize, DecErr>)
    requires N >= s@.len() * 3 / 4,
    ensures match r { Ok(n) => unb64(true, s@) matches Some(v) && v.len() == n && n <= N && final(out)@.take(n as int) == v, Err(_) => unb64(true, s@) is None },
{ unimplemented!() }
/// usize::div_ceil
pub fn div_ceil_(n: usize, d: usize) -> (r: usize) requires 1 <= d <= 4, n <= usize::MAX - 4 ensures r as int == (n + d - 1) / d as int { (n + d - 1) / d }
pub fn assert_(b: bool) requires b { }
pub fn invalid_byte(n: usize, c: Ctr) -> DecErr { DecErr }
/// what a text of the one length gives
pub open spec fn b64_of(s: Seq<u8>, n: int) -> Option<Seq<u8>> { if s.len() == (4 * n + 2) / 3 { unb64(true, s) } else { None } }
proof fn b64_of_len(s: Seq<u8>, n: int)
    requires n >= 0,
    ensures b64_of(s, n) matches Some(v) ==> v.len() == n, s.len() == (4 * n + 2) / 3 ==> s.len() * 3 / 4 == n,
{ if let Some(v) = b64_of(s, n) { b64_canonical(s); b64_lengths(v); } }
impl<const N: usize> B64<[u8; N]> {
//@fn crates/byte-fmt/src/lib.rs parse_str in impl<const N: usize> B64<\[u8; N\]> \{
//@pre impl AsRef<\[u8\]> => &[u8] ## AsRef of bytes is the bytes
//@pre st\.as_ref\(\) => st ## AsRef of bytes is the bytes
//@pre base64::DecodeError::\w+ => DecErr ## the error value
//@pre base64::DecodeError => DecErr ## the error value
//@pre (\([^()]*\))\.div_ceil\((\w+)\) => div_ceil_(\1, \2) ## by its contract
//@pre BASE64_URL_SAFE_NO_PAD\.decode_slice_unchecked\( => b64_decode_slice( ## base64 by its contract
//@pre debug_assert!\( => assert_( ## a debug assertion is an obligation
//@ret r
//@contract
    requires N * 4 + 4 <= usize::MAX,
    ensures match r { Ok(v) => b64_of(st@, N as int) == Some(v.0@), Err(_) => b64_of(st@, N as int) is None },
//@after \{
    proof { b64_of_len(st@, N as int); assert forall|x: Seq<u8>| x.len() == N implies #[trigger] x.take(N as int) == x by { assert(x.take(N as int) =~= x); } }
//@end
//@fn crates/byte-fmt/src/lib.rs try_fit_slice in impl<const N: usize> B64<\[u8; N\]> \{
//@pre abe::fit\(slice\)\.map\(B64\) => (match fit::<N>(slice) { Ok(o_) => Ok(B64(o_)), Err(e_) => Err(e_) }) ## map by its defining match
//@ret r
//@contract
    ensures match r { Ok(v) => slice@.len() == N && v.0@ == slice@, Err(_) => slice@.len() != N },
//@end
//@fn crates/byte-fmt/src/lib.rs try_fit_bytes_or_b64 in impl<const N: usize> B64<\[u8; N\]> \{
//@pre B64Error => DecErr ## the error value
//@pre map_err\(\|_\| => map_err(|_e: FitSliceErr| ## closure annotated
//@ret r
//@contract
    requires N * 4 + 4 <= usize::MAX,
    ensures match r { Ok(v) => bytes_or_b64(slice@, N as int) == Some(v.0@), Err(_) => bytes_or_b64(slice@, N as int) is None },
//@end
//@block crates/byte-fmt/src/lib.rs impl<const N: usize> FromStr for B64<\[u8; N\]> \{\s*type Err = base64::DecodeError;\s*fn from_str\(s: &str\) -> Result<Self, Self::Err> => pub fn from_str(s: &[u8]) -> Result<Self, DecErr>
//@ret r
//@contract
    requires N * 4 + 4 <= usize::MAX,
    ensures match r { Ok(v) => b64_of(s@, N as int) == Some(v.0@), Err(_) => b64_of(s@, N as int) is None },
//@end
/// TEXT READS BACK
pub fn text_round_trip(v: Self) -> (r: Self)
    requires N * 4 + 4 <= usize::MAX,
    ensures r.0@ == v.0@,
{
    let mut f = Text::new();
    v.fmt(&mut f);
    proof { assert(f@ =~= b64(true, v.0@)); b64_inverse(true, v.0@); b64_lengths(v.0@); }
    match Self::from_str(f.as_bytes()) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() }
}
}
/// the bytes themselves, or their base64
pub open spec fn bytes_or_b64(s: Seq<u8>, n: int) -> Option<Seq<u8>> { if b64_of(s, n) is Some { b64_of(s, n) } else if s.len() == n { Some(s) } else { None } }
impl B64<Vec<u8>> {
//@fn crates/byte-fmt/src/lib.rs parse_str in impl B64<Vec<u8>> \{
//@pre impl AsRef<\[u8\]> => &[u8] ## AsRef of bytes is the bytes
//@pre B64Error => ApplyErr ## the error value
//@pre map\(B64\) => map(|v_: Vec<u8>| -> (q: B64<Vec<u8>>) ensures q.0 == v_ { B64(v_) }) ## closure written out
//@ret r
//@contract
    ensures match r { Ok(x) => unb64(true, v@) == Some(x.0@), Err(_) => unb64(true, v@) is None },
//@end
}
impl<N: Bs> B64<N> {
//@fn crates/byte-fmt/src/lib.rs b64 in impl<N> B64<N>\s*where\s*Self: AsRef<\[u8\]>,
//@pre -> String => -> Text ## text as its bytes
//@ret r
//@contract
    ensures r@ == b64(true, self.bv()),
//@end
//@fn crates/byte-fmt/src/lib.rs fmt in impl<N> Display for B64<N>
//@pre base64_crate::display::Base64Display::new\(self\.as_ref\(\), &BASE64_URL_SAFE_NO_PAD\)\.fmt\(f\) => f.append_(b64_encode(true, self.as_ref())) ## Base64Display prints what encode gives
//@pre fmt::Formatter<'_> => Text ## text as its bytes
//@pre -> fmt::Result =>  ## no failure
//@pre fn fmt => pub fn fmt ## trait method as a function
//@contract
    ensures final(f)@ == old(f)@ + b64(true, self.bv()),
//@end
//@fn crates/byte-fmt/src/lib.rs write_abe in impl<N> ToABE for B64<N>
//@pre fn write_abe\(&self, out: &mut dyn FnMut\(ABE\)\) => pub fn write_abe(&self, out: &mut Vec<ABE>) ## a consumer of items, as the items it was given
//@pre (abe::abe!\((?:[^()]|\((?:[^()]|\((?:[^()]|\(\))*\))*\))*\))\.for_each\(out\) => each_item(\1, out) ## for_each, as its loop
//@abe
//@contract
    ensures tvs(final(out)@) == tvs(old(out)@) + raw_call(id_b(), seq![b64(true, self.bv())]),
//@after \{
    proof { raw1(id_b(), b64(true, self.bv())); assert([98u8]@ =~= id_b()); broadcast use tvs_small; }
//@end
//@fn crates/byte-fmt/src/lib.rs to_abe_str in impl<N> ToABE for B64<N>
//@pre fn to_abe_str\(&self\) -> String => pub fn to_abe_str(&self) -> Text ## text as its bytes
//@format
//@ret r
//@contract
    ensures r@ == call_text(id_b(), seq![b64(true, self.bv())]),
//@after \{
    proof { let t = b64(true, self.bv()); b64_inverse(true, self.bv()); plain_print(id_b()); plain_print(t); call1(id_b(), t); }
//@end
}
impl<N: Bs> Shown for &B64<N> {
    open spec fn shown(&self) -> Seq<u8> { b64(true, self.bv()) }
    fn put(&self, out: &mut Vec<u8>) { let mut t = Text::new(); self.fmt(&mut t); assert(t@ =~= b64(true, self.bv())); out.extend_from_slice(t.v.as_slice()); }
}
/// wf lists begin with bytes or a delimiter
impl<const L: usize> Typed for B64<[u8; L]> {
    type Error = DecErr;
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
    open spec fn of(l: CL) -> Option<Seq<u8>> { match exact(l) { Some(b) => bytes_or_b64(b, L as int), None => None } }
    open spec fn room() -> bool { L * 4 + 4 <= usize::MAX }
    open spec fn shape(l: Seq<T>) -> bool { no_ctr(l) }
    fn check(b: &[ABE]) -> (r: Result<(), MatchError>) { check_b64(b) }
//@fn crates/byte-fmt/src/lib.rs try_from in impl<const L: usize> TryFrom<ABList> for B64<\[u8; L\]> \{
//@pre try_from\(value: ABList\) -> Result<Self, Self::Error> => try_from_(value: ABList) -> Result<Self, Self::Error> ## trait method as a function
//@pre map_err\(\|_\| => map_err(|_e: ApplyErr| -> (q: DecErr) requires exact(value@) is None, wf(value@) ## closure annotated
//@pre value\.first\(\)\.unwrap\(\) => first_(&value) ## the first component, if any
//@pre value\[1\] => value.0[1] ## Deref written out
//@pre DecodeError::InvalidByte\(0, \*c as u8\) => invalid_byte(0, *c) ## the error value
//@pre DecodeError::InvalidByte\(b\.len\(\), (.*?) as u8\) => invalid_byte(b.len(), \1) ## the error value
//@before let \(c, b\)
            proof { assert(value@.len() > 0); assert(value.0@[0].0 == value@[0].0); if value@.len() > 1 { assert(value.0@[1].0 == value@[1].0); } }
//@end
}
#[verifier::external_body]
pub fn first_(l: &ABList) -> (r: &(Option<Ctr>, Vec<u8>)) requires l@.len() > 0 ensures *r == l.0@[0] { &l.0[0] }
/// what a value gives as a list gives the value
pub fn list_round_b64<const L: usize>(v: B64<[u8; L]>) -> (r: B64<[u8; L]>)
    requires L * 4 + 4 <= usize::MAX,
    ensures r.0@ == v.0@,
{
    let ghost b = v.0@;
    let l = list_from_B64(v);
    proof { b64_exact(b); }
    match B64::<[u8; L]>::try_from_(l) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() }
}
/// n bytes are never the base64 of n bytes, but for none
proof fn b64_exact(b: Seq<u8>)
    ensures bytes_or_b64(b, b.len() as int) == Some(b),
{ b64_of_len(b, b.len() as int); if b.len() == (4 * b.len() + 2) / 3 { assert(b.len() == 0); if b64_of(b, 0) is Some { assert(b64_of(b, 0)->0 =~= b); } } }
proof fn b64_back(b: Seq<u8>)
    requires forall|s: Seq<u8>| #[trigger] unb64(true, s) is Some ==> answers(id_b(), seq![s], unb64(true, s)->0),
    ensures answers(id_b(), seq![b64(true, b)], b),
{ b64_inverse(true, b); }
pub fn round_b64<const L: usize>(v: B64<[u8; L]>, scope: &mut Sc) -> (r: B64<[u8; L]>)
    requires forall|s: Seq<u8>| #[trigger] unb64(true, s) is Some ==> answers(id_b(), seq![s], unb64(true, s)->0), L * 4 + 4 <= usize::MAX,
    ensures r.0@ == v.0@,
{
    let ghost b = v.0@;
    let ghost a = seq![b64(true, b)];
    let mut t = vec![];
    v.write_abe(&mut t);
    proof { assert(tvs(Seq::<ABE>::empty()) + raw_call(id_b(), a) =~= raw_call(id_b(), a)); b64_back(b); raw_gives(id_b(), a, b); raw_nests(id_b(), a); b64_exact(b);  }
    tree_round_trip_::<B64<[u8; L]>>(t, scope, Ghost(b), Ghost(b))
}
pub fn round_text_b64<const L: usize>(v: B64<[u8; L]>, scope: &mut Sc) -> (r: B64<[u8; L]>)
    requires forall|s: Seq<u8>| #[trigger] unb64(true, s) is Some ==> answers(id_b(), seq![s], unb64(true, s)->0), L < 1_0000_0000,
    ensures r.0@ == v.0@,
{
    let ghost b = v.0@;
    let ghost a = seq![b64(true, b)];
    let t = v.to_abe_str();
    proof { b64_back(b); b64_exact(b);  b64_lengths(b); b64_inverse(true, b); plain_print(b64(true, b)); plain_print(id_b()); call1(id_b(), b64(true, b)); }
    text_round_trip_::<B64<[u8; L]>>(t.as_bytes(), scope, Ghost(id_b()), Ghost(a), Ghost(b), Ghost(b))
}
