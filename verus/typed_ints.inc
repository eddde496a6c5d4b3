// ---------------------------------------------------------------- the integers
/// str::to_ascii_lowercase
pub open spec fn lower(c: u8) -> u8 { if 65 <= c && c <= 90 { (c + 32) as u8 } else { c } }
#[verifier::external_body]
pub fn ascii_lowercase(s: &[u8]) -> (r: Text) ensures r@ == s@.map_values(|c: u8| lower(c)) { unimplemented!() }
#[derive(Clone, Copy)]
pub struct TryFitSliceError;
pub struct ParseIntError;
/// what a reader of little endian numbers gives back
pub open spec fn id_lu() -> Seq<u8> { seq![108u8, 117] }
/// AS AN EXPRESSION, READ BY ITS FUNCTION: a scope that answers the function's name with what its reader gives (proved in units codec, bytes)
pub open spec fn has_be(id: Seq<u8>, n: nat) -> bool { forall|s: Seq<u8>| #[trigger] rd_be(s, n) is Some ==> answers(id, seq![s], rd_be(s, n)->0) }
pub open spec fn has_le(id: Seq<u8>, n: nat) -> bool { forall|s: Seq<u8>| #[trigger] rd_le(s, n) is Some ==> answers(id, seq![s], rd_le(s, n)->0) }
pub open spec fn has_lu() -> bool { forall|s: Seq<u8>| #[trigger] rd_lu(s) is Some ==> answers(id_lu(), seq![s], rd_lu(s)->0) }
/// ASSUMED: conversions between native integers and their bytes (std)
//@each N,W = u16, 2; u32, 4; u64, 8; u128, 16
#[verifier::external_body]
pub const fn to_be_bytes_{{N}}(v: {{N}}) -> (r: [u8; {{W}}]) ensures r@ == be(v as int, {{W}}) { v.to_be_bytes() }
#[verifier::external_body]
pub const fn to_le_bytes_{{N}}(v: {{N}}) -> (r: [u8; {{W}}]) ensures r@ == le(v as int, {{W}}) { v.to_le_bytes() }
#[verifier::external_body]
pub const fn from_be_bytes_{{N}}(b: [u8; {{W}}]) -> (r: {{N}}) ensures r as int == val(b@) { {{N}}::from_be_bytes(b) }
#[verifier::external_body]
pub const fn from_le_bytes_{{N}}(b: [u8; {{W}}]) -> (r: {{N}}) ensures r as int == val(rev(b@)) { {{N}}::from_le_bytes(b) }
/// ASSUMED: FromStr of unsigned integers (std)
#[verifier::external_body]
pub fn from_str_{{N}}(s: &[u8]) -> (r: Result<{{N}}, ParseIntError>)
    ensures match r { Ok(v) => num_r(s@, 10, {{N}}::MAX as int) == Some(v as int), Err(_) => num_r(s@, 10, {{N}}::MAX as int) is None },
{ unimplemented!() }
//@endeach
/// the value of stored bytes, and the bytes of a value
pub open spec fn num_be(b: Seq<u8>) -> int { val(b) }
pub open spec fn num_le(b: Seq<u8>) -> int { val(rev(b)) }
proof fn le_val(b: Seq<u8>) ensures le(num_le(b), b.len()) == b { be_val(rev(b)); assert(rev(rev(b)) =~= b); assert(rev(b).len() == b.len()); }
proof fn val_le(v: int, n: nat) requires 0 <= v < p256(n) ensures num_le(le(v, n)) == v, le(v, n).len() == n { val_be(v, n); assert(rev(rev(be(v, n))) =~= be(v, n)); }
pub open spec fn p10(k: nat) -> int decreases k { if k == 0 { 1 } else { 10 * p10((k - 1) as nat) } }
proof fn dec_len(n: int, k: nat) requires 0 <= n < p10(k), k > 0 ensures dec(n).len() <= k decreases k
{ if n >= 10 { assert(p10(k) == 10 * p10((k - 1) as nat)); if k == 1 { reveal_with_fuel(p10, 2); } dec_len(n / 10, (k - 1) as nat); } }
/// a number's call is a short text
proof fn call_short(id: Seq<u8>, n: int, w: nat)
    requires 0 <= n < p256(w), w <= 16, forall|i: int| 0 <= i < id.len() ==> plain(#[trigger] id[i]),
    ensures call_text(id, seq![dec(n)]).len() <= id.len() + 42,
{
    p256_mono(w, 16); p16();
    assert(p10(39) > u128::MAX) by (compute);
    dec_len(n, 39); dec_plain(n); plain_print(id); call1(id, dec(n));
}
proof fn lu_reads(b: Seq<u8>)
    requires b.len() <= 16,
    ensures rd_lu(dec(num_le(b))) == Some(cut_back(b, 0)),
{
    let r = rev(b); assert(rev(r) =~= b);
    val_bound(r); p256_mono(b.len(), 16); dec_num(val(r), p256(16) - 1); be_val(r); be_wide(val(r), r.len(), 16);
    assert(be(val(r), 16) =~= left_padded(r, 0, 16));
    assert(rev(left_padded(r, 0, 16)) =~= right_padded(b, 16));
    strip_right(b, 16);
}
//@each T,N,W,E,I,X,M = U16, u16, 2, be, seq![117u8 @49 @54], 85u8 @49 @54, big; U32, u32, 4, be, seq![117u8 @51 @50], 85u8 @51 @50, big; U64, u64, 8, be, seq![117u8 @54 @52], 85u8 @54 @52, big; U128, u128, 16, be, seq![117u8 @49 @50 @56], 85u8 @49 @50 @56, big; LU16, u16, 2, le, seq![108u8 @117 @49 @54], 76u8 @85 @49 @54, little; LU32, u32, 4, le, seq![108u8 @117 @51 @50], 76u8 @85 @51 @50, little; LU64, u64, 8, le, seq![108u8 @117 @54 @52], 76u8 @85 @54 @52, little; LU128, u128, 16, le, seq![108u8 @117 @49 @50 @56], 76u8 @85 @49 @50 @56, little
#[derive(Clone, Copy)]
pub struct {{T}}(pub [u8; {{W}}]);
//@need crates/byte-fmt/src/endian_types.rs (?m)^{{M}}_endian!\({{T}}, {{N}}, {{W}}, 
//@need crates/byte-fmt/src/endian_types.rs macro_rules! {{M}}_endian \{\s*\(\s*\$name:ident,\s*\$native:ident,\s*\$size:expr,\s*\$alt_endian:ident\) => \{\s*endian_number!\s*\(\s*\$name,\s*\$native,\s*\$size,\s*to_{{E}}_bytes,\s*from_{{E}}_bytes,\s*\$alt_endian,?\s*\)
impl {{T}} {
//@fn crates/byte-fmt/src/endian_types.rs new in impl \$name \{
//@pre \$name => {{T}} ## macro parameter
//@pre val\.\$to_bytes\( => to_{{E}}_bytes_{{N}}(val ## macro parameter; by its contract
//@pre \$native => {{N}} ## macro parameter
//@ret r
//@contract
    ensures r.0@ == {{E}}(val as int, {{W}}),
//@end
//@fn crates/byte-fmt/src/endian_types.rs get in impl \$name \{
//@pre \$native::\$from_bytes => from_{{E}}_bytes_{{N}} ## macro parameter; by its contract
//@pre \$native => {{N}} ## macro parameter
//@ret r
//@contract
    ensures r as int == num_{{E}}(self.0@), 0 <= num_{{E}}(self.0@) < p256({{W}}),
//@after \{
    proof { widths(); }
//@end
//@fn crates/byte-fmt/src/endian_types.rs from in impl From<\$native> for \$name \{
//@pre fn from\( => pub fn from_native( ## trait method as a function
//@pre \$name => {{T}} ## macro parameter
//@pre \$native => {{N}} ## macro parameter
//@ret r
//@contract
    ensures r.0@ == {{E}}(v as int, {{W}}),
//@end
/// as a tree: its name's function of its decimal form
//@fn crates/byte-fmt/src/endian_types.rs to_abe in impl ToABE for \$name\{
//@pre stringify!\(\$name\)\.to_ascii_lowercase\(\) => ascii_lowercase(&[{{X}}]) ## stringify written out; by its contract
//@pre \.to_string\(\) => .to_string_() ## by its contract
//@pre abe::ABE> => ABE> ## path
//@pre fn to_abe => pub fn to_abe ## trait method as a function
//@abe
//@ret r
//@contract
    ensures tvs(r@) == seq![call_tree(id_of_{{T}}(), seq![dec(num_{{E}}(self.0@))])],
//@after \{
    proof {
        widths();
        val_bound(self.0@); val_bound(rev(self.0@));
        let d = dec(num_{{E}}(self.0@)); dec_reads(num_{{E}}(self.0@)); raw1(id_of_{{T}}(), d);
        assert(([{{X}}]@).map_values(|c: u8| lower(c)) =~= id_of_{{T}}());
        broadcast use tvs_small;
    }
//@end
/// as text: std's Display of the native value
//@fn crates/byte-fmt/src/endian_types.rs fmt in impl Display for \$name\{
//@pre Display::fmt\(&self\.get\(\),f\) => f.append_(self.get().to_string_()) ## Display of the native integer, by its contract
//@pre std::fmt::Formatter<'_> => Text ## text as its bytes
//@pre -> std::fmt::Result =>  ## no failure
//@pre fn fmt => pub fn fmt ## trait method as a function
//@contract
    ensures final(f)@ == old(f)@ + dec(num_{{E}}(self.0@)),
//@end
//@fn crates/byte-fmt/src/endian_types.rs from_str in impl FromStr for \$name\{
//@pre <\$native>::from_str => from_str_{{N}} ## macro parameter; by its contract
//@pre map\(\$name::from\) => map(|v_: {{N}}| -> (q: {{T}}) ensures q.0@ == {{E}}(v_ as int, {{W}}) { {{T}}::from_native(v_) }) ## closure written out
//@pre Self::Err => ParseIntError ## trait method as a function
//@pre s: &str => s: &[u8] ## text as its bytes
//@pre fn from_str\( => pub fn from_str( ## trait method as a function
//@ret r
//@contract
    ensures match r { Ok(v) => num_r(s@, 10, p256({{W}}) - 1) matches Some(n) && v.0@ == {{E}}(n, {{W}}), Err(_) => num_r(s@, 10, p256({{W}}) - 1) is None },
//@after \{
    proof { widths(); }
//@end
/// TEXT READS BACK
pub fn text_round_trip(v: {{T}}) -> (r: {{T}})
    ensures r.0@ == v.0@,
{
    let mut f = Text::new();
    v.fmt(&mut f);
    proof { let n = num_{{E}}(v.0@); assert(f@ =~= dec(n)); val_bound(v.0@); val_bound(rev(v.0@)); dec_num(n, p256({{W}}) - 1); be_val(v.0@); le_val(v.0@); }
    match {{T}}::from_str(f.as_bytes()) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() }
}
}
impl Wr for {{T}} {
    open spec fn tree(&self) -> Seq<T> { seq![call_tree(id_of_{{T}}(), seq![dec(num_{{E}}(self.0@))])] }
    fn to_abe(&self) -> (r: Vec<ABE>) { {{T}}::to_abe(self) }
    fn write_abe(&self, out: &mut Vec<ABE>) { each_item({{T}}::to_abe(self), out) }
}
pub open spec fn id_of_{{T}}() -> Seq<u8> { {{I}} }
//@endeach
proof fn widths() ensures p256(1) == 0x100, p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000, p256(16) == u128::MAX + 1 { p16(); }

//@each T,N,W,I = U16, u16, 2, 0; U32, u32, 4, 0; U64, u64, 8, 0; U128, u128, 16, 0
//@block crates/byte-fmt/src/endian_types.rs impl From<\$name> for ABList \{\s*fn from\(value: \$name\) -> ABList => pub fn list_from_{{T}}(value: {{T}}) -> ABList
//@pre value\.0\.to_vec\(\)\.into\(\) => list_of(value.0.to_vec()) ## From as a function
//@ret r
//@contract
    ensures r@ == one(value.0@),
//@after \{
    proof { assert forall|v: Seq<u8>| v.len() == value.0@.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == value.0@[i]) implies #[trigger] one(v) == one(value.0@) by { assert(v =~= value.0@); } }
//@end
impl Typed for {{T}} {
    type Error = FitSliceErr;
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
    /// exactly the width
    open spec fn of(l: L) -> Option<Seq<u8>> { match exact(l) { Some(b) => if b.len() == {{W}} { Some(b) } else { None }, None => None } }
    open spec fn room() -> bool { true }
    open spec fn shape(l: Seq<T>) -> bool { no_ctr(l) }
    fn check(b: &[ABE]) -> (r: Result<(), MatchError>) { check_ints(b) }
//@fn crates/byte-fmt/src/endian_types.rs try_from in impl TryFrom<ABList> for \$name \{
//@pre try_from\(value: ABList\) -> Result<Self, Self::Error> => try_from_(value: ABList) -> Result<Self, Self::Error> ## trait method as a function
//@pre map_err\(\|_\| => map_err(|_e: ApplyErr| ## closure annotated
//@pre \$size => {{W}} ## macro parameter
//@pre abe::fit\(bytes\)\.map\(\$name\) => (match fit::<{{W}}>(bytes) { Ok(o_) => Ok({{T}}(o_)), Err(e_) => Err(e_) }) ## map by its defining match
//@end
}
/// AS AN EXPRESSION, A TREE OR A TEXT, IT EVALUATES BACK TO ITSELF
pub fn round_{{T}}(v: {{T}}, scope: &mut Sc) -> (r: {{T}})
    requires has_be(id_of_{{T}}(), {{W}}),
    ensures r.0@ == v.0@,
{
    proof { be_back_{{T}}(v); let d = dec(num_be(v.0@)); call_gives(id_of_{{T}}(), seq![d], v.0@); dec_reads(num_be(v.0@)); raw1(id_of_{{T}}(), d); raw_nests(id_of_{{T}}(), seq![d]); }
    tree_round_trip_::<{{T}}>(v.to_abe(), scope, Ghost(v.0@), Ghost(v.0@))
}
pub fn round_text_{{T}}(v: {{T}}, scope: &mut Sc) -> (r: {{T}})
    requires has_be(id_of_{{T}}(), {{W}}),
    ensures r.0@ == v.0@,
{
    let t = default_to_abe_str(&v);
    let ghost a = seq![dec(num_be(v.0@))];
    proof { be_back_{{T}}(v); let d = dec(num_be(v.0@)); call_is_text(id_of_{{T}}(), seq![d]); call_short(id_of_{{T}}(), num_be(v.0@), {{W}}); }
    text_round_trip_::<{{T}}>(t.as_bytes(), scope, Ghost(id_of_{{T}}()), Ghost(a), Ghost(v.0@), Ghost(v.0@))
}
proof fn be_back_{{T}}(v: {{T}})
    requires has_be(id_of_{{T}}(), {{W}}),
    ensures answers(id_of_{{T}}(), seq![dec(num_be(v.0@))], v.0@), 0 <= num_be(v.0@) < p256({{W}}),
{ let n = num_be(v.0@); val_bound(v.0@); dec_num(n, p256({{W}}) - 1); be_val(v.0@); assert(rd_be(dec(n), {{W}}) == Some(v.0@)); }
//@endeach
//@each T,N,W = LU16, u16, 2; LU32, u32, 4; LU64, u64, 8; LU128, u128, 16
impl {{T}} {
//@fn crates/byte-fmt/src/endian_types.rs try_fit_slice in impl \$name \{\s*#\[inline\(always\)\]\s*pub const fn try_fit_slice
//@pre pub const fn => pub fn ## const not needed
//@pre \$name => {{T}} ## macro parameter
//@pre abe::fit_front\( => fit_front::<{{W}}>( ## path; the length written out
//@ret r
//@contract
    ensures match r { Ok(v) => slice@.len() <= {{W}} && v.0@ == right_padded(slice@, {{W}}), Err(_) => slice@.len() > {{W}} },
//@end
/// as "lu": its decimal form
//@fn crates/byte-fmt/src/endian_types.rs lu_abe in impl \$name \{\s*#\[inline\(always\)\]\s*pub const fn try_fit_slice
//@pre \.to_string\(\) => .to_string_() ## by its contract
//@pre abe::ABE> => ABE> ## path
//@abe
//@ret r
//@contract
    ensures tvs(r@) == seq![call_tree(id_lu(), seq![dec(num_le(self.0@))])],
//@after \{
    proof {
        val_bound(rev(self.0@));
        let d = dec(num_le(self.0@)); dec_reads(num_le(self.0@)); raw1(id_lu(), d);
        assert([108u8, 117u8]@ =~= id_lu());
        broadcast use tvs_small;
    }
//@end
}
//@block crates/byte-fmt/src/endian_types.rs impl From<\$name> for ABList\{\s*fn from\(value : \$name\) -> ABList => pub fn list_from_{{T}}(value: {{T}}) -> ABList
//@pre abe::cut_ending_nulls2\(&value\.0\)\.to_vec\(\)\.into\(\) => list_of(cut_ending_nulls2(&value.0).to_vec()) ## path; From as a function
//@ret r
//@contract
    ensures r@ == one(cut_back(value.0@, 0)),
//@after \{
    proof {
        assert forall|v: Seq<u8>| stripped_back(value.0@, v) implies #[trigger] one(v) == one(cut_back(value.0@, 0)) by { stripped_is(value.0@, 0, v); }
        assert forall|v: Seq<u8>, w: Seq<u8>| v.len() == w.len() && (forall|i: int| 0 <= i < v.len() ==> v[i] == w[i]) implies #[trigger] one(v) == #[trigger] one(w) by { assert(v =~= w); }
    }
//@end
impl Typed for {{T}} {
    type Error = FitSliceErr;
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
    /// at most the width, the rest is zero
    open spec fn of(l: L) -> Option<Seq<u8>> { match exact(l) { Some(b) => if b.len() <= {{W}} { Some(right_padded(b, {{W}})) } else { None }, None => None } }
    open spec fn room() -> bool { true }
    open spec fn shape(l: Seq<T>) -> bool { no_ctr(l) }
    fn check(b: &[ABE]) -> (r: Result<(), MatchError>) { check_ints(b) }
//@fn crates/byte-fmt/src/endian_types.rs try_from in impl TryFrom<ABList> for \$name\{
//@pre try_from\(value: ABList\) -> Result<Self, Self::Error> => try_from_(value: ABList) -> Result<Self, Self::Error> ## trait method as a function
//@pre map_err\(\|_\| => map_err(|_e: ApplyErr| ## closure annotated
//@pre \$size => {{W}} ## macro parameter
//@pre \$name => {{T}} ## macro parameter
//@end
}
/// what a value gives as a list gives the value
pub fn list_round_{{T}}(v: {{T}}) -> (r: {{T}})
    ensures r.0@ == v.0@,
{
    let l = list_from_{{T}}(v);
    proof { pad_of_strip(v.0@, 0); back_run_bound(v.0@, 0); }
    match {{T}}::try_from_(l) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() }
}
/// AS AN EXPRESSION, A TREE OR A TEXT, IT EVALUATES BACK TO ITSELF
pub fn round_{{T}}(v: {{T}}, scope: &mut Sc) -> (r: {{T}})
    requires has_le(id_of_{{T}}(), {{W}}),
    ensures r.0@ == v.0@,
{
    proof { le_back_{{T}}(v); let d = dec(num_le(v.0@)); call_gives(id_of_{{T}}(), seq![d], v.0@); dec_reads(num_le(v.0@)); raw1(id_of_{{T}}(), d); raw_nests(id_of_{{T}}(), seq![d]); }
    tree_round_trip_::<{{T}}>(v.to_abe(), scope, Ghost(v.0@), Ghost(v.0@))
}
/// and as "lu"
pub fn round_lu_{{T}}(v: {{T}}, scope: &mut Sc) -> (r: {{T}})
    requires has_lu(),
    ensures r.0@ == v.0@,
{
    proof {
        let n = num_le(v.0@); let d = dec(n); val_bound(rev(v.0@)); lu_reads(v.0@); call_gives(id_lu(), seq![d], cut_back(v.0@, 0)); dec_reads(n); raw1(id_lu(), d); raw_nests(id_lu(), seq![d]);
        pad_of_strip(v.0@, 0); back_run_bound(v.0@, 0);
    }
    tree_round_trip_::<{{T}}>(v.lu_abe(), scope, Ghost(cut_back(v.0@, 0)), Ghost(v.0@))
}
pub fn round_text_{{T}}(v: {{T}}, scope: &mut Sc) -> (r: {{T}})
    requires has_le(id_of_{{T}}(), {{W}}),
    ensures r.0@ == v.0@,
{
    let t = default_to_abe_str(&v);
    let ghost a = seq![dec(num_le(v.0@))];
    proof { le_back_{{T}}(v); let d = dec(num_le(v.0@)); call_is_text(id_of_{{T}}(), seq![d]); call_short(id_of_{{T}}(), num_le(v.0@), {{W}}); }
    text_round_trip_::<{{T}}>(t.as_bytes(), scope, Ghost(id_of_{{T}}()), Ghost(a), Ghost(v.0@), Ghost(v.0@))
}
proof fn le_back_{{T}}(v: {{T}})
    requires has_le(id_of_{{T}}(), {{W}}),
    ensures answers(id_of_{{T}}(), seq![dec(num_le(v.0@))], v.0@), 0 <= num_le(v.0@) < p256({{W}}), right_padded(v.0@, {{W}}) == v.0@,
{ let n = num_le(v.0@); val_bound(rev(v.0@)); dec_num(n, p256({{W}}) - 1); le_val(v.0@); assert(rd_le(dec(n), {{W}}) == Some(v.0@)); assert(right_padded(v.0@, {{W}}) =~= v.0@); }
//@endeach
// ---------------------------------------------------------------- a byte
#[derive(Clone, Copy)]
//@item crates/byte-fmt/src/endian_types.rs pub struct U8\(
//@end
impl U8 {
//@fn crates/byte-fmt/src/endian_types.rs abe_bits in impl U8 \{
//@pre abe::ABE> => ABE> ## path
//@format
//@abe
//@ret r
//@contract
    ensures tvs(r@) == seq![call_tree(id_b2(), seq![bits(self.0)])],
//@after \{
    proof { raw1(id_b2(), bits(self.0)); assert([98u8, 50u8]@ =~= id_b2()); assert(Seq::<u8>::empty() + bits(self.0) =~= bits(self.0)); broadcast use tvs_small; }
//@end
//@fn crates/byte-fmt/src/endian_types.rs to_abe in impl ToABE for U8 \{
//@pre \.to_string\(\) => .to_string_() ## by its contract
//@pre abe::ABE> => ABE> ## path
//@pre fn to_abe => pub fn to_abe ## trait method as a function
//@abe
//@ret r
//@contract
    ensures tvs(r@) == seq![call_tree(id_u8(), seq![dec(self.0 as int)])],
//@after \{
    proof { let d = dec(self.0 as int); dec_reads(self.0 as int); raw1(id_u8(), d); assert([117u8, 56u8]@ =~= id_u8()); broadcast use tvs_small; }
//@end
}
impl Wr for U8 {
    open spec fn tree(&self) -> Seq<T> { seq![call_tree(id_u8(), seq![dec(self.0 as int)])] }
    fn to_abe(&self) -> (r: Vec<ABE>) { U8::to_abe(self) }
    fn write_abe(&self, out: &mut Vec<ABE>) { each_item(U8::to_abe(self), out) }
}
//@block crates/byte-fmt/src/endian_types.rs impl From<U8> for ABList \{\s*fn from\(val: U8\) -> Self => pub fn list_from_U8(val: U8) -> ABList
//@pre vec!\[val\.0\]\.into\(\) => list_of(vec![val.0]) ## From as a function
//@ret r
//@contract
    ensures r@ == one(seq![val.0]),
//@after \{
    proof { assert forall|v: Seq<u8>| v.len() == 1 && v[0] == val.0 implies #[trigger] one(v) == one(seq![val.0]) by { assert(v =~= seq![val.0]); } }
//@end
impl Typed for U8 {
    type Error = TryFitSliceError;
    open spec fn bytes(&self) -> Seq<u8> { seq![self.0] }
    open spec fn of(l: L) -> Option<Seq<u8>> { match exact(l) { Some(b) => if b.len() == 1 { Some(b) } else { None }, None => None } }
    open spec fn room() -> bool { true }
    open spec fn shape(l: Seq<T>) -> bool { no_ctr(l) }
    fn check(b: &[ABE]) -> (r: Result<(), MatchError>) { check_u8(b) }
//@fn crates/byte-fmt/src/endian_types.rs try_from in impl TryFrom<ABList> for U8 \{
//@pre try_from\(value: ABList\) => try_from_(value: ABList) ## trait method as a function
//@pre value\.as_exact_bytes\(\)\.unwrap_or_default\(\) => (match value.as_exact_bytes() { Ok(b_) => b_, Err(_) => &[] }) ## unwrap_or_default by its defining match
//@swap Err\(TryFitSliceError::Overflow \{ => Err(TryFitSliceError ## the error value
//@end
}
pub fn round_U8(v: U8, scope: &mut Sc) -> (r: U8)
    requires has_be(id_u8(), 1),
    ensures r == v,
{
    proof { u8_back(v); let d = dec(v.0 as int); call_gives(id_u8(), seq![d], seq![v.0]); dec_reads(v.0 as int); raw1(id_u8(), d); raw_nests(id_u8(), seq![d]); }
    let r = tree_round_trip_::<U8>(v.to_abe(), scope, Ghost(v.bytes()), Ghost(v.bytes()));
    proof { assert(r.bytes()[0] == v.bytes()[0]); }
    r
}
pub fn round_bits_U8(v: U8, scope: &mut Sc) -> (r: U8)
    requires forall|s: Seq<u8>| #[trigger] rd_bin(s, 2) is Some ==> answers(id_b2(), seq![s], rd_bin(s, 2)->0),
    ensures r == v,
{
    proof {
        let b = seq![v.0]; bits_val(b); assert(b.drop_last() =~= seq![]); reveal_with_fuel(all_bits, 2); assert(all_bits(b) =~= bits(v.0));
        bin_reads(b, bits(v.0), 2); call_gives(id_b2(), seq![bits(v.0)], b); raw1(id_b2(), bits(v.0)); raw_nests(id_b2(), seq![bits(v.0)]);
    }
    let r = tree_round_trip_::<U8>(v.abe_bits(), scope, Ghost(v.bytes()), Ghost(v.bytes()));
    proof { assert(r.bytes()[0] == v.bytes()[0]); }
    r
}
pub fn round_text_U8(v: U8, scope: &mut Sc) -> (r: U8)
    requires has_be(id_u8(), 1),
    ensures r == v,
{
    let t = default_to_abe_str(&v);
    let ghost a = seq![dec(v.0 as int)];
    proof { u8_back(v); call_is_text(id_u8(), a); widths(); call_short(id_u8(), v.0 as int, 1); }
    let r = text_round_trip_::<U8>(t.as_bytes(), scope, Ghost(id_u8()), Ghost(a), Ghost(v.bytes()), Ghost(v.bytes()));
    proof { assert(r.bytes()[0] == v.bytes()[0]); }
    r
}
proof fn u8_back(v: U8)
    requires has_be(id_u8(), 1),
    ensures answers(id_u8(), seq![dec(v.0 as int)], seq![v.0]),
{ widths(); dec_num(v.0 as int, p256(1) - 1); reveal_with_fuel(be, 2); assert(be(v.0 as int, 1) =~= seq![v.0]); assert(rd_be(dec(v.0 as int), 1) == Some(seq![v.0])); }
