// ---------------------------------------------------------------- encoding through a scope
/// what a scope's encoders give (the same each time they are asked)
pub uninterp spec fn scope_enc(id: Seq<u8>, o: Seq<T>, b: Seq<u8>) -> Enc;
/// THE HYPOTHESIS OF encode_abe: what an encoder of the scope gives evaluates, in that scope, to the bytes
pub open spec fn sound_scope() -> bool { forall|id: Seq<u8>, o: Seq<T>, b: Seq<u8>| b.len() <= usize::MAX ==> (#[trigger] scope_enc(id, o, b) matches Enc::Text(t) ==> evaluates(t, b) && t.len() <= i32::MAX) }
#[verifier::external_body]
pub struct Sc { _x: u8 }
impl Sc {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    #[verifier::external_body]
    pub fn try_encode(&self, id: &[u8], o: &[ABE], b: &[u8]) -> (r: ApplyResult<Text>) ensures enc_is(r, scope_enc(id@, tvs(o@), b@)) { unimplemented!() }
}
/// proved in unit eval
#[verifier::external_body]
pub fn eval(scope: &mut Sc, abe: &[ABE]) -> (r: Result<ABList, ApplyErr>)
    requires nests(tvs(abe@)) <= usize::MAX,
    ensures match ev_list(tvs(abe@), old(scope).log()) { RL::Done(l, g) => final(scope).log() == g && r is Ok && r->Ok_0@ == l, RL::Fail(g) => final(scope).log() == g && r is Err },
{ unimplemented!() }
/// proved in unit ast
#[verifier::external_body]
pub fn parse_abe_strict_b(st: &[u8]) -> (r: Result<Vec<ABE>, ApplyErr>)
    requires st@.len() <= i32::MAX,
    ensures parsed(st@, false, match r { Ok(v) => Some(tvs(v@)), Err(_) => None }),
{ unimplemented!() }
impl ABList {
    /// proved in unit ablist
    #[verifier::external_body]
    pub fn as_exact_bytes(&self) -> (r: Result<&[u8], ApplyErr>)
        ensures match r { Ok(b) => exact(self@) == Some(b@), Err(_) => exact(self@) is None },
    { unimplemented!() }
}
pub fn assert_same(a: &[u8], b: &[u8]) requires a@ == b@ { }
#[verifier::external_body]
pub fn debug_assertions() -> bool { unimplemented!() }
/// slice::split by its defining loop
pub struct Split<'a> { pub rest: Option<&'a [ABE]> }
pub open spec fn first_slash(o: Seq<T>, k: int) -> int decreases o.len() - k { if k >= o.len() { o.len() as int } else if o[k] is Slash { k } else { first_slash(o, k + 1) } }
/// the alternatives: the text between the slashes, never none
pub open spec fn alts(o: Seq<T>) -> Seq<Seq<T>> decreases o.len() {
    let k = first_slash(o, 0);
    if k >= o.len() || k < 0 { seq![o] } else { seq![o.take(k)] + alts(o.skip(k + 1)) }
}
proof fn first_is(o: Seq<T>, k: int)
    requires 0 <= k <= o.len(),
    ensures k <= first_slash(o, k) <= o.len(), first_slash(o, k) < o.len() ==> o[first_slash(o, k)] is Slash, forall|i: int| k <= i < first_slash(o, k) ==> !(#[trigger] o[i] is Slash),
    decreases o.len() - k,
{ if k < o.len() && !(o[k] is Slash) { first_is(o, k + 1); } }
impl<'a> Split<'a> {
    pub open spec fn left(self) -> Seq<Seq<T>> { match self.rest { None => seq![], Some(s) => alts(tvs(s@)) } }
    pub fn next(&mut self) -> (r: Option<&'a [ABE]>)
        ensures match r {
            None => old(self).rest is None && final(self).left() == old(self).left(),
            Some(s) => old(self).left() == seq![tvs(s@)] + final(self).left() && old(self).rest is Some && (final(self).rest matches Some(n) ==> n@.len() < old(self).rest->0@.len()),
        },
    {
        let s = match self.rest { None => { return None; } Some(s) => s };
        let mut k: usize = 0;
        proof { tvs_at(s@); }
        while k < s.len() && !is_fslash_(&s[k])
            invariant 0 <= k <= s@.len(), tvs(s@).len() == s@.len(), first_slash(tvs(s@), 0) == first_slash(tvs(s@), k as int),
                forall|i: int| #![trigger tvs(s@)[i]] #![trigger s@[i]] 0 <= i < s@.len() ==> tvs(s@)[i] == tv(s@[i]),
            decreases s@.len() - k,
        { k += 1; }
        proof { tvs_take(s@, k as int); if k < s@.len() { tvs_skip(s@, k + 1); assert(first_slash(tvs(s@), 0) == k); } else { assert(first_slash(tvs(s@), 0) == s@.len()); assert(s@.take(k as int) =~= s@); } }
        if k < s.len() { self.rest = Some(slice_from(s, k + 1)); assert(self.left() == alts(tvs(s@).skip(k + 1))); } else { self.rest = None; assert(seq![tvs(s@)] + Seq::<Seq<T>>::empty() =~= seq![tvs(s@)]); }
        Some(slice_to(s, k))
    }
}
pub fn slice_to<X>(s: &[X], k: usize) -> (r: &[X]) requires k <= s@.len() ensures r@ == s@.take(k as int) { &s[..k] }
pub fn slice_from<X>(s: &[X], k: usize) -> (r: &[X]) requires k <= s@.len() ensures r@ == s@.skip(k as int) { &s[k..] }
pub fn is_fslash_(a: &ABE) -> (r: bool) ensures r == (tv(*a) is Slash) { match a { ABE::Ctr(Ctr::FSlash) => true, _ => false } }
//@need crates/abe/src/ast.rs pub fn is_fslash\(&self\) -> bool \{\s*matches!\(self, ABE::Ctr\(Ctr::FSlash\)\)\s*\}
/// an alternative: the fallback to plain text, a function with its options, or neither
pub enum Alt { Plain, Fnc(Seq<u8>, Seq<T>), Bad }
pub open spec fn alt_of(a: Seq<T>) -> Alt {
    if a.len() == 0 { Alt::Plain }
    else if a.len() == 1 && a[0] is Colon { Alt::Fnc(seq![], seq![]) }
    else if a[0] is Bytes && a.len() == 1 { Alt::Fnc(a[0]->Bytes_0, seq![]) }
    else if a[0] is Bytes && a[1] is Colon { Alt::Fnc(a[0]->Bytes_0, a.skip(2)) }
    else { Alt::Bad }
}
/// the first alternative that gives a text
pub open spec fn sp_encode(alts: Seq<Seq<T>>, b: Seq<u8>, ignore: bool) -> Option<Seq<u8>> decreases alts.len() {
    if alts.len() == 0 { None } else { match alt_of(alts[0]) {
        Alt::Plain => Some(print(b)),
        Alt::Bad => None,
        Alt::Fnc(id, o) => match scope_enc(id, o, b) { Enc::Text(t) => Some(t), Enc::Bad if !ignore => None, _ => sp_encode(alts.skip(1), b, ignore) },
    } }
}
pub open spec fn encoded(o: Seq<T>, b: Seq<u8>, ignore: bool) -> Option<Seq<u8>> { if o.len() == 0 { None } else { sp_encode(alts(o), b, ignore) } }
/// WHAT ENCODING GIVES EVALUATES TO THE BYTES
pub proof fn encoded_sound(a: Seq<Seq<T>>, b: Seq<u8>, ignore: bool)
    requires sound_scope(), b.len() <= usize::MAX,
    ensures sp_encode(a, b, ignore) matches Some(t) ==> evaluates(t, b),
    decreases a.len(),
{
    if a.len() > 0 { match alt_of(a[0]) {
        Alt::Plain => { print_evaluates(b); }
        Alt::Fnc(id, o) => { match scope_enc(id, o, b) { Enc::Text(t) => {} _ => { encoded_sound(a.skip(1), b, ignore); } } }
        Alt::Bad => {}
    } }
}
proof fn nest_flat(t: T) ensures nest(t) <= flat(t).len() decreases t { if let T::Lst(l) = t { nests_flat(l); } }
proof fn nests_flat(l: Seq<T>) ensures nests(l) <= flats(l).len() decreases l { if l.len() > 0 { nests_flat(l.drop_last()); nest_flat(l.last()); } }
proof fn toks_short(s: Seq<u8>, lenient: bool)
    ensures toks(s, lenient) matches Some(t) ==> t.len() <= s.len(),
    decreases s.len(),
{
    match step(s, lenient) { Tok::Ctr(c) => { if s.len() > 0 { toks_short(s.skip(1), lenient); } } Tok::Byte(b, k) => { if 0 < k <= s.len() { toks_short(s.skip(k), lenient); } } _ => {} }
}
pub enum EncodeError { OptionError(ApplyErr), ParseError(ApplyErr), ScopeEncode(Text, ApplyErr), NoneFound }
//@fn crates/abe/src/eval.rs encode_abe
//@pre &dyn Scope => &mut Sc ## the scope as a value with a history
//@pre std::result::Result<String, => Result<Text, ## text as its bytes
//@pre options\.split\(\|v\| v\.is_fslash\(\)\) => Split { rest: Some(options) } ## slice split by its defining loop
//@pre for scope_opts in it \{ => while let Some(scope_opts) = it.next() { ## for by its defining loop
//@swap anyhow!\( => ApplyErr ## the error value
//@pre cfg!\(debug_assertions\) => debug_assertions() ## either
//@pre (?s)\.unwrap_or_else\(\|_\| panic!\([^;]*?\)\); => .expect("bug: encode-eval"); ## panic with a message
//@pre (?s)assert_eq!\((\w+),\s*(\w+),.*?\);\n => assert_same(\1, \2);\n ## assert_eq with a message
//@pre as_abtxt\(func_id\)\.to_string\(\) => as_abtxt(func_id) ## text as its bytes
//@slices
//@ret r
//@contract
    requires sound_scope(),
    ensures
        match r { Ok(t) => encoded(tvs(options@), bytes@, ignore_encoder_errors) == Some(t@), Err(_) => encoded(tvs(options@), bytes@, ignore_encoder_errors) is None },
        r matches Ok(t) ==> evaluates(t@, bytes@),
//@after \{
    proof { tvs_at(options@); assert(bytes@.len() == bytes.len()); encoded_sound(alts(tvs(options@)), bytes@, ignore_encoder_errors); }
//@before let \(func_id, args\)
        proof {
            let (o, l) = (tvs(scope_opts@), seq![tvs(scope_opts@)] + it.left());
            assert(l.skip(1) =~= it.left()); assert(l[0] == o);
            tvs_at(scope_opts@);
            assert(forall|i: int| 0 <= i < scope_opts@.len() ==> tv(#[trigger] scope_opts@[i]) == o[i]);
            if o.len() >= 2 { tvs_skip(scope_opts@, 2); }
        }
//@before match scope\.try_encode
        proof { assert(tvs(args@) =~= alt_of(tvs(scope_opts@))->Fnc_1); assert(func_id@ =~= alt_of(tvs(scope_opts@))->Fnc_0); assert(alt_of(tvs(scope_opts@)) == Alt::Fnc(func_id@, tvs(args@))); }
//@before if debug_assertions
                proof {
                    assert(bytes@.len() == bytes.len()); assert(st@ == scope_enc(func_id@, tvs(args@), bytes@)->Text_0); assert(evaluates(st@, bytes@));
                    assert forall|l: Seq<T>| #[trigger] flats(l) == toks(st@, false)->0 implies nests(l) <= st@.len() by { toks_short(st@, false); nests_flat(l); }
                    assert(forall|t: Seq<T>| #[trigger] flats(t) == toks(st@, false)->0 && normals(t) ==> ev_list(t, scope.log()) is Done && exact(ev_list(t, scope.log())->Done_0) == Some(bytes@));
                }
//@loop 1
        invariant
            sound_scope(), sp_encode(it.left(), bytes@, ignore_encoder_errors) == encoded(tvs(options@), bytes@, ignore_encoder_errors),
            encoded(tvs(options@), bytes@, ignore_encoder_errors) matches Some(t) ==> evaluates(t, bytes@),
        ensures encoded(tvs(options@), bytes@, ignore_encoder_errors) is None,
        decreases match it.rest { None => 0nat, Some(s) => s@.len() + 1 },
//@end
