// ---------------------------------------------------------------- scopes: tables of functions and combinations
//@need crates/abe/src/eval.rs let lst = parse_abe_strict_b\(options\.as_bytes\(\)\)\.map_err\(EncodeError::ParseError\)\?;\s*encode_abe\(scope, bytes, &lst, ignore_encoder_errors\)
pub struct ScopeFuncInfo { pub id: Text, pub to_abe: bool }
/// a table entry's encoder, known by its place in the table
pub struct ToAbe { pub place: usize }
pub struct ScopeFunc { pub to_abe: ToAbe, pub info: ScopeFuncInfo }
pub uninterp spec fn entry_enc(place: usize, b: Seq<u8>, o: Seq<T>) -> Enc;
impl ToAbe {
    #[verifier::external_body]
    pub fn run(&self, b: &[u8], o: &[ABE]) -> (r: ApplyResult<Text>) ensures enc_is(r, entry_enc(self.place, b@, tvs(o@))) { unimplemented!() }
}
/// [u8] == [u8]
#[verifier::external_body]
pub fn same(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// the first entry with that name and an encoder decides
pub open spec fn table_enc(t: Seq<ScopeFunc>, id: Seq<u8>, o: Seq<T>, b: Seq<u8>) -> Enc decreases t.len() {
    if t.len() == 0 { Enc::No } else if t[0].info.to_abe && t[0].info.id@ == id { entry_enc(t[0].to_abe.place, b, o) } else { table_enc(t.skip(1), id, o, b) }
}
//@fn crates/abe/src/eval.rs try_encode in impl<T: EvalScopeImpl> Scope for EScope<T>
//@pre fn try_encode\(&self, => pub fn table_encode(funcs_: &[ScopeFunc], ## list_funcs() as the table it returns
//@pre for ScopeFunc \{ (\w+), (\w+), \.\. \} in self\.0\.list_funcs\(\) \{ => for sf_ in it: funcs_ { let ScopeFunc { \1, \2 } = sf_; ## pattern of the for as a let
//@pre info\.id\.as_bytes\(\) == id => same(info.id.as_bytes(), id) ## slice equality by its contract
//@pre return to_abe\(&self\.0, (\w+), (\w+)\) => return to_abe.run(\1, \2) ## function pointer as a table entry
//@pre ApplyResult<String> => ApplyResult<Text> ## text as its bytes
//@ret r
//@contract
    ensures enc_is(r, table_enc(funcs_@, id@, tvs(options@), bytes@)),
//@after let ScopeFunc \{[^;]*;
            proof { assert(funcs_@.skip(it.index@)[0] == *sf_); assert(funcs_@.skip(it.index@).skip(1) =~= funcs_@.skip(it.index@ + 1)); }
//@after \{
        proof { assert(funcs_@.skip(0) =~= funcs_@); }
//@loop 1
        invariant table_enc(funcs_@.skip(it.index@), id@, tvs(options@), bytes@) == table_enc(funcs_@, id@, tvs(options@), bytes@),
//@before AR::NoValue\s*\}\s*$
        proof { assert(funcs_@.skip(funcs_@.len() as int).len() == 0); }
//@end
impl<V> ApplyResult<V> {
//@fn crates/abe/src/eval.rs or_else in impl<V> ApplyResult<V>
//@ret r
//@contract
    requires self is NoValue ==> map.requires(()),
    ensures if self is NoValue { map.ensures((), r) } else { r == self },
//@end
}
pub open spec fn av(r: ApplyResult<Vec<u8>>) -> Ans { match r { ApplyResult::NoValue => Ans::NoValue, ApplyResult::Value(b) => Ans::Value(b@), ApplyResult::Err(_) => Ans::Err } }
/// a scope, as what it answers and how it encodes
pub trait Scope {
    spec fn ans(&self, id: Seq<u8>, a: Seq<Seq<u8>>, init: bool) -> Ans;
    spec fn mac(&self, id: Seq<u8>, l: Seq<T>) -> Ans;
    spec fn enc(&self, id: Seq<u8>, o: Seq<T>, b: Seq<u8>) -> Enc;
    fn try_apply_func(&self, id: &[u8], inp_and_args: &[&[u8]], init: bool) -> (r: ApplyResult<Vec<u8>>) ensures av(r) == self.ans(id@, views(inp_and_args@), init);
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE]) -> (r: ApplyResult<Vec<u8>>) ensures av(r) == self.mac(id@, tvs(abe@));
    fn try_encode(&self, id: &[u8], options: &[ABE], bytes: &[u8]) -> (r: ApplyResult<Text>) ensures enc_is(r, self.enc(id@, tvs(options@), bytes@));
}
pub open spec fn ans_or(x: Ans, y: Ans) -> Ans { if x is NoValue { y } else { x } }
pub open spec fn enc_or(x: Enc, y: Enc) -> Enc { if x is No { y } else { x } }
//@each H,I,ANS,MAC,ENC =  Scope for (), Scope for \(\), Ans::NoValue, Ans::NoValue, Enc::No; <A: Scope @B: Scope> Scope for (A @B), Scope for \(A @B\), ans_or(self.0.ans(id @a @init) @self.1.ans(id @a @init)), ans_or(self.0.mac(id @l) @self.1.mac(id @l)), enc_or(self.0.enc(id @o @b) @self.1.enc(id @o @b)); <A: Scope @B: Scope @C: Scope> Scope for (A @B @C), Scope for \(A @B @C\), ans_or(ans_or(self.0.ans(id @a @init) @self.1.ans(id @a @init)) @self.2.ans(id @a @init)), ans_or(ans_or(self.0.mac(id @l) @self.1.mac(id @l)) @self.2.mac(id @l)), enc_or(enc_or(self.0.enc(id @o @b) @self.1.enc(id @o @b)) @self.2.enc(id @o @b)); <A: Scope> Scope for &A, Scope for &A, (**self).ans(id @a @init), (**self).mac(id @l), (**self).enc(id @o @b); <A: Scope> Scope for Option<A>, Scope for Option<A>, match *self { Some(x) => x.ans(id @a @init) @None => Ans::NoValue }, match *self { Some(x) => x.mac(id @l) @None => Ans::NoValue }, match *self { Some(x) => x.enc(id @o @b) @None => Enc::No }
impl {{H}} {
    open spec fn ans(&self, id: Seq<u8>, a: Seq<Seq<u8>>, init: bool) -> Ans { {{ANS}} }
    open spec fn mac(&self, id: Seq<u8>, l: Seq<T>) -> Ans { {{MAC}} }
    open spec fn enc(&self, id: Seq<u8>, o: Seq<T>, b: Seq<u8>) -> Enc { {{ENC}} }
//@fn crates/abe/src/eval.rs try_apply_func in impl(?:<[^>]*>)? {{I}} \{
//@pre ,\s*_?scopes?: &dyn Scope,?\s*\) => ) ## the scope passed along is part of the scope
//@pre? ,\s*_?scopes?\) => ) ## the scope passed along is part of the scope
//@pre? \b_?(args|inpt_and_args)\b => inp_and_args ## parameter name
//@pre? \b_id\b => id ## parameter name
//@pre? \b_init\b => init ## parameter name
//@pre? \.or_else\(\|\| (self\.(\d)\.try_apply_func\([^()]*\))\) => .or_else(|| -> (q: ApplyResult<Vec<u8>>) ensures av(q) == self.\2.ans(id@, views(inp_and_args@), init) { \1 }) ## closure with its contract
//@pre? \.map\(\|x\| (x\.try_apply_func\([^()]*\))\) => .map(|x: &A| -> (q: ApplyResult<Vec<u8>>) ensures av(q) == x.ans(id@, views(inp_and_args@), init) { \1 }) ## closure with its contract
//@pre -> ApplyResult \{ => -> ApplyResult<Vec<u8>> { ## default type parameter
//@end
//@fn crates/abe/src/eval.rs try_apply_macro in impl(?:<[^>]*>)? {{I}} \{
//@pre ,\s*_?scopes?: &dyn Scope,?\s*\) => ) ## the scope passed along is part of the scope
//@pre? ,\s*_?scopes?\) => ) ## the scope passed along is part of the scope
//@pre? \b_id\b => id ## parameter name
//@pre? \b_abe\b => abe ## parameter name
//@pre? \.or_else\(\|\| (self\.(\d)\.try_apply_macro\([^()]*\))\) => .or_else(|| -> (q: ApplyResult<Vec<u8>>) ensures av(q) == self.\2.mac(id@, tvs(abe@)) { \1 }) ## closure with its contract
//@pre? \.map\(\|x\| (x\.try_apply_macro\([^()]*\))\) => .map(|x: &A| -> (q: ApplyResult<Vec<u8>>) ensures av(q) == x.mac(id@, tvs(abe@)) { \1 }) ## closure with its contract
//@pre -> ApplyResult \{ => -> ApplyResult<Vec<u8>> { ## default type parameter
//@end
//@fn crates/abe/src/eval.rs try_encode in impl(?:<[^>]*>)? {{I}} \{
//@pre? \b_id\b => id ## parameter name
//@pre? \b_options\b => options ## parameter name
//@pre? \b_bytes\b => bytes ## parameter name
//@pre? \.or_else\(\|\| (self\.(\d)\.try_encode\([^()]*\))\) => .or_else(|| -> (q: ApplyResult<Text>) ensures enc_is(q, self.\2.enc(id@, tvs(options@), bytes@)) { \1 }) ## closure with its contract
//@pre? \.map\(\|v\| (v\.try_encode\([^()]*\))\) => .map(|v: &A| -> (q: ApplyResult<Text>) ensures enc_is(q, v.enc(id@, tvs(options@), bytes@)) { \1 }) ## closure with its contract
//@pre ApplyResult<String> => ApplyResult<Text> ## text as its bytes
//@end
}
//@endeach
