// ---------------------------------------------------------------- std and the items proved in other units
//@item crates/abe/src/lib.rs pub struct FitSliceErr
//@end
pub struct MatchError;
pub struct DecErr;
#[verifier::external_body]
pub struct Sc { _x: u8 }
impl Sc { pub uninterp spec fn log(&self) -> Seq<Ev>; }
/// proved in unit eval
#[verifier::external_body]
pub fn eval(scope: &mut Sc, abe: &[ABE]) -> (r: Result<ABList, ApplyErr>)
    requires nests(tvs(abe@)) <= usize::MAX,
    ensures match ev_list(tvs(abe@), old(scope).log()) { RL::Done(l, g) => final(scope).log() == g && r is Ok && r->Ok_0@ == l, RL::Fail(g) => final(scope).log() == g && r is Err },
{ unimplemented!() }
/// proved in unit ast
#[verifier::external_body]
pub fn parse_abe_strict_b(st: &[u8]) -> (r: Result<Vec<ABE>, ApplyErr>)
    requires st@.len() <= i32::MAX,
    ensures parsed(st@, false, match r { Ok(v) => Some(tvs(v@)), Err(_) => None }),
{ unimplemented!() }
/// proved in unit abtxt: at most dest's length is written
#[verifier::external_body]
pub fn parse_abtxt_into(s: &[u8], dest: &mut [u8]) -> (r: Result<usize, ApplyErr>)
    ensures final(dest)@.len() == old(dest)@.len(),
        match r { Ok(n) => parse(s@) matches Some(v) && v.len() == n && n <= old(dest)@.len() && final(dest)@.take(n as int) == v, Err(_) => !(parse(s@) matches Some(v) && v.len() <= old(dest)@.len()) },
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_abtxt_upto_max(s: &[u8], max: usize) -> (r: Result<Vec<u8>, ApplyErr>)
    ensures match r { Ok(o) => parse(s@) == Some(o@) && o@.len() <= max, Err(_) => !(parse(s@) matches Some(v) && v.len() <= max) },
{ unimplemented!() }
impl ABList {
    /// proved in unit ablist
    #[verifier::external_body]
    pub fn as_exact_bytes(&self) -> (r: Result<&[u8], ApplyErr>)
        ensures match r { Ok(b) => exact(self@) == Some(b@), Err(_) => exact(self@) is None },
    { unimplemented!() }
}
//@fn crates/abe/src/eval.rs is_empty in impl ABList \{
//@pre &self => self_: &ABList ## method as a function
//@pre self\. => self_. ## method as a function
//@pre \.map\(\|v\| ([^()]*\(\))\) => .map(|v: &[u8]| -> (q: bool) ensures q == (v@.len() == 0) { \1 }) ## closure annotated
//@ret r
//@contract
    ensures r == (exact(self_@) == Some(Seq::<u8>::empty())),
//@after \{
    proof { assert forall|s: Seq<u8>| s.len() == 0 implies s =~= Seq::<u8>::empty() by {} if self_.0@.len() == 0 { assert(self_@.len() == 0); } }
//@end
/// the one component a list made of bytes has
pub open spec fn one(b: Seq<u8>) -> L { seq![(None::<Ctr>, b)] }
//@fn crates/abe/src/eval.rs from in impl From<Vec<u8>> for ABList \{
//@pre fn from\( => pub fn list_of( ## trait method as a function
//@pre -> Self => -> ABList ## trait method as a function
//@ret r
//@contract
    ensures r@ == one(value@),
//@after \{
    proof { assert(forall|v: Vec<u8>| v@ == value@ ==> lv(#[trigger] seq![(None::<Ctr>, v)]) =~= one(value@)); }
//@end
/// proved in unit fit
//@each N = fit_front
#[verifier::external_body]
pub fn fit_front<const L: usize>(slice: &[u8]) -> (r: Result<[u8; L], FitSliceErr>)
    ensures r is Ok <==> slice@.len() <= L, r matches Ok(v) ==> v@ == right_padded(slice@, L as int),
{ unimplemented!() }
//@endeach
#[verifier::external_body]
pub fn fit<const L: usize>(slice: &[u8]) -> (r: Result<[u8; L], FitSliceErr>)
    ensures r is Ok <==> slice@.len() == L, r matches Ok(v) ==> v@ == slice@,
{ unimplemented!() }
#[verifier::external_body]
pub fn fit_back<const FILL: u8, const L: usize>(slice: &[u8]) -> (r: Result<[u8; L], FitSliceErr>)
    ensures r is Ok <==> slice@.len() <= L, r matches Ok(v) ==> v@ == left_padded(slice@, FILL, L as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn cut_prefixeq<const BYTE: u8>(b: &[u8]) -> (r: &[u8]) ensures stripped_front(b@, BYTE, r@) { unimplemented!() }
// ---------------------------------------------------------------- the items abe! makes
/// what becomes a byte expression
pub trait IntoExpr: Sized { spec fn raw(&self) -> Seq<u8>; fn vec_(self) -> (r: Vec<u8>) ensures r@ == self.raw(); }
impl IntoExpr for Text { open spec fn raw(&self) -> Seq<u8> { self@ } fn vec_(self) -> (r: Vec<u8>) { self.v } }
impl<'a> IntoExpr for &'a [u8] { open spec fn raw(&self) -> Seq<u8> { self@ } fn vec_(self) -> (r: Vec<u8>) { let r = self.to_vec(); assert(r@ =~= self@); r } }
impl<const N: usize> IntoExpr for &[u8; N] { open spec fn raw(&self) -> Seq<u8> { self@ } fn vec_(self) -> (r: Vec<u8>) { let s: &[u8] = self; let r = s.to_vec(); assert(r@ =~= self@); r } }
pub fn abe_expr<B: IntoExpr>(b: B) -> (r: ABE) ensures tv(r) == T::Bytes(b.raw()) { ABE::Expr(Expr::Bytes(b.vec_())) }
pub fn abe_list(l: Vec<ABE>) -> (r: ABE) ensures tv(r) == T::Lst(tvs(l@)) { ABE::Expr(Expr::Lst(l)) }
//@need crates/abe/src/ast.rs fn from_iter<T: IntoIterator<Item = ABE>>\(iter: T\) -> Self \{\s*ABE::Expr\(Expr::Lst\(iter\.into_iter\(\)\.collect\(\)\)\)
//@need crates/abe/src/ast.rs fn from\(value: &str\) -> Self \{\s*Expr::Bytes\(value\.as_bytes\(\)\.to_vec\(\)\)
//@need crates/abe/src/ast.rs fn from\(value: String\) -> Self \{\s*Expr::Bytes\(value\.into_bytes\(\)\)
//@need crates/abe/src/ast.rs fn from\(value: &\[u8\]\) -> Self \{\s*Expr::Bytes\(value\.to_vec\(\)\)
/// a call, its arguments written out even when they are empty
pub open spec fn raw_args(a: Seq<Seq<u8>>) -> Seq<T> decreases a.len() { if a.len() == 0 { seq![] } else { raw_args(a.drop_last()).push(T::Colon).push(T::Bytes(a.last())) } }
pub open spec fn raw_call(id: Seq<u8>, a: Seq<Seq<u8>>) -> Seq<T> { seq![T::Lst(seq![T::Bytes(id)] + raw_args(a))] }
pub proof fn raw1(id: Seq<u8>, a: Seq<u8>) ensures raw_call(id, seq![a]) == seq![T::Lst(seq![T::Bytes(id), T::Colon, T::Bytes(a)])], a.len() > 0 ==> raw_call(id, seq![a]) == seq![call_tree(id, seq![a])]
{ reveal_with_fuel(raw_args, 2); reveal_with_fuel(arg_items, 2); assert(seq![a].drop_last() =~= seq![]); assert(seq![T::Bytes(id)] + raw_args(seq![a]) =~= seq![T::Bytes(id), T::Colon, T::Bytes(a)]); if a.len() > 0 { assert(arg_items(seq![a]) =~= raw_args(seq![a])); } }
pub proof fn raw2(id: Seq<u8>, a: Seq<u8>, b: Seq<u8>) ensures raw_call(id, seq![a, b]) == seq![T::Lst(seq![T::Bytes(id), T::Colon, T::Bytes(a), T::Colon, T::Bytes(b)])]
{ reveal_with_fuel(raw_args, 3); assert(seq![a, b].drop_last() =~= seq![a]); assert(seq![a].drop_last() =~= seq![]); assert(seq![T::Bytes(id)] + raw_args(seq![a, b]) =~= seq![T::Bytes(id), T::Colon, T::Bytes(a), T::Colon, T::Bytes(b)]); }
proof fn tvs_push(l: Seq<ABE>, x: ABE) ensures tvs(l.push(x)) == tvs(l).push(tv(x)) { assert(l.push(x).drop_last() =~= l); }
/// the vector of one bracket
pub proof fn tvs1(a: ABE) ensures tvs(seq![a]) == seq![tv(a)]
{ assert(seq![a] =~= Seq::<ABE>::empty().push(a)); tvs_push(seq![], a); assert(tvs(seq![a]) =~= seq![tv(a)]); }
pub proof fn tvs3(a: ABE, b: ABE, c: ABE) ensures tvs(seq![a, b, c]) == seq![tv(a), tv(b), tv(c)]
{ tvs1(a); assert(seq![a, b, c] =~= seq![a].push(b).push(c)); tvs_push(seq![a], b); tvs_push(seq![a].push(b), c); assert(tvs(seq![a, b, c]) =~= seq![tv(a), tv(b), tv(c)]); }
pub proof fn tvs5(a: ABE, b: ABE, c: ABE, d: ABE, e: ABE) ensures tvs(seq![a, b, c, d, e]) == seq![tv(a), tv(b), tv(c), tv(d), tv(e)]
{ tvs3(a, b, c); assert(seq![a, b, c, d, e] =~= seq![a, b, c].push(d).push(e)); tvs_push(seq![a, b, c], d); tvs_push(seq![a, b, c].push(d), e); assert(tvs(seq![a, b, c, d, e]) =~= seq![tv(a), tv(b), tv(c), tv(d), tv(e)]); }
pub broadcast proof fn tvs_small(l: Seq<ABE>)
    ensures #![trigger tvs(l)] l.len() == 1 ==> tvs(l) == seq![tv(l[0])], l.len() == 3 ==> tvs(l) == seq![tv(l[0]), tv(l[1]), tv(l[2])], l.len() == 5 ==> tvs(l) == seq![tv(l[0]), tv(l[1]), tv(l[2]), tv(l[3]), tv(l[4])],
{
    if l.len() == 1 { tvs1(l[0]); assert(l =~= seq![l[0]]); }
    if l.len() == 3 { tvs3(l[0], l[1], l[2]); assert(l =~= seq![l[0], l[1], l[2]]); }
    if l.len() == 5 { tvs5(l[0], l[1], l[2], l[3], l[4]); assert(l =~= seq![l[0], l[1], l[2], l[3], l[4]]); }
}
/// a tree that differs from the call only in empty byte components evaluates as it does
proof fn ev_raw(id: Seq<u8>, a: Seq<Seq<u8>>, log: Seq<Ev>)
    requires id.len() > 0,
    ensures ev_list(seq![T::Bytes(id)] + raw_args(a), log) == ev_list(seq![T::Bytes(id)] + arg_items(a), log),
    decreases a.len(),
{
    let b = seq![T::Bytes(id)];
    if a.len() > 0 {
        ev_raw(id, a.drop_last(), log); call_list(id, a.drop_last(), log);
        let (p, q) = (b + raw_args(a.drop_last()), b + arg_items(a.drop_last()));
        ev_push(p, T::Colon, log); ev_push(q, T::Colon, log);
        ev_push(p.push(T::Colon), T::Bytes(a.last()), log);
        assert(b + raw_args(a) =~= p.push(T::Colon).push(T::Bytes(a.last())));
        if a.last().len() > 0 { ev_push(q.push(T::Colon), T::Bytes(a.last()), log); assert(b + arg_items(a) =~= q.push(T::Colon).push(T::Bytes(a.last()))); }
        else {
            assert(b + arg_items(a) =~= q.push(T::Colon));
            let l = ev_list(q, log)->Done_0;
            let m = push_c(l, Ctr::Colon);
            assert(m.last().1 + a.last() =~= m.last().1);
            assert(push_b(m, a.last()) =~= m);
        }
    } else { assert(raw_args(a) =~= arg_items(a)); }
}
pub proof fn raw_gives(id: Seq<u8>, a: Seq<Seq<u8>>, b: Seq<u8>)
    requires id.len() > 0, 0 < a.len() < 16, answers(id, a, b),
    ensures tree_gives(raw_call(id, a), b),
{
    let (r, t) = (raw_call(id, a), seq![call_tree(id, a)]);
    call_gives(id, a, b);
    let (x, y) = (seq![T::Bytes(id)] + raw_args(a), seq![T::Bytes(id)] + arg_items(a));
    raw_len(a); arg_first(a);
    assert forall|log: Seq<Ev>| (#[trigger] ev_list(r, log)) is Done && exact(ev_list(r, log)->Done_0) == Some(b) by {
        ev_raw(id, a, log); call_list(id, a, log);
        assert(ev_list(t, log) is Done);
        assert(x[0] is Bytes && y[0] is Bytes); assert(x[1] == raw_args(a)[0]); assert(y[1] == arg_items(a)[0]);
        assert(ev_item(T::Lst(x), log) == ev_item(T::Lst(y), log));
        reveal_with_fuel(ev_list, 2);
        assert(r.drop_last() =~= seq![]); assert(t.drop_last() =~= seq![]);
        assert(ev_list(r, log) == ev_list(t, log));
    }
}
proof fn raw_len(a: Seq<Seq<u8>>)
    ensures raw_args(a).len() == 2 * a.len(), a.len() > 0 ==> raw_args(a)[0] is Colon,
    decreases a.len(),
{ if a.len() > 0 { raw_len(a.drop_last()); } }
proof fn raw_nests(id: Seq<u8>, a: Seq<Seq<u8>>)
    ensures nests(raw_call(id, a)) == 1,
{
    raw_args_nests(a);
    let x = seq![T::Bytes(id)] + raw_args(a);
    nests_flat_items(x);
    reveal_with_fuel(nests, 2);
    assert(raw_call(id, a).drop_last() =~= seq![]);
}
proof fn raw_args_nests(a: Seq<Seq<u8>>) ensures forall|i: int| 0 <= i < raw_args(a).len() ==> !(#[trigger] raw_args(a)[i] is Lst) decreases a.len()
{ if a.len() > 0 { raw_args_nests(a.drop_last()); } }
proof fn nests_flat_items(l: Seq<T>)
    requires forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i] is Lst),
    ensures nests(l) == 0,
    decreases l.len(),
{ if l.len() > 0 { assert forall|i: int| 0 <= i < l.len() - 1 implies !(#[trigger] l.drop_last()[i] is Lst) by { assert(!(l[i] is Lst)); } nests_flat_items(l.drop_last()); assert(!(l[l.len() - 1] is Lst)); assert(nest(l.last()) == 0); } }
proof fn nest_flat(t: T) ensures nest(t) <= flat(t).len() decreases t { if let T::Lst(l) = t { nests_flat(l); } }
proof fn nests_flat(l: Seq<T>) ensures nests(l) <= flats(l).len() decreases l { if l.len() > 0 { nests_flat(l.drop_last()); nest_flat(l.last()); } }
proof fn toks_short(s: Seq<u8>, lenient: bool)
    ensures toks(s, lenient) matches Some(t) ==> t.len() <= s.len(),
    decreases s.len(),
{
    match step(s, lenient) { Tok::Ctr(c) => { if s.len() > 0 { toks_short(s.skip(1), lenient); } } Tok::Byte(b, k) => { if 0 < k <= s.len() { toks_short(s.skip(k), lenient); } } _ => {} }
}
// ---------------------------------------------------------------- the shape check
/// no delimiter at the top level
pub open spec fn no_ctr(l: Seq<T>) -> bool { forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i] is Colon) && !(l[i] is Slash) }
//@fn crates/abe/src/ast.rs no_ctrs
//@pre VResult<&\[ABE\]> => Result<&[ABE], MatchError> ## error type
//@pre return ME::Unexpected\.atp_v\(e\) => return Err(MatchError) ## the error value
//@pre for e in a\.iter\(\) => for e in it: a ## iter of a slice
//@ret r
//@contract
    ensures match r { Ok(b) => b@ == a@ && no_ctr(tvs(a@)), Err(_) => !no_ctr(tvs(a@)) },
//@after \{
    proof { tvs_at(a@); }
//@loop 1
        invariant tvs(a@).len() == a@.len(), forall|i: int| #![trigger tvs(a@)[i]] #![trigger a@[i]] 0 <= i < a@.len() ==> tvs(a@)[i] == tv(a@[i]), forall|i: int| 0 <= i < it.index@ ==> !(#[trigger] tvs(a@)[i] is Colon) && !(tvs(a@)[i] is Slash),
//@before if matches!
        proof { let n = it.index@; assert(tv(*e) == tvs(a@)[n]); }
//@end
/// a shape check that refuses delimiters at the top level
pub open spec fn checks(r: Result<(), MatchError>, b: Seq<ABE>) -> bool { r is Ok == no_ctr(tvs(b)) }
//@each I,N = impl ABEValidator for \$name\{, ints; impl ABEValidator for U8 \{, u8
//@fn crates/byte-fmt/src/endian_types.rs check in {{I}}
//@pre fn check => pub fn check_{{N}} ## trait method as a function
//@pre abe::ast:: =>  ## path
//@pre abe::ABE => ABE ## path
//@ret r
//@contract
    ensures checks(r, b@),
//@end
//@endeach
//@each I,N = AB, ab; B64, b64
//@fn crates/byte-fmt/src/lib.rs check in impl<const L: usize> ABEValidator for {{I}}<\[u8; L\]> \{
//@pre fn check => pub fn check_{{N}} ## trait method as a function
//@ret r
//@contract
    ensures checks(r, b@),
//@end
//@endeach
// ---------------------------------------------------------------- writing as an expression: what ToABE's methods do unless a type says otherwise
/// a consumer of items, as the items it was given
pub fn each_item(l: Vec<ABE>, out: &mut Vec<ABE>) ensures tvs(final(out)@) == tvs(old(out)@) + tvs(l@)
{
    let mut l = l;
    let ghost o = out@; let ghost a = l@;
    out.append(&mut l);
    proof { tvs_at(out@); tvs_at(o); tvs_at(a); assert(out@ =~= o + a); assert(tvs(out@) =~= tvs(o) + tvs(a)); }
}
impl ABE {
    /// proved in unit ast (Display)
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Text) ensures r@ == text(tv(*self)) { unimplemented!() }
}
pub trait Wr {
    spec fn tree(&self) -> Seq<T>;
    fn to_abe(&self) -> (r: Vec<ABE>) ensures tvs(r@) == self.tree();
    fn write_abe(&self, out: &mut Vec<ABE>) ensures tvs(final(out)@) == tvs(old(out)@) + self.tree();
}
//@fn crates/abe/src/convert.rs to_abe_str in pub trait ToABE \{
//@pre fn to_abe_str\(&self\) -> String => pub fn default_to_abe_str<X: Wr>(self_: &X) -> Text ## default method as a function
//@pre String::new => Text::new ## text as its bytes
//@pre self\.write_abe\(&mut \|abe\| st\.push_str\(&(abe\.to_string\(\))\)\); => let mut v_ = vec![]; self_.write_abe(&mut v_); for abe in it: v_ { st.append_(\1); } ## the closure, called for each item by its defining loop
//@ret r
//@contract
    ensures r@ == texts(self_.tree()),
//@before for abe
        let ghost all = v_@;
        proof { tvs_at(all); assert(tvs(Seq::<ABE>::empty()) + self_.tree() =~= self_.tree()); assert(all.take(0) =~= seq![]); }
//@loop 1
        invariant st@ == texts(tvs(all.take(it.index@))), all == it.snapshot@.remaining(), all.take(all.len() as int) =~= all,
//@before st\.append_
        proof { let n = it.index@; assert(all.take(n + 1).drop_last() =~= all.take(n)); tvs_push(all.take(n), all[n]); assert(all.take(n + 1) =~= all.take(n).push(all[n])); texts_push(tvs(all.take(n)), tv(all[n])); }
//@end
//@fn crates/abe/src/convert.rs to_abe in pub trait ToABE \{
//@pre fn to_abe\(&self\) => pub fn default_to_abe<X: Wr>(self_: &X) ## default method as a function
//@pre self\.write_abe\(&mut \|abe\| v\.push\(abe\)\) => self_.write_abe(&mut v) ## a consumer of items, as the items it was given
//@ret r
//@contract
    ensures tvs(r@) == self_.tree(),
//@before v\s*\}$
        proof { assert(tvs(Seq::<ABE>::empty()) + self_.tree() =~= self_.tree()); }
//@end
//@fn crates/abe/src/convert.rs write_abe in pub trait ToABE \{
//@pre fn write_abe\(&self, out: &mut dyn FnMut\(ABE\)\) => pub fn default_write_abe<X: Wr>(self_: &X, out: &mut Vec<ABE>) ## default method as a function; a consumer of items, as the items it was given
//@pre self\.to_abe\(\)\.into_iter\(\)\.for_each\(out\) => each_item(self_.to_abe(), out) ## for_each, as its loop
//@contract
    ensures tvs(final(out)@) == tvs(old(out)@) + self_.tree(),
//@end
// ---------------------------------------------------------------- typed expressions
/// lists as evaluation makes them
pub type CL = L;
pub open spec fn wf(l: CL) -> bool { forall|i: int| 0 < i < l.len() ==> (#[trigger] l[i]).0 is Some }
pub proof fn ev_wf(t: Seq<T>, log: Seq<Ev>)
    ensures ev_list(t, log) matches RL::Done(l, _) ==> wf(l),
    decreases t.len(),
{ if t.len() > 0 { ev_wf(t.drop_last(), log); } }
pub enum ABEError<E> { Eval(ApplyErr), TryFrom(E), Parse(ApplyErr), MatchError(MatchError) }
/// a type values of which are made from lists
pub trait Typed: Sized {
    type Error;
    /// the value, as its bytes
    spec fn bytes(&self) -> Seq<u8>;
    spec fn of(l: L) -> Option<Seq<u8>>;
    /// sizes for which nothing overflows
    spec fn room() -> bool;
    fn try_from_(l: ABList) -> (r: Result<Self, Self::Error>)
        requires wf(l@), Self::room(),
        ensures match r { Ok(v) => Self::of(l@) == Some(v.bytes()), Err(_) => Self::of(l@) is None };
    spec fn shape(l: Seq<T>) -> bool;
    fn check(b: &[ABE]) -> (r: Result<(), MatchError>) ensures r is Ok == Self::shape(tvs(b@));
}
pub struct TypedABE<V>(pub Vec<ABE>, pub std::marker::PhantomData<V>);
//@need crates/abe/src/convert.rs pub struct TypedABE<V>\(pub Vec<ABE>, PhantomData<V>\);
pub open spec fn evs<A: Typed>(t: Seq<T>, log: Seq<Ev>) -> Option<Seq<u8>> { match ev_list(t, log) { RL::Done(l, _) => A::of(l), RL::Fail(_) => None } }
pub open spec fn after(t: Seq<T>, log: Seq<Ev>) -> Seq<Ev> { match ev_list(t, log) { RL::Done(_, g) => g, RL::Fail(g) => g } }
impl<A: Typed> TypedABE<A> {
//@fn crates/abe/src/convert.rs eval in impl<A: ABEValidator> TypedABE<A> \{
//@pre &dyn Scope => &mut Sc ## the scope as a value with a history
//@pre <A as TryFrom<ABList>>::Error => A::Error ## trait method as a function
//@pre ablst\.try_into\(\) => A::try_from_(ablst) ## trait method as a function
//@pre map_err\(ABEError::(\w+)\) => map_err(|e_| ABEError::\1(e_)) ## closure written out
//@ret r
//@contract
    requires nests(tvs(self.0@)) <= usize::MAX, A::room(),
    ensures final(scope).log() == after(tvs(self.0@), old(scope).log()),
        match r { Ok(v) => evs::<A>(tvs(self.0@), old(scope).log()) == Some(v.bytes()), Err(_) => evs::<A>(tvs(self.0@), old(scope).log()) is None },
//@after \{
    proof { ev_wf(tvs(self.0@), scope.log()); }
//@end
//@fn crates/abe/src/convert.rs eval_default in impl<A: ABEValidator> TypedABE<A> \{
//@pre &dyn Scope => &mut Sc ## the scope as a value with a history
//@pre <A as TryFrom<ABList>>::Error => A::Error ## trait method as a function
//@pre ablst\.try_into\(\) => A::try_from_(ablst) ## trait method as a function
//@pre ablst\.is_empty\(\) => is_empty(&ablst) ## method as a function
//@pre map_err\(ABEError::(\w+)\) => map_err(|e_| ABEError::\1(e_)) ## closure written out
//@ret r
//@contract
    requires nests(tvs(self.0@)) <= usize::MAX, A::room(),
    ensures final(scope).log() == after(tvs(self.0@), old(scope).log()),
        match ev_list(tvs(self.0@), old(scope).log()) {
            RL::Fail(_) => r is Err,
            RL::Done(l, _) => if exact(l) == Some(Seq::<u8>::empty()) { r == Ok::<A, ABEError<A::Error>>(default) } else { match r { Ok(v) => A::of(l) == Some(v.bytes()), Err(_) => A::of(l) is None } },
        },
//@after \{
    proof { ev_wf(tvs(self.0@), scope.log()); }
//@end
//@fn crates/abe/src/convert.rs from in impl<A: ABEValidator> TypedABE<A> \{
//@pre PhantomData => std::marker::PhantomData ## path
//@ret r
//@contract
    ensures match r { Ok(v) => A::shape(tvs(value@)) && v.0 == value, Err(_) => !A::shape(tvs(value@)) },
//@end
//@fn crates/abe/src/convert.rs unwrap in impl<A: ABEValidator> TypedABE<A> \{
//@ret r
//@contract
    ensures r == self.0,
//@end
//@fn crates/abe/src/convert.rs try_from in impl<O: ABEValidator> TryFrom<&\[u8\]> for TypedABE<O> \{
//@pre fn try_from => pub fn try_from_bytes ## trait method as a function
//@pre Self::Error => ABEError<A::Error> ## trait method as a function
//@pre O::check => A::check ## type parameter
//@pre PhantomData => std::marker::PhantomData ## path
//@pre map_err\(ABEError::(\w+)\) => map_err(|e_| ABEError::\1(e_)) ## closure written out
//@ret r
//@contract
    requires s@.len() <= i32::MAX,
    ensures match r {
        Ok(v) => parsed(s@, false, Some(tvs(v.0@))) && A::shape(tvs(v.0@)),
        Err(_) => parsed(s@, false, None) || exists|t: Seq<T>| #[trigger] parsed(s@, false, Some(t)) && !A::shape(t),
    },
//@end
//@need crates/abe/src/convert.rs fn from_str\(s: &str\) -> Result<Self, Self::Err> \{\s*s\.as_bytes\(\)\.try_into\(\)
}
/// A CALL'S TEXT, READ AND EVALUATED AS A TYPED EXPRESSION
pub proof fn typed_text(id: Seq<u8>, a: Seq<Seq<u8>>, b: Seq<u8>, r: Option<Seq<T>>)
    requires id.len() > 0, 0 < a.len() < 16, answers(id, a, b), parsed(call_text(id, a), false, r),
    ensures r is Some, r->0.len() == 1, r->0[0] is Lst, tree_gives(r->0, b),
{ call_scans(id, a); call_reads(id, a, r->0); call_gives(id, a, b); }
pub proof fn gives_of<A: Typed>(t: Seq<T>, b: Seq<u8>, v: Seq<u8>, log: Seq<Ev>)
    requires tree_gives(t, b), A::of(one(b)) == Some(v), A::of(Seq::<(Option<Ctr>, Seq<u8>)>::empty()) == A::of(one(Seq::<u8>::empty())),
    ensures evs::<A>(t, log) == Some(v),
{
    assert(ev_list(t, log) is Done);
    let l = ev_list(t, log)->Done_0;
    if l.len() == 0 { assert(l =~= seq![]); assert(b =~= Seq::<u8>::empty()); } else { assert(l =~= one(b)); }
}
/// WHAT IS WRITTEN AS AN EXPRESSION PASSES THE SHAPE CHECK AND EVALUATES BACK TO THE VALUE
pub fn tree_round_trip_<A: Typed>(t: Vec<ABE>, scope: &mut Sc, Ghost(b): Ghost<Seq<u8>>, Ghost(v): Ghost<Seq<u8>>) -> (r: A)
    requires A::room(), tree_gives(tvs(t@), b), A::of(one(b)) == Some(v), A::of(Seq::<(Option<Ctr>, Seq<u8>)>::empty()) == A::of(one(Seq::<u8>::empty())), A::shape(tvs(t@)), nests(tvs(t@)) <= usize::MAX,
    ensures r.bytes() == v,
{
    proof { gives_of::<A>(tvs(t@), b, v, old(scope).log()); }
    match TypedABE::<A>::from(t) { Ok(e) => match e.eval(scope) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() }, Err(_) => vstd::pervasive::unreached() }
}
/// AND SO DOES ITS TEXT
pub fn text_round_trip_<A: Typed>(t: &[u8], scope: &mut Sc, Ghost(id): Ghost<Seq<u8>>, Ghost(a): Ghost<Seq<Seq<u8>>>, Ghost(b): Ghost<Seq<u8>>, Ghost(v): Ghost<Seq<u8>>) -> (r: A)
    requires A::room(), id.len() > 0, 0 < a.len() < 16, answers(id, a, b), t@ == call_text(id, a), t@.len() <= i32::MAX, A::of(one(b)) == Some(v), A::of(Seq::<(Option<Ctr>, Seq<u8>)>::empty()) == A::of(one(Seq::<u8>::empty())), forall|l: Seq<T>| no_ctr(l) ==> #[trigger] A::shape(l),
    ensures r.bytes() == v,
{
    proof { assert forall|p: Seq<T>| #[trigger] parsed(t@, false, Some(p)) implies A::shape(p) by { typed_text(id, a, b, Some(p)); } if parsed(t@, false, None) { typed_text(id, a, b, None); } }
    match TypedABE::<A>::try_from_bytes(t) {
        Ok(e) => { proof { typed_text(id, a, b, Some(tvs(e.0@))); gives_of::<A>(tvs(e.0@), b, v, old(scope).log()); toks_short(t@, false); nests_flat(tvs(e.0@)); } match e.eval(scope) { Ok(x) => x, Err(_) => vstd::pervasive::unreached() } }
        Err(_) => vstd::pervasive::unreached(),
    }
}
