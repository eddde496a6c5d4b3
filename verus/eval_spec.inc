// ---------------------------------------------------------------- specification: evaluation
/// a call of the scope: a function with its arguments (and whether it is the first of its bracket), or a macro with its text
pub enum Ev { Func(Seq<u8>, Seq<Seq<u8>>, bool), Mac(Seq<u8>, Seq<T>) }
pub enum Ans { NoValue, Value(Seq<u8>), Err }
/// what a scope answers to the last call of a history: any function of the whole history
pub uninterp spec fn answer(h: Seq<Ev>) -> Ans;
pub enum I { Ctr(Ctr), Bytes(Seq<u8>) }
pub enum RI { Done(I, Seq<Ev>), Fail(Seq<Ev>) }
pub enum RL { Done(L, Seq<Ev>), Fail(Seq<Ev>) }
pub open spec fn push_v(l: L, i: I) -> L { match i { I::Ctr(c) => push_c(l, c), I::Bytes(b) => push_b(l, b) } }
/// the bytes of a bracket's text, not evaluated
pub open spec fn dump1(t: T) -> Seq<u8> decreases t {
    match t { T::Colon => seq![58u8], T::Slash => seq![47u8], T::Bytes(b) => b, T::Lst(l) => seq![91u8] + dump(l) + seq![93u8] }
}
pub open spec fn dump(l: Seq<T>) -> Seq<u8> decreases l {
    if l.len() == 0 { seq![] } else { dump(l.drop_last()) + dump1(l.last()) }
}
pub open spec fn bytes_of(l: L) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| l[i].1) }
pub open spec fn cat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { cat(s.drop_last()) + s.last() } }
/// how many components the next call takes: up to the next one that a '/' begins
pub open spec fn next_slash(l: L, k: int) -> int decreases l.len() - k {
    if k >= l.len() { k } else if l[k].0 == Some(Ctr::FSlash) { k } else { next_slash(l, k + 1) }
}
pub open spec fn group(l: L) -> int { next_slash(l, 1) }
/// a pipe of calls over evaluated components: each gets the previous result first; 16 components at most; a leading ':' is bytes
pub open spec fn calls(l: L, carry: Seq<u8>, log: Seq<Ev>) -> RI decreases l.len() {
    if l.len() == 0 { RI::Done(I::Bytes(carry), log) } else {
        let n = group(l);
        if !(0 < n <= l.len()) || n > 16 { RI::Fail(log) }
        else if l[0].0 == Some(Ctr::Colon) { calls(l.skip(n), cat(bytes_of(l.take(n))), log) }
        else {
            let first = l[0].0 is None;
            let rest = bytes_of(l.take(n)).skip(1);
            let log2 = log.push(Ev::Func(l[0].1, if first { rest } else { seq![carry] + rest }, first));
            match answer(log2) { Ans::Value(b) => calls(l.skip(n), b, log2), _ => RI::Fail(log2) }
        }
    }
}
pub open spec fn mac(id: Seq<u8>, l: Seq<T>, log: Seq<Ev>) -> RI {
    let log2 = log.push(Ev::Mac(id, l));
    match answer(log2) { Ans::Value(b) => RI::Done(I::Bytes(b), log2), _ => RI::Fail(log2) }
}
pub open spec fn is_lst(t: T) -> bool { t is Lst }
pub open spec fn is_expr(t: T) -> bool { t is Lst || t is Bytes }
pub open spec fn ev_item(t: T, log: Seq<Ev>) -> RI decreases t {
    match t {
        T::Colon => RI::Done(I::Ctr(Ctr::Colon), log),
        T::Slash => RI::Done(I::Ctr(Ctr::FSlash), log),
        T::Bytes(b) => RI::Done(I::Bytes(b), log),
        T::Lst(l) =>
            if l.len() > 0 && l[0] is Slash {
                if l.len() == 1 || l[1] is Lst { RI::Fail(log) }
                else if l[1] is Colon { RI::Done(I::Bytes(dump(l.skip(2))), log) }
                else if l[1] is Slash { mac(seq![], l.skip(1), log) }
                else { mac(l[1]->Bytes_0, l.skip(2), log) }
            } else if (l.len() > 0 && l[0] is Lst) || (l.len() == 2 && is_expr(l[0]) && is_expr(l[1])) { RI::Fail(log) }
            else { match ev_list(l, log) { RL::Fail(g) => RI::Fail(g), RL::Done(c, g) => calls(c, seq![], g) } },
    }
}
/// inside out, left to right
pub open spec fn ev_list(l: Seq<T>, log: Seq<Ev>) -> RL decreases l {
    if l.len() == 0 { RL::Done(seq![], log) } else { match ev_list(l.drop_last(), log) {
        RL::Fail(g) => RL::Fail(g),
        RL::Done(acc, g) => match ev_item(l.last(), g) { RI::Fail(h) => RL::Fail(h), RI::Done(i, h) => RL::Done(push_v(acc, i), h) },
    } }
}
pub open spec fn nest(t: T) -> int decreases t { match t { T::Lst(l) => 1 + nests(l), _ => 0 } }
pub open spec fn nests(l: Seq<T>) -> int decreases l {
    if l.len() == 0 { 0 } else { let a = nests(l.drop_last()); let b = nest(l.last()); if a > b { a } else { b } }
}
// ---------------------------------------------------------------- lemmas
proof fn nest_pos(t: T) ensures nest(t) >= 0 decreases t { if let T::Lst(l) = t { nests_pos(l); } }
proof fn nests_pos(l: Seq<T>) ensures nests(l) >= 0 decreases l { if l.len() > 0 { nests_pos(l.drop_last()); nest_pos(l.last()); } }
proof fn nests_in(l: Seq<T>, i: int) requires 0 <= i < l.len() ensures nest(l[i]) <= nests(l) decreases l.len()
{ if i < l.len() - 1 { nests_in(l.drop_last(), i); } }
proof fn tvs_at(l: Seq<ABE>)
    ensures tvs(l).len() == l.len(), forall|i: int| #![trigger tvs(l)[i]] #![trigger l[i]] 0 <= i < l.len() ==> tvs(l)[i] == tv(l[i]),
    decreases l.len(),
{ if l.len() > 0 { tvs_at(l.drop_last()); assert forall|i: int| 0 <= i < l.len() implies tvs(l)[i] == tv(l[i]) by { if i < l.len() - 1 { assert(l.drop_last()[i] == l[i]); assert(tvs(l.drop_last())[i] == tv(l[i])); } } } }
proof fn tvs_take(l: Seq<ABE>, n: int)
    requires 0 <= n <= l.len(), ensures tvs(l.take(n)) == tvs(l).take(n),
{ tvs_at(l); tvs_at(l.take(n)); assert(tvs(l.take(n)) =~= tvs(l).take(n)) by { assert forall|i: int| 0 <= i < n implies tvs(l.take(n))[i] == tvs(l).take(n)[i] by { assert(l.take(n)[i] == l[i]); } } }
proof fn tvs_skip(l: Seq<ABE>, n: int)
    requires 0 <= n <= l.len(), ensures tvs(l.skip(n)) == tvs(l).skip(n),
{ tvs_at(l); tvs_at(l.skip(n)); assert(tvs(l.skip(n)) =~= tvs(l).skip(n)) by { assert forall|i: int| 0 <= i < l.len() - n implies tvs(l.skip(n))[i] == tvs(l).skip(n)[i] by { assert(l.skip(n)[i] == l[i + n]); } } }
/// a failure is the failure of every longer list
proof fn fail_stays(l: Seq<T>, n: int, log: Seq<Ev>)
    requires 0 <= n <= l.len(), ev_list(l.take(n), log) is Fail,
    ensures ev_list(l, log) == ev_list(l.take(n), log),
    decreases l.len() - n,
{
    if n < l.len() {
        assert(l.take(n + 1).drop_last() =~= l.take(n));
        fail_stays(l, n + 1, log);
    } else { assert(l.take(n) =~= l); }
}
proof fn cat_pad(s: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| n <= i < s.len() ==> (#[trigger] s[i]).len() == 0,
    ensures cat(s) == cat(s.take(n)),
    decreases s.len(),
{
    if n == s.len() { assert(s.take(n) =~= s); } else {
        assert(s.last() =~= seq![]);
        cat_pad(s.drop_last(), n);
        assert(s.drop_last().take(n) =~= s.take(n));
        assert(cat(s) =~= cat(s.drop_last()));
    }
}
proof fn slash_at(l: L, k: int, n: int)
    requires 0 <= k <= n <= l.len(), forall|i: int| k <= i < n ==> (#[trigger] l[i]).0 != Some(Ctr::FSlash), n < l.len() ==> l[n].0 == Some(Ctr::FSlash),
    ensures next_slash(l, k) == n,
    decreases n - k,
{ if k < n { slash_at(l, k + 1, n); } }
