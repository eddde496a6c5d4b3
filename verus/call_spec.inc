// ---------------------------------------------------------------- specification: the text of a call
/// [id:arg:arg..]
pub open spec fn call_args(a: Seq<Seq<u8>>) -> Seq<u8> decreases a.len() { if a.len() == 0 { seq![] } else { call_args(a.drop_last()) + seq![58u8] + print(a.last()) } }
pub open spec fn call_text(id: Seq<u8>, a: Seq<Seq<u8>>) -> Seq<u8> { seq![91u8] + print(id) + call_args(a) + seq![93u8] }
pub open spec fn arg_items(a: Seq<Seq<u8>>) -> Seq<T> decreases a.len() {
    if a.len() == 0 { seq![] } else { let p = arg_items(a.drop_last()).push(T::Colon); if a.last().len() == 0 { p } else { p.push(T::Bytes(a.last())) } }
}
pub open spec fn call_tree(id: Seq<u8>, a: Seq<Seq<u8>>) -> T { T::Lst(seq![T::Bytes(id)] + arg_items(a)) }
/// the scope answers this call with those bytes, whatever it was asked before
pub open spec fn answers(id: Seq<u8>, a: Seq<Seq<u8>>, b: Seq<u8>) -> bool { forall|log: Seq<Ev>| #[trigger] answer(log.push(Ev::Func(id, a, true))) == Ans::Value(b) }
/// the bytes of a list without delimiters
pub open spec fn exact(l: L) -> Option<Seq<u8>> { if l.len() == 0 { Some(seq![]) } else if l.len() == 1 && l[0].0 is None { Some(l[0].1) } else { None } }
/// an expression evaluates to exactly these bytes, whatever was evaluated before
pub open spec fn tree_gives(t: Seq<T>, b: Seq<u8>) -> bool { forall|log: Seq<Ev>| (#[trigger] ev_list(t, log)) is Done && exact(ev_list(t, log)->Done_0) == Some(b) }
/// a text does
pub open spec fn evaluates(st: Seq<u8>, b: Seq<u8>) -> bool {
    toks(st, false) is Some && bal(toks(st, false)->0, 0) && forall|t: Seq<T>| normals(t) && #[trigger] flats(t) == toks(st, false)->0 ==> tree_gives(t, b)
}
// ---------------------------------------------------------------- lemmas
pub proof fn plain_print(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]),
    ensures print(s) == s,
    decreases s.len(),
{ if s.len() > 0 { plain_print(s.drop_last()); assert(print(s) =~= s); } else { assert(print(s) =~= s); } }
proof fn texts_push(l: Seq<T>, t: T) ensures texts(l.push(t)) == texts(l) + text(t) { assert(l.push(t).drop_last() =~= l); }
proof fn normals_push(l: Seq<T>, t: T)
    requires normals(l), normal(t), l.len() > 0 ==> !(l.last() is Bytes && t is Bytes),
    ensures normals(l.push(t)),
{ assert(l.push(t).drop_last() =~= l); }
proof fn call_prefix(id: Seq<u8>, a: Seq<Seq<u8>>)
    requires id.len() > 0,
    ensures ({ let l = seq![T::Bytes(id)] + arg_items(a); texts(l) == print(id) + call_args(a) && normals(l) && (a.len() > 0 && a.last().len() == 0 ==> l.last() is Colon) }),
    decreases a.len(),
{
    let b = seq![T::Bytes(id)];
    let l = b + arg_items(a);
    if a.len() == 0 {
        reveal_with_fuel(texts, 2); reveal_with_fuel(normals, 2);
        assert(b.drop_last() =~= seq![]);
        assert(l =~= b);
        assert(texts(l) =~= print(id) + call_args(a));
    } else {
        call_prefix(id, a.drop_last());
        let p = b + arg_items(a.drop_last());
        texts_push(p, T::Colon); normals_push(p, T::Colon);
        let q = p.push(T::Colon);
        if a.last().len() == 0 {
            assert(l =~= q);
            assert(a.last() =~= seq![]);
            assert(texts(l) =~= print(id) + call_args(a));
        } else {
            texts_push(q, T::Bytes(a.last())); normals_push(q, T::Bytes(a.last()));
            assert(l =~= q.push(T::Bytes(a.last())));
            assert(texts(l) =~= print(id) + call_args(a));
        }
    }
}
/// the text of a call reads as its tree, and as no other
pub proof fn call_reads(id: Seq<u8>, a: Seq<Seq<u8>>, t: Seq<T>)
    requires id.len() > 0, normals(t), flats(t) == toks(call_text(id, a), false)->0,
    ensures t == seq![call_tree(id, a)],
{
    call_scans(id, a);
    unique(t, seq![call_tree(id, a)], seq![], seq![]);
}
pub proof fn call_scans(id: Seq<u8>, a: Seq<Seq<u8>>)
    requires id.len() > 0,
    ensures ({ let s = toks(call_text(id, a), false); s == Some(flats(seq![call_tree(id, a)])) && bal(s->0, 0) && normals(seq![call_tree(id, a)]) }),
{
    let l = seq![T::Bytes(id)] + arg_items(a);
    call_prefix(id, a);
    let one = seq![T::Lst(l)];
    reveal_with_fuel(texts, 2); reveal_with_fuel(normals, 2);
    assert(one.drop_last() =~= seq![]);
    assert(texts(one) =~= call_text(id, a));
    toks_texts(one, seq![], false);
    assert(texts(one) + seq![] =~= texts(one));
    assert(flats(one) + seq![] =~= flats(one));
    bals_append(one, seq![], 0);
}
/// the text of a call is its tree, printed
pub proof fn call_is_text(id: Seq<u8>, a: Seq<Seq<u8>>)
    requires id.len() > 0,
    ensures texts(seq![call_tree(id, a)]) == call_text(id, a),
{
    call_prefix(id, a);
    let one = seq![call_tree(id, a)];
    reveal_with_fuel(texts, 2);
    assert(one.drop_last() =~= seq![]);
    assert(texts(one) =~= call_text(id, a));
}
proof fn ev_push(l: Seq<T>, t: T, log: Seq<Ev>)
    requires ev_list(l, log) is Done, t is Colon || t is Bytes,
    ensures ev_list(l.push(t), log) == RL::Done(push_v(ev_list(l, log)->Done_0, match t { T::Bytes(b) => I::Bytes(b), _ => I::Ctr(Ctr::Colon) }), ev_list(l, log)->Done_1),
{
    assert(l.push(t).drop_last() =~= l); assert(l.push(t).last() == t);
    match t { T::Bytes(b) => { assert(ev_item(t, ev_list(l, log)->Done_1) == RI::Done(I::Bytes(b), ev_list(l, log)->Done_1)); } _ => { assert(ev_item(t, ev_list(l, log)->Done_1) == RI::Done(I::Ctr(Ctr::Colon), ev_list(l, log)->Done_1)); } }
}
/// what the bracket's text evaluates to before the call
proof fn call_list(id: Seq<u8>, a: Seq<Seq<u8>>, log: Seq<Ev>)
    requires id.len() > 0,
    ensures ({ let r = ev_list(seq![T::Bytes(id)] + arg_items(a), log);
        r matches RL::Done(l, g) && g == log && l.len() == 1 + a.len() && l[0] == (None::<Ctr>, id) && (forall|i: int| #![trigger l[i]] 0 < i < l.len() ==> l[i] == (Some(Ctr::Colon), a[i - 1])) }),
    decreases a.len(),
{
    let b = seq![T::Bytes(id)];
    if a.len() == 0 {
        reveal_with_fuel(ev_list, 2);
        assert(b.drop_last() =~= seq![]); assert(b + arg_items(a) =~= b);
        assert(ev_list(b.drop_last(), log) == RL::Done(seq![], log));
        assert(ev_item(b.last(), log) == RI::Done(I::Bytes(id), log));
    } else {
        call_list(id, a.drop_last(), log);
        let p = b + arg_items(a.drop_last());
        let q = p.push(T::Colon);
        assert(q.drop_last() =~= p);
        let l = b + arg_items(a);
        let l0 = ev_list(p, log)->Done_0;
        ev_push(p, T::Colon, log);
        if a.last().len() == 0 { assert(l =~= q); assert(a.last() =~= seq![]); }
        else {
            assert(l =~= q.push(T::Bytes(a.last()))); ev_push(q, T::Bytes(a.last()), log); assert(seq![] + a.last() =~= a.last());
            assert(push_b(push_c(l0, Ctr::Colon), a.last()) =~= l0.push((Some(Ctr::Colon), a.last())));
        }
        let l2 = l0.push((Some(Ctr::Colon), a.last()));
        assert(ev_list(l, log) == RL::Done(l2, log));
        assert forall|i: int| #![trigger l2[i]] 0 < i < l2.len() implies l2[i] == (Some(Ctr::Colon), a[i - 1]) by { if i < l2.len() - 1 { assert(l2[i] == l0[i]); assert(a.drop_last()[i - 1] == a[i - 1]); } }
    }
}
/// A CALL EVALUATES TO WHAT THE FUNCTION ANSWERS
pub proof fn call_gives(id: Seq<u8>, a: Seq<Seq<u8>>, b: Seq<u8>)
    requires id.len() > 0, 0 < a.len() < 16, answers(id, a, b),
    ensures tree_gives(seq![call_tree(id, a)], b),
{
    let t = seq![call_tree(id, a)];
    assert forall|log: Seq<Ev>| (#[trigger] ev_list(t, log)) is Done && exact(ev_list(t, log)->Done_0) == Some(b) by {
        let inner = seq![T::Bytes(id)] + arg_items(a);
        call_list(id, a, log);
        let l = ev_list(inner, log)->Done_0;
        assert(inner[0] is Bytes);
        if inner.len() == 2 { arg_first(a); assert(inner[1] == arg_items(a)[0]); }
        slash_at(l, 1, l.len() as int);
        let n = group(l);
        assert(bytes_of(l.take(n)).skip(1) =~= a);
        assert(l.skip(n) =~= seq![]);
        reveal_with_fuel(calls, 2);
        let log2 = log.push(Ev::Func(id, a, true));
        assert(answer(log2) == Ans::Value(b));
        assert(ev_item(T::Lst(inner), log) == RI::Done(I::Bytes(b), log2));
        reveal_with_fuel(ev_list, 2);
        assert(t.drop_last() =~= seq![]);
    }
}
proof fn arg_first(a: Seq<Seq<u8>>)
    requires a.len() > 0,
    ensures arg_items(a).len() > 0, arg_items(a)[0] is Colon,
    decreases a.len(),
{ reveal_with_fuel(arg_items, 2); if a.len() > 1 { arg_first(a.drop_last()); } else { assert(a.drop_last() =~= seq![]); assert(arg_items(a.drop_last()) =~= seq![]); } }
pub proof fn call_evaluates(id: Seq<u8>, a: Seq<Seq<u8>>, b: Seq<u8>)
    requires id.len() > 0, 0 < a.len() < 16, answers(id, a, b),
    ensures evaluates(call_text(id, a), b),
{
    call_scans(id, a); call_gives(id, a, b);
    assert forall|t: Seq<T>| normals(t) && #[trigger] flats(t) == toks(call_text(id, a), false)->0 implies tree_gives(t, b) by { call_reads(id, a, t); }
}
/// bytes written as such evaluate to themselves
pub proof fn print_evaluates(b: Seq<u8>)
    ensures evaluates(print(b), b),
{
    let one = if b.len() == 0 { Seq::<T>::empty() } else { seq![T::Bytes(b)] };
    reveal_with_fuel(texts, 2); reveal_with_fuel(normals, 2); reveal_with_fuel(ev_list, 2);
    if b.len() > 0 { assert(one.drop_last() =~= seq![]); } else { assert(b =~= seq![]); }
    assert(texts(one) =~= print(b));
    toks_texts(one, seq![], false);
    assert(texts(one) + seq![] =~= texts(one));
    assert(flats(one) + seq![] =~= flats(one));
    bals_append(one, seq![], 0);
    assert forall|t: Seq<T>| normals(t) && #[trigger] flats(t) == toks(print(b), false)->0 implies tree_gives(t, b) by {
        unique(t, one, seq![], seq![]);
        assert forall|log: Seq<Ev>| (#[trigger] ev_list(t, log)) is Done && exact(ev_list(t, log)->Done_0) == Some(b) by {}
    }
}
pub proof fn call1(id: Seq<u8>, a: Seq<u8>) ensures call_text(id, seq![a]) == seq![91u8] + print(id) + seq![58u8] + print(a) + seq![93u8]
{ reveal_with_fuel(call_args, 2); assert(seq![a].drop_last() =~= seq![]); assert(call_text(id, seq![a]) =~= seq![91u8] + print(id) + seq![58u8] + print(a) + seq![93u8]); }
pub proof fn call2(id: Seq<u8>, a: Seq<u8>, b: Seq<u8>) ensures call_text(id, seq![a, b]) == seq![91u8] + print(id) + seq![58u8] + print(a) + seq![58u8] + print(b) + seq![93u8]
{ reveal_with_fuel(call_args, 3); assert(seq![a, b].drop_last() =~= seq![a]); assert(seq![a].drop_last() =~= seq![]); assert(call_text(id, seq![a, b]) =~= seq![91u8] + print(id) + seq![58u8] + print(a) + seq![58u8] + print(b) + seq![93u8]); }
