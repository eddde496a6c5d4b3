// ---------------------------------------------------------------- specification: component lists
/// only the first entry may lack its delimiter
pub open spec fn wf(l: L) -> bool { forall|i: int| 0 < i < l.len() ==> (#[trigger] l[i]).0 is Some }
/// an empty first component before a delimiter, and a list starting with that delimiter, are the same list
pub open spec fn norm(l: L) -> L { if l.len() > 0 && l[0].0 is None && l[0].1.len() == 0 { l.skip(1) } else { l } }
pub open spec fn ct(c: Ctr) -> T { match c { Ctr::Colon => T::Colon, Ctr::FSlash => T::Slash } }
pub open spec fn cb(c: Ctr) -> u8 { match c { Ctr::Colon => 58, Ctr::FSlash => 47 } }
pub open spec fn item1(c: (Option<Ctr>, Seq<u8>)) -> Seq<T> {
    (match c.0 { Some(k) => seq![ct(k)], None => seq![] }) + (if c.1.len() == 0 { seq![] } else { seq![T::Bytes(c.1)] })
}
/// the expression a list stands for
pub open spec fn items_of(l: L) -> Seq<T> decreases l.len() { if l.len() == 0 { seq![] } else { items_of(l.drop_last()) + item1(l.last()) } }
pub open spec fn push_t(l: L, t: T) -> L { match t { T::Colon => push_c(l, Ctr::Colon), T::Slash => push_c(l, Ctr::FSlash), T::Bytes(b) => push_b(l, b), T::Lst(_) => l } }
/// the list built from an expression
pub open spec fn build(s: Seq<T>) -> L decreases s.len() { if s.len() == 0 { seq![] } else { push_t(build(s.drop_last()), s.last()) } }
/// every delimiter and every byte, in order
pub open spec fn joined(l: L) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { seq![] } else { joined(l.drop_last()) + (match l.last().0 { Some(c) => seq![cb(c)], None => seq![] }) + l.last().1 }
}
/// the components, in order; a list starting with a delimiter starts with an empty one
pub open spec fn comps_of(l: L) -> Seq<Seq<u8>> {
    let m = Seq::new(l.len(), |i: int| l[i].1);
    if l.len() > 0 && l[0].0 is Some { seq![Seq::<u8>::empty()] + m } else { m }
}
/// the printed form
pub open spec fn shown(l: L) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { seq![] } else { shown(l.drop_last()) + (match l.last().0 { Some(c) => seq![cb(c)], None => seq![] }) + print(l.last().1) }
}
// ---------------------------------------------------------------- lemmas
/// A LIST CONVERTS TO AN EXPRESSION AND BACK
pub proof fn there_and_back(l: L)
    requires wf(l),
    ensures build(items_of(l)) == norm(l), normals(items_of(l)),
    decreases l.len(),
{
    if l.len() > 0 {
        let p = l.drop_last(); let e = l.last(); let a = items_of(p);
        there_and_back(p);
        reveal_with_fuel(build, 3); reveal_with_fuel(normals, 3);
        if let Some(c) = e.0 {
            let a1 = a.push(ct(c));
            assert(a1.drop_last() =~= a);
            assert(build(a1) == push_c(norm(p), c));
            if e.1.len() > 0 {
                let a2 = a1.push(T::Bytes(e.1));
                assert(a2.drop_last() =~= a1);
                assert(items_of(l) =~= a2);
                assert(push_b(push_c(norm(p), c), e.1) =~= norm(p).push(e)) by { assert(seq![] + e.1 =~= e.1); }
            } else {
                assert(items_of(l) =~= a1);
                assert(e.1 =~= seq![]);
            }
            assert(build(items_of(l)) =~= norm(p).push(e));
            assert(norm(l) =~= norm(p).push(e));
        } else {
            assert(l.len() == 1);
            assert(a =~= seq![]);
            if e.1.len() > 0 {
                assert(items_of(l) =~= seq![T::Bytes(e.1)]);
                assert(seq![T::Bytes(e.1)].drop_last() =~= seq![]);
                assert(build(items_of(l)) =~= norm(l));
            } else { assert(items_of(l) =~= seq![]); assert(norm(l) =~= seq![]); }
        }
    } else { assert(norm(l) =~= seq![]); }
}
proof fn texts_app(a: Seq<T>, b: Seq<T>)
    ensures texts(a + b) == texts(a) + texts(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(texts(a) + texts(b) =~= texts(a)); }
    else { texts_app(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(texts(a + b) =~= texts(a) + texts(b)); }
}
/// a list prints as the expression it stands for
proof fn shown_is_text(l: L)
    ensures shown(l) == texts(items_of(l)),
    decreases l.len(),
{
    if l.len() > 0 {
        shown_is_text(l.drop_last());
        texts_app(items_of(l.drop_last()), item1(l.last()));
        reveal_with_fuel(texts, 3);
        let e = l.last();
        if let Some(c) = e.0 {
            assert(seq![ct(c)].drop_last() =~= seq![]);
            assert(texts(seq![ct(c)]) =~= seq![cb(c)]);
            if e.1.len() > 0 {
                assert(item1(e) =~= seq![ct(c)].push(T::Bytes(e.1)));
                assert(item1(e).drop_last() =~= seq![ct(c)]);
            } else { assert(item1(e) =~= seq![ct(c)]); assert(e.1 =~= seq![]); }
        } else {
            if e.1.len() > 0 { assert(item1(e) =~= seq![T::Bytes(e.1)]); assert(item1(e).drop_last() =~= seq![]); }
            else { assert(item1(e) =~= seq![]); assert(e.1 =~= seq![]); }
        }
        assert(texts(item1(e)) =~= (match e.0 { Some(c) => seq![cb(c)], None => seq![] }) + print(e.1));
        assert(shown(l) =~= texts(items_of(l)));
    }
}
/// A LIST PRINTS TO TEXT THAT REPARSES TO THE SAME LIST, with any parser that meets `parsed` (proved of both in unit ast)
pub proof fn prints_and_parses(l: L, lenient: bool, r: Option<Seq<T>>)
    requires wf(l), parsed(shown(l), lenient, r),
    ensures r == Some(items_of(l)), build(r->0) == norm(l),
{
    shown_is_text(l);
    there_and_back(l);
    tree_round_trip(items_of(l), lenient, r);
}
/// the normal form is the same list: same bytes and delimiters, same components unless the list was the single empty one
pub proof fn norm_same(l: L)
    requires wf(l),
    ensures joined(norm(l)) == joined(l), items_of(norm(l)) == items_of(l), shown(norm(l)) == shown(l), l.len() != 1 || l[0].1.len() > 0 ==> comps_of(norm(l)) == comps_of(l),
{
    if norm(l) != l { skip_first(l); if l.len() > 1 { assert(l[1].0 is Some); assert(l[0].1 =~= seq![]); assert(comps_of(norm(l)) =~= comps_of(l)); } }
}
proof fn skip_first(l: L)
    requires l.len() > 0, l[0].0 is None, l[0].1.len() == 0,
    ensures joined(l.skip(1)) == joined(l), items_of(l.skip(1)) == items_of(l), shown(l.skip(1)) == shown(l),
    decreases l.len(),
{
    reveal_with_fuel(joined, 2); reveal_with_fuel(items_of, 2); reveal_with_fuel(shown, 2);
    if l.len() == 1 {
        assert(l[0].1 =~= seq![]); assert(l.drop_last() =~= seq![]); assert(l.skip(1) =~= seq![]);
        assert(joined(l) =~= seq![]); assert(items_of(l) =~= seq![]); assert(shown(l) =~= seq![]);
    } else {
        skip_first(l.drop_last());
        assert(l.drop_last().skip(1) =~= l.skip(1).drop_last());
    }
}
