// ---------------------------------------------------------------- specification: comparing bytes
pub open spec fn cmp8(a: u8, b: u8) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn cmpn(a: nat, b: nat) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// the first that is not a tie
pub open spec fn or(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
/// byte strings in dictionary order
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
    if a.len() == 0 && b.len() == 0 { Ordering::Equal } else if a.len() == 0 { Ordering::Less } else if b.len() == 0 { Ordering::Greater }
    else { or(cmp8(a[0], b[0]), lex(a.skip(1), b.skip(1))) }
}
/// the number that bytes are, the first the heaviest
pub open spec fn num(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { num(b.drop_last()) * 256 + b.last() as nat } }
pub proof fn lex_same(a: Seq<u8>) ensures lex(a, a) == Ordering::Equal decreases a.len() { if a.len() > 0 { lex_same(a.skip(1)); } }
pub proof fn lex_eq(a: Seq<u8>, b: Seq<u8>)
    ensures (lex(a, b) == Ordering::Equal) == (a == b),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 { lex_eq(a.skip(1), b.skip(1)); if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } }
    else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
/// of strings with equally long starts, the starts decide first
pub proof fn lex_cat(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires a.len() == b.len(),
    ensures lex(a + x, b + y) == or(lex(a, b), lex(x, y)),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + x =~= x); assert(b + y =~= y); }
    else { lex_cat(a.skip(1), b.skip(1), x, y); assert((a + x).skip(1) =~= a.skip(1) + x); assert((b + y).skip(1) =~= b.skip(1) + y); }
}
/// equally long numbers order as their bytes do
pub proof fn lex_num(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(),
    ensures lex(a, b) == cmpn(num(a), num(b)),
    decreases a.len(),
{
    if a.len() > 0 {
        let (c, d) = (a.drop_last(), b.drop_last()); let (x, y) = (seq![a.last()], seq![b.last()]);
        lex_num(c, d); lex_cat(c, d, x, y);
        assert(c + x =~= a); assert(d + y =~= b);
        assert(x.skip(1) =~= seq![] && y.skip(1) =~= seq![]); reveal_with_fuel(lex, 2);
        assert(lex(x, y) == cmp8(a.last(), b.last()));
    }
}
/// spaces with as many segments: whatever follows them, they decide first
pub proof fn lex_flat(l: L, m: L, x: Seq<u8>, y: Seq<u8>)
    requires small(l), small(m), l.len() == m.len(),
    ensures lex(flat(l) + x, flat(m) + y) == or(lex(flat(l), flat(m)), lex(x, y)),
    decreases l.len(),
{
    if l.len() == 0 { assert(flat(l) + x =~= x); assert(flat(m) + y =~= y); }
    else {
        let (s, t) = (l.skip(1), m.skip(1)); let (a, b) = (one(l[0]), one(m[0]));
        parts(l, 1); parts(m, 1);
        assert(1 <= l[0].len() <= 200 && 1 <= m[0].len() <= 200);
        assert(flat(l) + x =~= a + (flat(s) + x)); assert(flat(m) + y =~= b + (flat(t) + y));
        if l[0].len() == m[0].len() { lex_flat(s, t, x, y); lex_cat(a, b, flat(s) + x, flat(t) + y); lex_cat(a, b, flat(s), flat(t)); }
        else { assert((flat(l) + x)[0] == a[0] && flat(l)[0] == a[0] && (flat(m) + y)[0] == b[0] && flat(m)[0] == b[0]); assert(a[0] == l[0].len() as u8 && b[0] == m[0].len() as u8); }
    }
}
