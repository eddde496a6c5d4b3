// ---------------------------------------------------------------- specification: texts, token sequences, trees
/// one token: a byte of a byte component, or an unescaped control character
pub enum Tk { B(u8), C(u8) }
/// the head of a text: as in `tok`, but the lenient grammar reads what is not a token as the byte it begins with
pub open spec fn step(s: Seq<u8>, lenient: bool) -> Tok {
    match tok(s, 0, 4) { Tok::Err => if lenient && s.len() > 0 && !bad_hex(s) { Tok::Byte(s[0], 1) } else { Tok::Err }, t => t }
}
/// the tokens of a text
pub open spec fn toks(s: Seq<u8>, lenient: bool) -> Option<Seq<Tk>> decreases s.len() {
    match step(s, lenient) {
        Tok::End => Some(seq![]),
        Tok::Err => None,
        Tok::Ctr(c) => if s.len() > 0 { match toks(s.skip(1), lenient) { Some(t) => Some(seq![Tk::C(c)] + t), None => None } } else { None },
        Tok::Byte(b, k) => if 0 < k <= s.len() { match toks(s.skip(k), lenient) { Some(t) => Some(seq![Tk::B(b)] + t), None => None } } else { None },
    }
}
/// brackets of k, entered at depth d, never close what was not opened and end at depth 0
pub open spec fn bal(k: Seq<Tk>, d: int) -> bool decreases k.len() {
    if k.len() == 0 { d == 0 } else { match k[0] {
        Tk::C(91) => bal(k.skip(1), d + 1),
        Tk::C(93) => d > 0 && bal(k.skip(1), d - 1),
        _ => bal(k.skip(1), d),
    } }
}
pub open spec fn bs(v: Seq<u8>) -> Seq<Tk> { v.map_values(|b: u8| Tk::B(b)) }
/// the tokens a tree stands for
pub open spec fn flat(t: T) -> Seq<Tk> decreases t {
    match t { T::Colon => seq![Tk::C(58)], T::Slash => seq![Tk::C(47)], T::Bytes(v) => bs(v), T::Lst(l) => seq![Tk::C(91)] + flats(l) + seq![Tk::C(93)] }
}
pub open spec fn flats(l: Seq<T>) -> Seq<Tk> decreases l {
    if l.len() == 0 { seq![] } else { flats(l.drop_last()) + flat(l.last()) }
}
/// no byte component is empty and no two are neighbours
pub open spec fn normal(t: T) -> bool decreases t { match t { T::Bytes(v) => v.len() > 0, T::Lst(l) => normals(l), _ => true } }
pub open spec fn normals(l: Seq<T>) -> bool decreases l {
    l.len() == 0 || (normals(l.drop_last()) && normal(l.last()) && !(l.len() > 1 && l[l.len() - 2] is Bytes && l.last() is Bytes))
}
/// the printed form of a tree
pub open spec fn text(t: T) -> Seq<u8> decreases t {
    match t { T::Colon => seq![58u8], T::Slash => seq![47u8], T::Bytes(v) => print(v), T::Lst(l) => seq![91u8] + texts(l) + seq![93u8] }
}
pub open spec fn texts(l: Seq<T>) -> Seq<u8> decreases l {
    if l.len() == 0 { seq![] } else { texts(l.drop_last()) + text(l.last()) }
}

// ---------------------------------------------------------------- lemmas over the specification
proof fn csets()
    ensures 0u32 & 1u32 == 0 && 0u32 & 2u32 == 0 && 0u32 & 4u32 == 0 && 0u32 & 16u32 == 0 && 0u32 & 32u32 == 0,
        4u32 & 1u32 == 0 && 4u32 & 2u32 == 0 && 4u32 & 4u32 == 4 && 4u32 & 16u32 == 0 && 4u32 & 32u32 == 0,
{
    assert(0u32 & 1u32 == 0 && 0u32 & 2u32 == 0 && 0u32 & 4u32 == 0 && 0u32 & 16u32 == 0 && 0u32 & 32u32 == 0) by (bit_vector);
    assert(4u32 & 1u32 == 0 && 4u32 & 2u32 == 0 && 4u32 & 4u32 == 4 && 4u32 & 16u32 == 0 && 4u32 & 32u32 == 0) by (bit_vector);
}
/// text after a printed byte string reads as its bytes, then the rest
proof fn toks_print(v: Seq<u8>, s: Seq<u8>, lenient: bool)
    ensures toks(print(v) + s, lenient) == (match toks(s, lenient) { Some(t) => Some(bs(v) + t), None => None }),
    decreases v.len(),
{
    if v.len() == 0 {
        assert(print(v) + s =~= s);
        assert forall|t: Seq<Tk>| #![auto] bs(v) + t =~= t by {}
    } else {
        print_cons(v);
        let rest = print(v.skip(1)) + s;
        assert(print(v) + s =~= esc(v[0]) + rest);
        tok_of_esc(v[0], rest);
        toks_print(v.skip(1), s, lenient);
        match toks(s, lenient) { Some(t) => { assert(seq![Tk::B(v[0])] + (bs(v.skip(1)) + t) =~= bs(v) + t); } None => {} }
    }
}
proof fn toks_ctr(c: u8, s: Seq<u8>, lenient: bool)
    requires c == 58 || c == 47 || c == 91 || c == 93,
    ensures toks(seq![c] + s, lenient) == (match toks(s, lenient) { Some(t) => Some(seq![Tk::C(c)] + t), None => None }),
{
    csets();
    assert((seq![c] + s).skip(1) =~= s);
}
/// a printed tree reads as the tokens the tree stands for
#[verifier::spinoff_prover]
proof fn toks_text(t: T, s: Seq<u8>, lenient: bool)
    ensures toks(text(t) + s, lenient) == (match toks(s, lenient) { Some(k) => Some(flat(t) + k), None => None }),
    decreases t,
{
    match t {
        T::Colon => { toks_ctr(58, s, lenient); }
        T::Slash => { toks_ctr(47, s, lenient); }
        T::Bytes(v) => { toks_print(v, s, lenient); }
        T::Lst(l) => {
            let s2 = seq![93u8] + s;
            toks_ctr(93, s, lenient);
            toks_texts(l, s2, lenient);
            toks_ctr(91, texts(l) + s2, lenient);
            assert(text(t) + s =~= seq![91u8] + (texts(l) + s2));
            match toks(s, lenient) { Some(k) => { assert(seq![Tk::C(91)] + (flats(l) + (seq![Tk::C(93)] + k)) =~= flat(t) + k); } None => {} }
        }
    }
}
#[verifier::spinoff_prover]
proof fn toks_texts(l: Seq<T>, s: Seq<u8>, lenient: bool)
    ensures toks(texts(l) + s, lenient) == (match toks(s, lenient) { Some(k) => Some(flats(l) + k), None => None }),
    decreases l,
{
    if l.len() == 0 {
        assert(texts(l) + s =~= s);
        match toks(s, lenient) { Some(k) => { assert(flats(l) + k =~= k); } None => {} }
    } else {
        toks_text(l.last(), s, lenient);
        toks_texts(l.drop_last(), text(l.last()) + s, lenient);
        assert(texts(l) + s =~= texts(l.drop_last()) + (text(l.last()) + s));
        match toks(s, lenient) { Some(k) => { assert(flats(l.drop_last()) + (flat(l.last()) + k) =~= flats(l) + k); } None => {} }
    }
}
proof fn bal_append(t: T, k: Seq<Tk>, d: int)
    requires d >= 0,
    ensures bal(flat(t) + k, d) == bal(k, d),
    decreases t,
{
    match t {
        T::Colon => { assert((flat(t) + k).skip(1) =~= k); }
        T::Slash => { assert((flat(t) + k).skip(1) =~= k); }
        T::Bytes(v) => { bal_bytes(v, k, d); }
        T::Lst(l) => {
            let k2 = seq![Tk::C(93)] + k;
            assert(flat(t) + k =~= seq![Tk::C(91)] + (flats(l) + k2));
            assert((seq![Tk::C(91)] + (flats(l) + k2)).skip(1) =~= flats(l) + k2);
            bals_append(l, k2, d + 1);
            assert(k2.skip(1) =~= k);
        }
    }
}
proof fn bal_bytes(v: Seq<u8>, k: Seq<Tk>, d: int)
    ensures bal(bs(v) + k, d) == bal(k, d),
    decreases v.len(),
{
    if v.len() == 0 { assert(bs(v) + k =~= k); } else { assert((bs(v) + k).skip(1) =~= bs(v.skip(1)) + k); bal_bytes(v.skip(1), k, d); }
}
proof fn bals_append(l: Seq<T>, k: Seq<Tk>, d: int)
    requires d >= 0,
    ensures bal(flats(l) + k, d) == bal(k, d),
    decreases l,
{
    if l.len() == 0 { assert(flats(l) + k =~= k); } else {
        assert(flats(l) + k =~= flats(l.drop_last()) + (flat(l.last()) + k));
        bals_append(l.drop_last(), flat(l.last()) + k, d);
        bal_append(l.last(), k, d);
    }
}
proof fn flats_cons(l: Seq<T>)
    requires l.len() > 0,
    ensures flats(l) == flat(l[0]) + flats(l.skip(1)),
    decreases l.len(),
{
    if l.len() == 1 { assert(l.drop_last() =~= seq![]); assert(l.skip(1) =~= seq![]); assert(flats(l) =~= flat(l[0]) + flats(l.skip(1))); }
    else {
        flats_cons(l.drop_last());
        assert(l.drop_last().skip(1) =~= l.skip(1).drop_last());
        assert(flats(l) =~= flat(l[0]) + flats(l.skip(1)));
    }
}
proof fn normals_cons(l: Seq<T>)
    requires l.len() > 0, normals(l),
    ensures normal(l[0]), normals(l.skip(1)), l.len() > 1 && l[0] is Bytes ==> !(l[1] is Bytes),
    decreases l.len(),
{
    if l.len() == 1 { assert(l.skip(1) =~= seq![]); }
    else {
        normals_cons(l.drop_last());
        assert(l.drop_last().skip(1) =~= l.skip(1).drop_last());
        if l.len() == 2 { assert(l.skip(1).drop_last() =~= seq![]); }
        else { assert(l.skip(1)[l.skip(1).len() - 2] == l[l.len() - 2]); }
    }
}
pub open spec fn stop(k: Seq<Tk>) -> bool { k.len() == 0 || k[0] == Tk::C(93) }
proof fn flat_head(t: T)
    requires normal(t),
    ensures flat(t).len() > 0,
        flat(t)[0] == (match t { T::Colon => Tk::C(58), T::Slash => Tk::C(47), T::Bytes(v) => Tk::B(v[0]), T::Lst(_) => Tk::C(91) }),
{ }

proof fn run_eq(v: Seq<u8>, w: Seq<u8>, ra: Seq<Tk>, rb: Seq<Tk>)
    requires bs(v) + ra == bs(w) + rb, ra.len() == 0 || !(ra[0] is B), rb.len() == 0 || !(rb[0] is B),
    ensures v == w, ra == rb,
{
    let all = bs(v) + ra;
    let (n, m) = (v.len() as int, w.len() as int);
    if n < m { assert(all[n] == ra[0]); assert(all[n] == bs(w)[n]); assert(false); }
    if m < n { assert(all[m] == rb[0]); assert(all[m] == bs(v)[m]); assert(false); }
    assert forall|i: int| 0 <= i < n implies v[i] == w[i] by { assert(all[i] == bs(v)[i]); assert(all[i] == bs(w)[i]); }
    assert(v =~= w);
    assert(ra =~= all.skip(n));
    assert(rb =~= all.skip(n));
}
/// the first tree of a nonempty sequence and what follows it
proof fn first(a: Seq<T>, x: Seq<Tk>)
    requires normals(a), stop(x), a.len() > 0,
    ensures
        normal(a[0]), normals(a.skip(1)),
        flats(a) + x == flat(a[0]) + (flats(a.skip(1)) + x),
        (flats(a) + x)[0] == flat(a[0])[0],
        flat(a[0]).len() > 0, flats(a).len() == flat(a[0]).len() + flats(a.skip(1)).len(),
        !stop(flats(a) + x),
        a[0] is Bytes ==> (flats(a.skip(1)) + x).len() == 0 || !((flats(a.skip(1)) + x)[0] is B),
        a == seq![a[0]] + a.skip(1),
{
    flats_cons(a); normals_cons(a); flat_head(a[0]);
    let b = a.skip(1);
    assert(flats(a) + x =~= flat(a[0]) + (flats(b) + x));
    assert((flats(a) + x)[0] == flat(a[0])[0]);
    if b.len() > 0 { flats_cons(b); normals_cons(b); flat_head(b[0]); assert(b[0] == a[1]); assert((flats(b) + x)[0] == flat(b[0])[0]); }
    else { assert(flats(b) + x =~= x); }
    assert(a =~= seq![a[0]] + b);
}
proof fn drop1(c: u8, k: Seq<Tk>, j: Seq<Tk>)
    requires seq![Tk::C(c)] + k == seq![Tk::C(c)] + j,
    ensures k == j,
{ assert((seq![Tk::C(c)] + k).skip(1) =~= k); assert((seq![Tk::C(c)] + j).skip(1) =~= j); }
proof fn lst_split(l: Seq<T>, r: Seq<Tk>)
    ensures flat(T::Lst(l)) + r == seq![Tk::C(91)] + (flats(l) + (seq![Tk::C(93)] + r)), flat(T::Lst(l)).len() == flats(l).len() + 2,
{ assert(flat(T::Lst(l)) + r =~= seq![Tk::C(91)] + (flats(l) + (seq![Tk::C(93)] + r))); }
/// two normal trees that stand for the same tokens are the same tree
proof fn unique(a: Seq<T>, b: Seq<T>, x: Seq<Tk>, y: Seq<Tk>)
    requires normals(a), normals(b), stop(x), stop(y), flats(a) + x == flats(b) + y,
    ensures a == b, x == y,
    decreases flats(a).len() + x.len(),
{
    if a.len() > 0 { first(a, x); } else { assert(flats(a) + x =~= x); }
    if b.len() > 0 { first(b, y); } else { assert(flats(b) + y =~= y); }
    if a.len() == 0 || b.len() == 0 {
        assert(a =~= b);
    } else {
        let (a1, b1) = (a.skip(1), b.skip(1));
        let (ra, rb) = (flats(a1) + x, flats(b1) + y);
        flat_head(a[0]); flat_head(b[0]);
        match (a[0], b[0]) {
            (T::Bytes(v), T::Bytes(w)) => { run_eq(v, w, ra, rb); }
            (T::Lst(l), T::Lst(m)) => {
                let (x2, y2) = (seq![Tk::C(93)] + ra, seq![Tk::C(93)] + rb);
                lst_split(l, ra); lst_split(m, rb);
                drop1(91, flats(l) + x2, flats(m) + y2);
                unique(l, m, x2, y2);
                drop1(93, ra, rb);
            }
            (T::Colon, T::Colon) => { drop1(58, ra, rb); }
            (T::Slash, T::Slash) => { drop1(47, ra, rb); }
            _ => { assert(false); }
        }
        unique(a1, b1, x, y);
    }
}
/// THE ROUND TRIP: whatever tree a parser that meets `parsed` returns for the printed form of a normal tree is that tree
pub open spec fn parsed(s: Seq<u8>, lenient: bool, r: Option<Seq<T>>) -> bool {
    &&& r is Some <==> toks(s, lenient) is Some && bal(toks(s, lenient)->0, 0)
    &&& r matches Some(t) ==> flats(t) == toks(s, lenient)->0 && normals(t)
}
pub proof fn tree_round_trip(l: Seq<T>, lenient: bool, r: Option<Seq<T>>)
    requires parsed(texts(l), lenient, r),
    ensures
        r is Some, flats(r->0) == flats(l),
        normals(l) ==> r == Some(l),
{
    toks_texts(l, seq![], lenient);
    assert(texts(l) + seq![] =~= texts(l));
    assert(flats(l) + seq![] =~= flats(l));
    bals_append(l, seq![], 0);
    if normals(l) { unique(r->0, l, seq![], seq![]); }
}
/// a parse is determined by the text
pub proof fn parse_unique(s: Seq<u8>, lenient: bool, r1: Option<Seq<T>>, r2: Option<Seq<T>>)
    requires parsed(s, lenient, r1), parsed(s, lenient, r2),
    ensures r1 == r2,
{
    if r1 is Some { assert(flats(r1->0) + seq![] =~= flats(r2->0) + seq![]); unique(r1->0, r2->0, seq![], seq![]); }
}

