// ---------------------------------------------------------------- specification: a space is a list of segments
pub type L = Seq<Seq<u8>>;
/// the list a byte string encodes: each segment of 1..=200 bytes behind a byte with its length
pub open spec fn segs(b: Seq<u8>) -> Option<L> decreases b.len() {
    if b.len() == 0 { Some(seq![]) }
    else {
        let n = b[0] as int;
        if n == 0 || n > 200 || n >= b.len() { None }
        else { match segs(b.skip(n + 1)) { Some(t) => Some(seq![b.subrange(1, n + 1)] + t), None => None } }
    }
}
pub open spec fn li(b: Seq<u8>) -> L { segs(b)->Some_0 }
pub open spec fn wf(b: Seq<u8>) -> bool { segs(b) is Some }
pub open spec fn one(s: Seq<u8>) -> Seq<u8> { seq![s.len() as u8] + s }
pub open spec fn flat(l: L) -> Seq<u8> decreases l.len() { if l.len() == 0 { seq![] } else { one(l[0]) + flat(l.skip(1)) } }
pub open spec fn small(l: L) -> bool { forall|i: int| 0 <= i < l.len() ==> 1 <= (#[trigger] l[i]).len() <= 200 }
/// the limits of a space
pub open spec fn fits(l: L) -> bool { l.len() <= 8 && small(l) && flat(l).len() <= 242 }
/// a byte string that is a space
pub open spec fn sp(b: Seq<u8>) -> bool { wf(b) && li(b).len() <= 8 && b.len() <= 242 }
pub open spec fn starts<T>(a: Seq<T>, p: Seq<T>) -> bool { p.len() <= a.len() && a.take(p.len() as int) == p }
pub proof fn segs_flat(b: Seq<u8>)
    requires wf(b),
    ensures flat(li(b)) == b, small(li(b)), li(b).len() <= b.len(), (li(b).len() == 0) == (b.len() == 0),
    decreases b.len(),
{
    if b.len() > 0 {
        let n = b[0] as int;
        let t = b.skip(n + 1);
        segs_flat(t);
        let l = li(b);
        assert(l == seq![b.subrange(1, n + 1)] + li(t));
        assert(l.skip(1) =~= li(t));
        assert(one(l[0]) + t =~= b);
        assert forall|i: int| 0 <= i < l.len() implies 1 <= (#[trigger] l[i]).len() <= 200 by { if i > 0 { assert(l[i] == li(t)[i - 1]); } }
    }
}
pub proof fn flat_segs(l: L)
    requires small(l),
    ensures segs(flat(l)) == Some(l),
    decreases l.len(),
{
    if l.len() > 0 {
        let t = l.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies 1 <= (#[trigger] t[i]).len() <= 200 by { assert(t[i] == l[i + 1]); }
        flat_segs(t);
        let b = flat(l);
        let n = l[0].len() as int;
        assert(1 <= n <= 200);
        assert(b == one(l[0]) + flat(t));
        assert(b[0] == n as u8 && b[0] as int == n);
        assert(b.skip(n + 1) =~= flat(t));
        assert(b.subrange(1, n + 1) =~= l[0]);
        assert(seq![l[0]] + t =~= l);
    } else { assert(l =~= seq![]); }
}
pub proof fn flat_cat(a: L, b: L)
    ensures flat(a + b) == flat(a) + flat(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(flat(a) + flat(b) =~= flat(b)); }
    else {
        flat_cat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((a + b)[0] == a[0]);
        assert(one(a[0]) + (flat(a.skip(1)) + flat(b)) =~= (one(a[0]) + flat(a.skip(1))) + flat(b));
    }
}
pub proof fn flat_one(s: Seq<u8>)
    ensures flat(seq![s]) == one(s), flat(seq![s]).len() == s.len() + 1,
{ let l = seq![s]; assert(l.skip(1) =~= seq![]); assert(flat(l.skip(1)).len() == 0); assert(one(s) + flat(l.skip(1)) =~= one(s)); assert(l[0] == s); }
/// joining spaces is joining their lists
pub proof fn segs_cat(a: Seq<u8>, b: Seq<u8>)
    requires wf(a), wf(b),
    ensures segs(a + b) == Some(li(a) + li(b)),
{
    segs_flat(a); segs_flat(b);
    flat_cat(li(a), li(b));
    let l = li(a) + li(b);
    assert forall|i: int| 0 <= i < l.len() implies 1 <= (#[trigger] l[i]).len() <= 200 by { if i < li(a).len() { assert(l[i] == li(a)[i]); } else { assert(l[i] == li(b)[i - li(a).len()]); } }
    flat_segs(l);
}
pub proof fn segs_one(s: Seq<u8>)
    requires 1 <= s.len() <= 200,
    ensures segs(one(s)) == Some(seq![s]),
{ flat_one(s); assert(small(seq![s])); flat_segs(seq![s]); }
/// a byte string is a space exactly when it is the encoding of a list within the limits
pub proof fn sp_fits(b: Seq<u8>)
    requires wf(b),
    ensures sp(b) == fits(li(b)),
{ segs_flat(b); }
pub proof fn fits_sp(l: L)
    requires small(l),
    ensures fits(l) == sp(flat(l)), wf(flat(l)), li(flat(l)) == l,
{ flat_segs(l); }
/// parts of a list
pub proof fn parts(l: L, k: int)
    requires 0 <= k <= l.len(),
    ensures
        flat(l) == flat(l.take(k)) + flat(l.skip(k)), l.take(k) + l.skip(k) == l,
        small(l) ==> small(l.take(k)) && small(l.skip(k)),
        fits(l) ==> fits(l.take(k)) && fits(l.skip(k)),
        k < l.len() ==> l.skip(k) == seq![l[k]] + l.skip(k + 1) && l.take(k + 1) == l.take(k).push(l[k]) && l.take(k + 1) == l.take(k) + seq![l[k]],
{
    assert(l.take(k) + l.skip(k) =~= l);
    flat_cat(l.take(k), l.skip(k));
    if small(l) {
        assert forall|i: int| 0 <= i < k implies 1 <= (#[trigger] l.take(k)[i]).len() <= 200 by { assert(l.take(k)[i] == l[i]); }
        assert forall|i: int| 0 <= i < l.len() - k implies 1 <= (#[trigger] l.skip(k)[i]).len() <= 200 by { assert(l.skip(k)[i] == l[i + k]); }
    }
    if k < l.len() { assert(l.skip(k) =~= seq![l[k]] + l.skip(k + 1)); assert(l.take(k + 1) =~= l.take(k).push(l[k])); assert(l.take(k + 1) =~= l.take(k) + seq![l[k]]); }
}
/// a list is a prefix of another exactly when its bytes are
pub proof fn prefixes(a: L, p: L)
    requires small(a), small(p),
    ensures starts(a, p) == starts(flat(a), flat(p)), starts(a, p) ==> flat(a).skip(flat(p).len() as int) == flat(a.skip(p.len() as int)),
    decreases p.len(),
{
    if p.len() == 0 { assert(a.take(0) =~= p); assert(flat(a).take(0) =~= flat(p)); assert(a.skip(0) =~= a); assert(flat(a).skip(0) =~= flat(a)); }
    else if a.len() == 0 { assert(flat(p).len() > 0); assert(flat(a).len() == 0); }
    else {
        let (x, y) = (a.skip(1), p.skip(1));
        parts(a, 1); parts(p, 1);
        assert(a.take(1) =~= seq![a[0]]); assert(p.take(1) =~= seq![p[0]]);
        flat_one(a[0]); flat_one(p[0]);
        prefixes(x, y);
        let (fa, fp) = (flat(a), flat(p));
        let n = a[0].len() as int;
        assert(fa == one(a[0]) + flat(x)); assert(fp == one(p[0]) + flat(y));
        assert(fa[0] == n as u8 && fp[0] == p[0].len() as u8);
        if starts(a, p) {
            assert(a[0] == p[0]) by { assert(a.take(p.len() as int)[0] == p[0]); }
            assert(x.take(y.len() as int) =~= y) by { assert(a.take(p.len() as int).skip(1) =~= x.take(y.len() as int)); }
            assert(flat(x).take(flat(y).len() as int) == flat(y));
            assert(fa.take(fp.len() as int) =~= fp) by { assert(fa.take(fp.len() as int) =~= one(a[0]) + flat(x).take(flat(y).len() as int)); }
            assert(fa.skip(fp.len() as int) =~= flat(x).skip(flat(y).len() as int));
            assert(a.skip(p.len() as int) =~= x.skip(y.len() as int));
        }
        if starts(fa, fp) {
            assert(fa.take(fp.len() as int)[0] == fp[0]);
            assert(p[0].len() == n);
            assert(a[0] =~= p[0]) by {
                assert forall|i: int| 0 <= i < n implies a[0][i] == p[0][i] by { assert(fa.take(fp.len() as int)[i + 1] == fp[i + 1]); assert(fa[i + 1] == a[0][i]); assert(fp[i + 1] == p[0][i]); }
            }
            assert(flat(x).take(flat(y).len() as int) =~= flat(y)) by { assert(fa.take(fp.len() as int).skip(n + 1) =~= flat(x).take(flat(y).len() as int)); assert(fp.skip(n + 1) =~= flat(y)); }
            assert(a.take(p.len() as int) =~= p) by { assert(a.take(p.len() as int) =~= seq![a[0]] + x.take(y.len() as int)); assert(p =~= seq![p[0]] + y); }
        }
    }
}
/// the head of the bytes is the head of the list
pub proof fn head_tail(b: Seq<u8>)
    requires wf(b), b.len() > 0,
    ensures 1 <= b[0] <= 200, b[0] < b.len(), li(b).len() > 0, li(b)[0] == b.subrange(1, b[0] + 1), wf(b.skip(b[0] + 1)), li(b.skip(b[0] + 1)) == li(b).skip(1), li(b).skip(1).len() == li(b).len() - 1,
{ let t = b.skip(b[0] + 1); assert(li(b) == seq![b.subrange(1, b[0] + 1)] + li(t)); assert(li(b).skip(1) =~= li(t)); }
/// what limits a list that grows at either end
pub proof fn grows(a: L, b: L)
    ensures fits(a + b) ==> fits(a) && fits(b), small(a) && small(b) ==> small(a + b), flat(a + b).len() == flat(a).len() + flat(b).len(),
{
    parts(a + b, a.len() as int);
    assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b);
    if small(a) && small(b) {
        assert forall|i: int| 0 <= i < (a + b).len() implies 1 <= (#[trigger] (a + b)[i]).len() <= 200 by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
    }
    flat_cat(a, b);
}
pub proof fn grows_one(a: L, s: Seq<u8>)
    requires fits(a),
    ensures
        fits(a + seq![s]) == (a.len() < 8 && 1 <= s.len() <= 200 && flat(a).len() + s.len() + 1 <= 242),
        fits(seq![s] + a) == (a.len() < 8 && 1 <= s.len() <= 200 && flat(a).len() + s.len() + 1 <= 242),
{
    grows(a, seq![s]); grows(seq![s], a); flat_one(s);
    assert(seq![s][0] == s);
    if 1 <= s.len() <= 200 { assert(small(seq![s])); }
    if small(a + seq![s]) { assert((a + seq![s])[a.len() as int] == s); }
    if small(seq![s] + a) { assert((seq![s] + a)[0] == s); }
}
