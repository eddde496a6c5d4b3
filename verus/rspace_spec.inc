pub struct RootedSpaceBytes<X: ?Sized> { pub rooted_bytes: X }
pub type RootedSpace = RootedSpaceBytes<[u8]>;
pub type RootedSpaceBuf = RootedSpaceBytes<Vec<u8>>;
//@need crates/pkt/src/rooted_space.rs #\[repr\(transparent\)\]\s*pub struct RootedSpaceBytes<X: \?Sized> \{\s*rooted_bytes: X,\s*\}
//@need crates/pkt/src/rooted_space.rs pub type RootedSpace = RootedSpaceBytes<\[u8\]>;
//@need crates/pkt/src/rooted_space.rs pub type RootedSpaceBuf = RootedSpaceBytes<Vec<u8>>;
// ---------------------------------------------------------------- specification: the index of a list
/// where segment i starts (where the list ends, past its last segment)
pub open spec fn off(l: L, i: int) -> int { flat(l.take(if i < l.len() { i } else { l.len() as int })).len() as int }
/// the number of segments, and where each but the first starts
pub open spec fn index(l: L) -> Seq<u8> { Seq::new(8, |i: int| if i == 0 { l.len() as u8 } else { off(l, i) as u8 }) }
pub open spec fn ry(r: &RootedSpace) -> Seq<u8> { r.rooted_bytes@ }
/// a byte string that is a rooted space: empty, or the index of the list that follows it
pub open spec fn rsp(b: Seq<u8>) -> bool { b.len() == 0 || (b.len() >= 8 && sp(b.skip(8)) && b.take(8) == index(li(b.skip(8)))) }
pub open spec fn rbytes(b: Seq<u8>) -> Seq<u8> { if b.len() == 0 { b } else { b.skip(8) } }
pub open spec fn rli(b: Seq<u8>) -> L { li(rbytes(b)) }
/// bytes that begin with segments
pub proof fn seen(l: L, x: Seq<u8>)
    requires small(l),
    ensures segs(flat(l) + x) == (match segs(x) { Some(t) => Some(l + t), None => None::<L> }),
    decreases l.len(),
{
    if l.len() == 0 {
        assert(flat(l) + x =~= x);
        if let Some(t) = segs(x) { assert(l + t =~= t); }
    } else {
        parts(l, 1);
        seen(l.skip(1), x);
        let b = flat(l) + x; let n = l[0].len() as int;
        assert(1 <= n <= 200);
        assert(flat(l) == one(l[0]) + flat(l.skip(1)));
        assert(b[0] as int == n);
        assert(b.skip(n + 1) =~= flat(l.skip(1)) + x);
        assert(b.subrange(1, n + 1) =~= l[0]);
        if let Some(t) = segs(x) { assert(seq![l[0]] + (l.skip(1) + t) =~= l + t); }
    }
}
#[verifier::spinoff_prover]
pub proof fn offs(l: L, i: int)
    requires 0 <= i,
    ensures
        0 <= off(l, i) <= flat(l).len(), off(l, 0) == 0, i >= l.len() ==> off(l, i) == flat(l).len(), off(l, i) <= off(l, i + 1),
        i < l.len() ==> off(l, i + 1) == off(l, i) + l[i].len() + 1 && flat(l).subrange(off(l, i), off(l, i + 1)) == one(l[i]),
{
    let k = if i < l.len() { i } else { l.len() as int };
    parts(l, k); parts(l, 0);
    assert(l.take(0) =~= seq![]);
    assert(l.take(l.len() as int) =~= l);
    if i < l.len() {
        parts(l, i + 1); flat_cat(l.take(i), seq![l[i]]); flat_one(l[i]);
        assert(flat(l).subrange(off(l, i), off(l, i + 1)) =~= one(l[i]));
    }
}
pub proof fn offs_mono(l: L, i: int, j: int)
    requires 0 <= i <= j,
    ensures off(l, i) <= off(l, j),
    decreases j - i,
{ if i < j { offs(l, j - 1); offs_mono(l, i, j - 1); } }
/// the first segments of a longer list start where they did
pub proof fn off_more(l: L, t: L, i: int)
    requires 0 <= i <= l.len(),
    ensures off(l + t, i) == off(l, i),
{ assert((l + t).take(i) =~= l.take(i)); }
pub proof fn rfacts(b: Seq<u8>)
    requires rsp(b),
    ensures
        wf(rbytes(b)), sp(rbytes(b)), fits(rli(b)), flat(rli(b)) == rbytes(b), b.len() == 0 ==> rli(b).len() == 0,
        b.len() > 0 ==> b[0] == rli(b).len() && forall|i: int| 1 <= i < 8 ==> (#[trigger] b[i]) == off(rli(b), i),
{
    segs_flat(rbytes(b));
    if b.len() > 0 {
        let l = rli(b);
        assert(b.take(8)[0] == b[0]);
        assert forall|i: int| 1 <= i < 8 implies (#[trigger] b[i]) == off(l, i) by { assert(b.take(8)[i] == b[i]); offs(l, i); }
    }
}
