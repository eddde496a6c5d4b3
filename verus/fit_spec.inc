// ---------------------------------------------------------------- specification
/// the length of the run of `b` at the front
pub open spec fn front_run(s: Seq<u8>, b: u8) -> nat decreases s.len() { if s.len() > 0 && s[0] == b { 1 + front_run(s.skip(1), b) } else { 0 } }
pub open spec fn back_run(s: Seq<u8>, b: u8) -> nat decreases s.len() { if s.len() > 0 && s.last() == b { 1 + back_run(s.drop_last(), b) } else { 0 } }
pub open spec fn left_padded(s: Seq<u8>, b: u8, n: int) -> Seq<u8> { fill(b, n - s.len()) + s }
pub open spec fn right_padded(s: Seq<u8>, n: int) -> Seq<u8> { s + fill(0, n - s.len()) }
pub open spec fn cut_front(s: Seq<u8>, b: u8) -> Seq<u8> { s.skip(front_run(s, b) as int) }
pub open spec fn cut_back(s: Seq<u8>, b: u8) -> Seq<u8> { s.take(s.len() - back_run(s, b)) }

// ---------------------------------------------------------------- lemmas over the specification
proof fn front_run_is(s: Seq<u8>, b: u8, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] == b, k < s.len() ==> s[k] != b,
    ensures front_run(s, b) == k,
    decreases s.len(),
{
    if k > 0 { assert(s.skip(1).len() == s.len() - 1); front_run_is(s.skip(1), b, k - 1); }
}
proof fn back_run_is(s: Seq<u8>, b: u8, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> s[i] == b, k > 0 ==> s[k - 1] != b,
    ensures back_run(s, b) == s.len() - k,
    decreases s.len(),
{
    if k < s.len() { back_run_is(s.drop_last(), b, k); }
}
proof fn front_run_bound(s: Seq<u8>, b: u8)
    ensures front_run(s, b) <= s.len(), forall|i: int| 0 <= i < front_run(s, b) ==> s[i] == b, front_run(s, b) < s.len() ==> s[front_run(s, b) as int] != b,
    decreases s.len(),
{
    if s.len() > 0 && s[0] == b {
        front_run_bound(s.skip(1), b);
        assert forall|i: int| 0 <= i < front_run(s, b) implies s[i] == b by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
proof fn back_run_bound(s: Seq<u8>, b: u8)
    ensures back_run(s, b) <= s.len(), forall|i: int| s.len() - back_run(s, b) <= i < s.len() ==> s[i] == b,
        back_run(s, b) < s.len() ==> s[s.len() - back_run(s, b) - 1] != b,
    decreases s.len(),
{
    if s.len() > 0 && s.last() == b {
        back_run_bound(s.drop_last(), b);
        let k = back_run(s, b);
        assert forall|i: int| s.len() - k <= i < s.len() implies s[i] == b by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
        if k < s.len() { assert(s.drop_last()[s.len() - k - 1] == s[s.len() - k - 1]); }
    }
}
/// stripping after left padding gives the input without its own leading fill bytes
pub proof fn strip_left(s: Seq<u8>, b: u8, n: int)
    requires s.len() <= n,
    ensures cut_front(left_padded(s, b, n), b) =~= cut_front(s, b),
{
    let d = n - s.len();
    front_run_bound(s, b);
    let t = left_padded(s, b, n);
    assert forall|i: int| 0 <= i < d + front_run(s, b) implies t[i] == b by { if i >= d { assert(t[i] == s[i - d]); } }
    front_run_is(t, b, d + front_run(s, b));
}
/// stripping after front fitting gives the input without its own trailing zeros
pub proof fn strip_right(s: Seq<u8>, n: int)
    requires s.len() <= n,
    ensures cut_back(right_padded(s, n), 0) =~= cut_back(s, 0),
{
    back_run_bound(s, 0);
    let t = right_padded(s, n);
    let k = s.len() - back_run(s, 0);
    assert forall|i: int| k <= i < t.len() implies t[i] == 0 by { if i < s.len() { assert(t[i] == s[i]); } }
    back_run_is(t, 0, k);
}
/// padding what was stripped gives a value of that length back
pub proof fn pad_of_strip(s: Seq<u8>, b: u8)
    ensures left_padded(cut_front(s, b), b, s.len() as int) =~= s,
            b == 0 ==> right_padded(cut_back(s, 0), s.len() as int) =~= s,
{
    front_run_bound(s, b); back_run_bound(s, 0);
}

/// what the two stripping functions promise
pub open spec fn stripped_front(s: Seq<u8>, b: u8, r: Seq<u8>) -> bool {
    r.len() <= s.len() && r =~= s.skip(s.len() - r.len()) && (forall|i: int| 0 <= i < s.len() - r.len() ==> s[i] == b) && (r.len() > 0 ==> r[0] != b)
}
pub open spec fn stripped_back(s: Seq<u8>, r: Seq<u8>) -> bool {
    r.len() <= s.len() && r =~= s.take(r.len() as int) && (forall|i: int| r.len() <= i < s.len() ==> s[i] == 0) && (r.len() > 0 ==> r.last() != 0)
}
/// that determines their result
pub proof fn stripped_is(s: Seq<u8>, b: u8, r: Seq<u8>)
    ensures stripped_front(s, b, r) ==> r == cut_front(s, b), stripped_back(s, r) ==> r == cut_back(s, 0),
{
    if stripped_front(s, b, r) { front_run_is(s, b, s.len() - r.len()); }
    if stripped_back(s, r) { back_run_is(s, 0, r.len() as int); }
}
