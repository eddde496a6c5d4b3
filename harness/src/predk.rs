//! C23, C24: step contracts of bit sets and integer predicates, complete over the types named (the verifier
//! explores every value; the only loops are those over the at most five rules of a predicate, the nine depths and
//! the bytes of a value, all unwound with unwinding assertions on).
use crate::nd::*;
use linkspace_core::predicate::bitset_test::*;
use linkspace_core::predicate::{Bound, Mask, SetValueInfo, TestOp, TestSet, UInt};
use linkspace_pkt::{AB, B64};

const OPS: [TestOp; 6] = [TestOp::Equal, TestOp::Less, TestOp::Greater, TestOp::Mask0, TestOp::Mask1, TestOp::Nop];
#[inline(always)] fn op() -> TestOp { OPS[upto(5)] }
/// the meaning of a rule
macro_rules! rule { ($o:expr, $v:expr, $r:expr) => { match $o { TestOp::Equal => $v == $r, TestOp::Less => $v < $r, TestOp::Greater => $v > $r, TestOp::Mask0 => $v & !$r == 0, TestOp::Mask1 => !$v & $r == 0, TestOp::Nop => true } } }

/// adding a rule to any bound, mask or predicate (not only those reachable) keeps what was accepted and what the rule
/// accepts: by induction over the rules, a predicate accepts a value exactly when every rule added to it does
macro_rules! step { ($t:ty) => {{
    let mut s = TestSet::<$t> { bound: Bound { low: any(), high: any() }, mask: Mask { ones: any(), zeros: any() } };
    let (o, r, v): (TestOp, $t, $t) = (op(), any(), any());
    let was_b = s.bound.test(v);
    let was_m = s.mask.test(&v);
    let was_any = s.bound.has_any();
    ensures!(was_b == (s.bound.low <= v && v <= s.bound.high), "a bound accepts what lies within it");
    ensures!(was_m == (v & !s.mask.zeros == 0 && !v & s.mask.ones == 0), "a mask accepts by its bits");
    let yes = rule!(o, v, r);
    ensures!(o.uint_func::<$t>()(&v, &r) == yes, "the comparison functions are the rules");
    s.add(o, r);
    let is_mask = matches!(o, TestOp::Mask0 | TestOp::Mask1);
    ensures!(s.bound.test(v) == (was_b && (is_mask || yes)), "a bound keeps exactly what a rule accepts");
    ensures!(s.mask.test(&v) == (was_m && (!is_mask || yes)), "a mask keeps exactly what a rule accepts");
    if !was_any { ensures!(!s.bound.has_any() , "a contradiction stays one"); }
    let d = TestSet::<$t>::DEFAULT;
    ensures!(d.bound.test(v) && d.mask.test(&v) && !Bound::<$t>::EMPTY.test(v), "no rule accepts everything");
    let e = TestSet::<$t>::new_eq(r);
    ensures!((e.bound.test(v) && e.mask.test(&v)) == (v == r), "one value");
    cover!(s.bound.test(v) && s.mask.test(&v) && o == TestOp::Less, "accepted");
}} }
#[cfg(kani)] fn no_trace() -> std::backtrace::Backtrace { std::backtrace::Backtrace::disabled() }
#[cfg(kani)] fn no_text(_: std::fmt::Arguments<'_>) -> String { String::new() }
/// refusing a rule
macro_rules! refuse { ($t:ty) => {{
    let mut s = TestSet::<$t> { bound: Bound { low: any(), high: any() }, mask: Mask { ones: any(), zeros: any() } };
    let (o, r): (TestOp, $t) = (op(), any());
    let mut t = s;
    t.add(o, r);
    requires!(t.mask.ones & !t.mask.zeros == 0); // the others are the known finding pred::kf_mask
    let mut b = s.bound;
    let bad = match b.try_add(o, r) { Ok(()) => false, Err(e) => { std::mem::forget(e); true } };
    ensures!(b == t.bound && bad != b.has_any(), "a bound refuses exactly what leaves nothing");
    let bad = match s.try_add(o, r) { Ok(()) => false, Err(e) => { std::mem::forget(e); true } };
    ensures!(s == t && bad == s.is_empty(), "a rule is refused exactly when nothing is accepted any more");
    cover!(bad, "a contradiction");
}} }
#[cfg(kani)] fn no_write(_: &mut dyn std::fmt::Write, _: std::fmt::Arguments<'_>) -> std::fmt::Result { Err(std::fmt::Error) }
macro_rules! combine { ($t:ty) => {{
    let (x, y) = (Bound::<$t> { low: any(), high: any() }, Bound::<$t> { low: any(), high: any() });
    let v: $t = any();
    let ok = x.high.min(y.high) >= x.low.max(y.low);
    match x.try_combine(y) {
        Ok(z) => { ensures!((ok || y.high < x.low || !x.has_any() || !y.has_any()) && z.test(v) == (x.test(v) && y.test(v)), "combining two bounds accepts what both accept"); }
        Err(e) => { std::mem::forget(e); ensures!(!ok && !(x.test(v) && y.test(v)), "only bounds with no overlap are refused"); }
    } // (the known finding pred::kf_combine: a second bound entirely below the first is not refused)
}} }
/// some mask that accepts anything (the others are the known finding pred::kf_mask)
macro_rules! mask { ($t:ty) => {{ let m = Mask::<$t> { ones: any(), zeros: any() }; requires!(m.ones & !m.zeros == 0); m }} }
/// the next value a mask accepts
macro_rules! next { ($t:ty) => {{
    let m = mask!($t);
    let (a, x): ($t, $t) = (any(), any());
    let n = m.in_set(a);
    if let Some(w) = n { ensures!(w >= a && m.test(&w), "the next value of a mask is accepted"); }
    if x >= a && m.test(&x) { ensures!(n.map(|w| w <= x).unwrap_or(false), "and none before it is"); }
    ensures!(m.has_any(), "a mask without contradiction accepts something");
    cover!(n.map(|w| w > a).unwrap_or(false), "a later value");
}} }
/// predicates in any state with any mask and bound
macro_rules! whole { ($t:ty) => {{
    let s = TestSet::<$t> { bound: Bound { low: any(), high: any() }, mask: mask!($t) };
    let v: $t = any();
    let want = s.bound.test(v) && s.mask.test(&v);
    let min = s.min_value();
    ensures!(s.has_any() == min.is_some() && s.is_empty() == min.is_none(), "emptiness");
    if let Some(m) = min { ensures!(s.bound.test(m) && s.mask.test(&m), "the smallest value is accepted"); }
    if want { ensures!(min.map(|m| m <= v).unwrap_or(false), "and none before it is"); }
    if min.is_some() {
        let at: $t = any();
        let i = s.info(at);
        ensures!(i.in_set == (s.bound.test(at) && s.mask.test(&at)), "membership");
        if let Some(w) = i.val { ensures!(w >= at && s.bound.test(w) && s.mask.test(&w) || w >= at && at < s.bound.low && s.mask.test(&w), "the next value is accepted"); }
        if want && v >= at { ensures!(i.val.map(|w| w <= v && s.bound.test(w)).unwrap_or(false), "and none before it is"); }
    }
    cover!(want && s.bound.low > 3 && s.mask.ones > 0, "accepted");
}} }
/// the rules a predicate reports
macro_rules! test { ($t:ty) => {{
    let s = TestSet::<$t> { bound: Bound { low: any(), high: any() }, mask: mask!($t) };
    let v: $t = any();
    ensures!(s.test(v) == (s.bound.test(v) && s.mask.test(&v)), "a predicate accepts what its bound and its mask accept");
    if s.bound.test(v) && s.mask.test(&v) {
        let (e, l, g, m0, m1) = s.unpack();
        ensures!(e.map(|e| v == e.0).unwrap_or(true) && l.map(|l| v < l.0).unwrap_or(true) && g.map(|g| v > g.0).unwrap_or(true) && m0.map(|m| v & !m.0 == 0).unwrap_or(true) && m1.map(|m| !v & m.0 == 0).unwrap_or(true), "the unpacked parts accept what the rules accept");
        ensures!(s.as_eq().map(|e| e == v).unwrap_or(true), "a predicate equal to a value accepts no other");
    }
    cover!(s.test(v), "accepted");
}} }

/// membership and enumeration
macro_rules! walk { ($t:ty) => {{
    let s = TestSet::<$t> { bound: Bound { low: any(), high: any() }, mask: mask!($t) };
    let at: $t = any();
    let (here, end) = (s.bound.test(at) && s.mask.test(&at), at > s.bound.high);
    let want = if end { None } else { Some(here) };
    let mut it = s.iter(at);
    ensures!(it.peek() == want, "membership of the value an iterator is at");
    // (an iterator at the last value of its type stays there)
    let last = at == <$t>::MAX;
    let want = if last && !here { None } else { want };
    ensures!(it.next() == want, "membership by the iterator");
    let to = if end { at } else { at.saturating_add(1) };
    ensures!(it.peek() == if to > s.bound.high { None } else { Some(s.bound.test(to) && s.mask.test(&to)) }, "and on to the next value");
    let mut pos = at;
    let got = s.iter_contains(&mut pos).next();
    ensures!(got == want && pos == if got.is_some() { to } else { at }, "membership by a counter");
    cover!(want == Some(true), "a member");
}} }
macro_rules! enumerate { ($t:ty) => {{
    let s = TestSet::<$t> { bound: Bound { low: any(), high: any() }, mask: mask!($t) };
    let (at, x): ($t, $t) = (any(), any());
    requires!(s.has_any());
    let acc = |v: $t| s.bound.test(v) && s.mask.test(&v);
    let mut e = s.enumerate(at);
    let first = e.next();
    match first {
        Some(f) => {
            ensures!(f >= at && acc(f), "the first accepted value from the start");
            if x >= at && x < f { ensures!(!acc(x), "is the first"); }
            match e.next() {
                Some(n) => { ensures!(n > f && acc(n), "then a later one"); if x > f && x < n { ensures!(!acc(x), "which is the next"); } cover!(n > f + 1, "with a gap"); }
                None => { if x > f { ensures!(!acc(x), "or the end when there is none"); } }
            }
        }
        None => { if x >= at { ensures!(!acc(x), "nothing when nothing is accepted"); } }
    }
}} }

contracts! {
    full step8, unwind 2, bias 0 { step!(u8) }
    full step16, unwind 2, bias 0 { step!(u16) }
    full step32, unwind 2, bias 0 { step!(u32) }
    full step64, unwind 2, bias 0 { step!(u64) }
    full step128, unwind 2, bias 0 { step!(u128) }
    full next8, unwind 2, bias 0 { next!(u8) }
    full next32, unwind 2, bias 0 { next!(u32) }
    full next64, unwind 2, bias 0 { next!(u64) }
    full next128, unwind 2, bias 0 { next!(u128) }
    full whole8, unwind 2, bias 0 { whole!(u8) }
    full whole16, unwind 2, bias 0 { whole!(u16) }
    full whole32, unwind 2, bias 0 { whole!(u32) }
    full whole64, unwind 2, bias 0 { whole!(u64) }
    full whole128, unwind 2, bias 0 { whole!(u128) }
    full test8, unwind 7, bias 0 { test!(u8) }
    full test64, unwind 7, bias 0 { test!(u64) }
    full test128, unwind 7, bias 0 { test!(u128) }
    full walk8, unwind 7, bias 0 { walk!(u8) }
    full walk64, unwind 7, bias 0 { walk!(u64) }
    full enumerate8, unwind 7, bias 0 { enumerate!(u8) }
    full enumerate64, unwind 7, bias 0 { enumerate!(u64) }
    full uint_ab, unwind 18, bias 0 {
        let (a, b): (u128, u128) = (any(), any());
        let (x, y) = (AB(a.to_be_bytes()), AB(b.to_be_bytes()));
        fn n(v: AB<[u8; 16]>) -> u128 { u128::from_be_bytes(v.0) }
        ensures!((x < y) == (a < b) && (x == y) == (a == b), "order");
        ensures!(UInt::inc(x).map(n) == a.checked_add(1) && UInt::decr(x).map(n) == a.checked_sub(1), "increment and decrement");
        ensures!(UInt::checked_add(x, y).map(n) == a.checked_add(b) && UInt::checked_sub(x, y).map(n) == a.checked_sub(b), "checked addition and subtraction");
        let (o, c) = UInt::overflowing_add(x, y);
        ensures!((n(o), c) == a.overflowing_add(b), "wrapping addition");
        ensures!(n(x.bit_and(y)) == a & b && n(x.bit_or(y)) == a | b && n(UInt::not(x)) == !a, "bit operations");
        let k: u32 = any();
        let ((l, f), (r, g)) = (UInt::overflowing_shl(x, k), UInt::overflowing_shr(x, k));
        ensures!((n(l), f) == a.overflowing_shl(k) && (n(r), g) == a.overflowing_shr(k), "shifts by the amount modulo the width");
        ensures!(UInt::leading_zeros(&x) == a.leading_zeros() && UInt::leading_ones(&x) == a.leading_ones() && UInt::trailing_zeros(&x) == a.trailing_zeros() && UInt::trailing_ones(&x) == a.trailing_ones(), "leading and trailing bits");
        ensures!(n(<AB<[u8; 16]> as UInt>::MIN) == 0 && n(<AB<[u8; 16]> as UInt>::MAX) == u128::MAX && n(<AB<[u8; 16]> as UInt>::ONE) == 1 && <AB<[u8; 16]> as UInt>::BITS == 128, "constants");
    }
    full uint_b64, unwind 34, bias 0 {
        let (a, b): ([u8; 32], [u8; 32]) = (any(), any());
        let (x, y) = (B64(a), B64(b));
        let i = upto(31);
        ensures!(x.bit_and(y).0[i] == a[i] & b[i] && x.bit_or(y).0[i] == a[i] | b[i] && UInt::not(x).0[i] == !a[i], "bit operations");
        let w = |v: &[u8; 32]| -> (u128, u128) { (u128::from_be_bytes(v[..16].try_into().unwrap()), u128::from_be_bytes(v[16..].try_into().unwrap())) };
        let ((ah, al), (bh, bl)) = (w(&a), w(&b));
        ensures!((x < y) == ((ah, al) < (bh, bl)), "order");
        let add = |h: u128, l: u128| { let (lo, c) = al.overflowing_add(l); ah.checked_add(h).and_then(|v| v.checked_add(c as u128)).map(|v| (v, lo)) };
        let sub = |h: u128, l: u128| { let (lo, c) = al.overflowing_sub(l); ah.checked_sub(h).and_then(|v| v.checked_sub(c as u128)).map(|v| (v, lo)) };
        ensures!(UInt::inc(x).map(|v| w(&v.0)) == add(0, 1) && UInt::decr(x).map(|v| w(&v.0)) == sub(0, 1), "increment and decrement");
        ensures!(UInt::checked_add(x, y).map(|v| w(&v.0)) == add(bh, bl) && UInt::checked_sub(x, y).map(|v| w(&v.0)) == sub(bh, bl), "checked addition and subtraction");
        let (o, c) = UInt::overflowing_add(x, y);
        ensures!(c == add(bh, bl).is_none() && w(&o.0).1 == al.wrapping_add(bl), "wrapping addition");
        ensures!(<B64<[u8; 32]> as UInt>::MIN.0 == [0; 32] && <B64<[u8; 32]> as UInt>::MAX.0 == [255; 32] && w(&<B64<[u8; 32]> as UInt>::ONE.0) == (0, 1) && <B64<[u8; 32]> as UInt>::BITS == 256, "constants");
    }
    full bits, unwind 2, bias 0 {
        let (a, b): (u32, u32) = (any(), any());
        let (s, o): (BitTestSet, BitTestSet) = (BitTestSet(a), BitTestSet(b));
        let (d, x): (u8, u8) = (any(), any());
        let has = |v: u8| v < 32 && a >> v & 1 == 1;
        ensures!(s.contains(d) == has(d), "a bit set contains its bits");
        match s.next_depth(d) {
            Some(n) => { ensures!(n > d && has(n), "the next member is a later member"); if x > d && has(x) { ensures!(n <= x, "and none is before it"); } }
            None => { if x > d { ensures!(!has(x), "no later member"); } }
        }
        ensures!(s.contains_min(d) == (has(d) || s.next_depth(d).is_some()), "a member at or after");
        ensures!(s.info(d) == SetValueInfo { in_set: has(d), val: if has(d) { Some(d) } else { s.next_depth(d) } }, "the member at or after");
        ensures!(s.and(o).contains(d) == (s.contains(d) && o.contains(d)), "the intersection contains what both contain");
        let ge: u32 = any();
        ensures!(!SPLenTestSet::NONE.contains(d), "no depth");
        if d != 8 { // the known finding pred::kf_depth8
            ensures!(SPLenTestSet::ALL.contains(d) == (d <= 8) && BitTestSet::<8>::default().contains(d) == (d <= 8), "all depths");
            ensures!(SPLenTestSet::greater_eq(ge).contains(d) == (d <= 8 && d as u32 >= ge), "depths from a value on");
        }
        match s.checked_shift(x) {
            Some(t) => { ensures!(x < 32 && t.contains(d) == (d < 32 && d >= x && has(d - x)), "shifting moves every member"); }
            None => { ensures!(x >= 32, "a shift is refused when it moves everything out"); }
        }
    }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    full refuse8, unwind 2, bias 0 { refuse!(u8) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    full refuse64, unwind 2, bias 0 { refuse!(u64) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(core::fmt::write, no_write)]
    full combine64, unwind 2, bias 0 { combine!(u64) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    full bits_combine, unwind 2, bias 0 {
        let (a, b): (u32, u32) = (any(), any());
        let (s, o): (BitTestSet, BitTestSet) = (BitTestSet(a), BitTestSet(b));
        match s.try_combine(o) { Ok(c) => { ensures!(a & b != 0 && c.0 == a & b, "combining sets that overlap"); } Err(e) => { std::mem::forget(e); ensures!(a & b == 0, "only sets with no overlap are refused"); } }
    }
    full bits_rules, unwind 11, bias 0 {
        let t = TestSet::<u8> { bound: Bound { low: any(), high: any() }, mask: mask!(u8) };
        let d: u8 = any();
        let s = SPLenTestSet::from_rules(&t);
        ensures!(s.contains(d) == (d <= 8 && t.bound.test(d) && t.mask.test(&d)), "a depth set contains the depths its rules accept");
    }
}
