//! C23, C24: bit-set and integer predicates.
#![cfg(not(kani))]
use crate::nd::*;
use linkspace_core::predicate::bitset_test::*;
use linkspace_core::predicate::{Bound, Mask, SetValueInfo, TestOp, TestSet, UInt};
use linkspace_pkt::{ruint, AB, B64, U256};
use std::fmt::Debug;

const OPS: [TestOp; 6] = [TestOp::Equal, TestOp::Less, TestOp::Greater, TestOp::Mask0, TestOp::Mask1, TestOp::Nop];
/// the meaning of a rule, over the big-endian bytes of the number
fn rule(op: TestOp, v: &[u8], r: &[u8]) -> bool {
    match op {
        TestOp::Equal => v == r,
        TestOp::Less => v < r,
        TestOp::Greater => v > r,
        TestOp::Mask0 => v.iter().zip(r).all(|(a, b)| a & !b == 0),
        TestOp::Mask1 => v.iter().zip(r).all(|(a, b)| !a & b == 0),
        _ => true,
    }
}
fn be<U: UInt>(u: U) -> Vec<u8> { u.to_be_vec() }
/// rules whose masks leave something (contradicting masks are the known finding `kf_mask`)
fn rules<U: UInt>(gen: &dyn Fn() -> U) -> Vec<(TestOp, U)> {
    let mut rs = any_rules(gen);
    let (mut ones, mut zeros) = (U::MIN, U::MAX);
    rs.retain(|(o, r)| {
        let (a, b) = match o { TestOp::Mask0 => (ones, zeros.bit_and(*r)), TestOp::Mask1 => (ones.bit_or(*r), zeros), _ => (ones, zeros) };
        let ok = a.bit_and(b.not()) == U::MIN;
        if ok { ones = a; zeros = b }
        ok
    });
    rs
}
fn any_rules<U: UInt>(gen: &dyn Fn() -> U) -> Vec<(TestOp, U)> {
    (0..upto(5)).map(|_| {
        let op = OPS[upto(5)];
        // masks that leave something, now and then
        let v = match op { TestOp::Mask0 if any::<u8>() % 3 > 0 => gen().bit_or(gen()).bit_or(gen()), TestOp::Mask1 if any::<u8>() % 3 > 0 => gen().bit_and(gen()).bit_and(gen()), _ => gen() };
        (op, v)
    }).collect()
}
fn holds<U: UInt>(rs: &[(TestOp, U)], v: U) -> bool { rs.iter().all(|(o, r)| rule(*o, &be(v), &be(*r))) }

fn set_of<U: UInt>(gen: &dyn Fn() -> U, near: &dyn Fn(U) -> U) {
    let rs = rules(gen);
    let mut t = TestSet::<U>::DEFAULT;
    let mut b = Bound::<U>::DEFAULT;
    let (mut refused, mut brefused) = (false, false);
    for (o, r) in &rs {
        if any::<bool>() { refused |= t.try_add(*o, *r).is_err() } else { t.add(*o, *r) }
        brefused |= b.try_add(*o, *r).is_err();
    }
    let bounds: Vec<_> = rs.iter().copied().filter(|x| !matches!(x.0, TestOp::Mask0 | TestOp::Mask1)).collect();
    for _ in 0..12 {
        let v = match upto(3) { 0 => gen(), 1 => near(t.bound.low), 2 => near(t.bound.high), _ => match rs.get(upto(4)) { Some(x) => near(x.1), None => gen() } };
        let want = holds(&rs, v);
        ensures!(t.test(v) == want, "a predicate accepts exactly what every rule accepts");
        if want {
            ensures!(!refused && !t.is_empty() && t.has_any(), "rules that accept a value do not contradict each other");
            ensures!(t.bound.low <= v && v <= t.bound.high && t.min_value().unwrap() <= v, "the bounds enclose every accepted value");
            let i = t.info(v);
            ensures!(i.in_set && i.val == Some(v), "an accepted value is in the set");
            ensures!(t.as_eq().map(|e| e == v).unwrap_or(true), "a predicate equal to a value accepts no other");
            let (e, l, g, m0, m1) = t.unpack();
            ensures!(e.map(|e| e.0 == v).unwrap_or(true) && l.map(|l| v < l.0).unwrap_or(true) && g.map(|g| v > g.0).unwrap_or(true) && m0.map(|m| rule(TestOp::Mask0, &be(v), &be(m.0))).unwrap_or(true) && m1.map(|m| rule(TestOp::Mask1, &be(v), &be(m.0))).unwrap_or(true), "the unpacked parts accept what the rules accept");
        } else if t.has_any() {
            let i = t.info(v);
            ensures!(!i.in_set && i.val.map(|n| n > v && holds(&rs, n)).unwrap_or(true), "a refused value is not in the set, and the next one is a later accepted value");
        }
        ensures!(b.test(v) == holds(&bounds, v), "a bound accepts exactly what its comparison rules accept");
        if holds(&bounds, v) { ensures!(!brefused && b.has_any(), "a bound refuses only contradictions"); }
    }
    match t.min_value() {
        Some(m) => { ensures!(holds(&rs, m) && t.test(m), "the smallest value is accepted"); }
        None => { ensures!(t.is_empty() && !t.test(gen()), "an empty predicate accepts nothing"); }
    }
    // its own rules, added one by one, are the same predicate
    let mut t2 = TestSet::<U>::DEFAULT;
    for (o, r) in t.rules() { t2.add(o, r) }
    let mut b2 = Bound::<U>::DEFAULT;
    if b.has_any() { for (o, r) in b.iter() { b2.add(o, r) } }
    for _ in 0..4 {
        let v = match upto(2) { 0 => gen(), 1 => near(t.bound.low), _ => near(t.bound.high) };
        ensures!(t2.test(v) == holds(&rs, v), "the reported rules describe the predicate");
        if b.has_any() { ensures!(b2.test(v) == b.test(v), "the reported rules describe the bound"); }
    }
    let o = TestSet { bound: b, mask: t.mask };
    let (c, rs3) = (rules(gen), rules(gen));
    let (mut x, mut y) = (Bound::<U>::DEFAULT, Bound::<U>::DEFAULT);
    for (o, r) in &c { x.add(*o, *r) }
    for (o, r) in &rs3 { y.add(*o, *r) }
    let z = x.try_combine(y);
    for _ in 0..6 {
        let v = match upto(2) { 0 => gen(), 1 => near(x.low), _ => near(y.high) };
        let want = x.test(v) && y.test(v);
        ensures!(z.as_ref().map(|z| z.test(v)).unwrap_or(false) == want, "combining two bounds accepts what both accept");
    }
    // (the known finding `kf_combine`: a second bound entirely below the first is not refused)
    if let Ok(z) = &z { ensures!(z.has_any() || y.high < x.low || !x.has_any() || !y.has_any(), "combining contradicting bounds is refused"); }
    cover!(rs.len() > 2 && t.has_any(), "several compatible rules");
    cover!(refused, "a contradiction");
}
macro_rules! near { ($t:ty) => { |v: $t| match upto(3) { 0 => v, 1 => v.wrapping_add(1), 2 => v.wrapping_sub(1), _ => v ^ (1 << upto(<$t>::BITS as usize - 1)) } } }

contracts! {
    native small, unwind 1, bias 0 {
        // every value of a byte
        let rs = rules::<u8>(&|| any());
        let mut t = TestSet::<u8>::DEFAULT;
        let mut err = None;
        for (k, (o, r)) in rs.iter().enumerate() { if t.try_add(*o, *r).is_err() && err.is_none() { err = Some(k) } }
        let want: Vec<u8> = (0..=255).filter(|v| holds(&rs, *v)).collect();
        ensures!(err.is_some() == (want.is_empty()), "a rule is refused exactly when nothing is accepted any more");
        ensures!(want == (0..=255u8).filter(|v| t.test(*v)).collect::<Vec<_>>(), "a predicate accepts exactly what every rule accepts");
        ensures!(t.has_any() == !want.is_empty() && t.min_value() == want.first().copied(), "the smallest accepted value");
        let at: u8 = any();
        let from: Vec<u8> = want.iter().copied().filter(|v| *v >= at).collect();
        if t.has_any() {
            let below = at < t.bound.low;
            let i = t.info(at);
            ensures!(i.in_set == t.test(at) && i.val == from.first().copied(), "the next accepted value");
            ensures!(t.enumerate(at).collect::<Vec<_>>() == from, "enumeration gives every accepted value from the start on");
            ensures!(t.mask.in_set(at) == (at..=255).find(|v| t.mask.test(v)), "the next value of a mask");
        }
        // membership up to the upper bound, one answer for each value
        let mut pos = at;
        // (a counter that reached the last value of its type stays there)
        let n = 255 - at as usize;
        let got: Vec<bool> = t.iter_contains(&mut pos).take(n).collect();
        let exp: Vec<bool> = if at > t.bound.high { vec![] } else { (at..=t.bound.high).map(|v| t.test(v)).collect() };
        let upto = exp.iter().copied().take(n).collect::<Vec<_>>();
        ensures!(got == upto, "membership from a value on");
        ensures!(t.iter(at).take(n).collect::<Vec<_>>() == upto && t.iter(at).peek() == exp.first().copied(), "membership by the iterator");
        let s = SPLenTestSet::from_rules(&t);
        ensures!((0..=8).all(|d| s.contains(d) == want.contains(&d)), "a depth set contains the depths its rules accept");
        cover!(want.len() > 3 && want.len() < 60, "some values");
    }
    native wide, unwind 1, bias 0 {
        match upto(6) {
            0 => set_of::<u8>(&|| any(), &near!(u8)),
            1 => set_of::<u16>(&|| any(), &near!(u16)),
            2 => set_of::<u32>(&|| any(), &near!(u32)),
            3 => set_of::<u64>(&|| any(), &near!(u64)),
            4 => set_of::<u128>(&|| any(), &near!(u128)),
            5 => { let n = near!(u128); set_of::<AB<[u8; 16]>>(&|| AB(any::<u128>().to_be_bytes()), &|v| AB(n(u128::from_be_bytes(v.0)).to_be_bytes())) }
            _ => {
                let g = || { let a: u128 = any(); let b: u128 = any(); let mut o = [0u8; 32]; o[..16].copy_from_slice(&a.to_be_bytes()); o[16..].copy_from_slice(&b.to_be_bytes()); o };
                if any() { set_of::<B64<[u8; 32]>>(&|| B64(g()), &|v| match upto(2) { 0 => v, 1 => v.inc().unwrap_or(v), _ => v.decr().unwrap_or(v) }) }
                else { set_of::<U256>(&|| U256::from_be_bytes(g()), &|v| match upto(2) { 0 => v, 1 => v.inc().unwrap_or(v), _ => v.decr().unwrap_or(v) }) }
            }
        }
    }
    native bits, unwind 1, bias 0 {
        let l: Vec<u8> = (0..upto(10)).map(|_| any::<u8>() % 40).collect();
        let s = SPLenTestSet::from_el_iter(l.iter().copied());
        let has = |v: u8| v < 32 && l.contains(&v);
        for d in 0..=255u8 {
            ensures!(s.contains(d) == has(d), "a bit set contains what was put in");
            let next = (d as u16 + 1..32).map(|x| x as u8).find(|x| has(*x));
            ensures!(s.next_depth(d) == next, "the next member");
            ensures!(s.contains_min(d) == (has(d) || next.is_some()), "a member at or after");
            let i = s.info(d);
            ensures!(i == SetValueInfo { in_set: has(d), val: if has(d) { Some(d) } else { next } }, "the member at or after");
        }
        let m: u32 = any();
        let ge = any::<u32>() % 40;
        let g = SPLenTestSet::greater_eq(ge);
        for d in 0..=255u8 {
            ensures!(!SPLenTestSet::NONE.contains(d), "no depth");
            if d == 8 { continue } // the known finding `kf_depth8`
            ensures!(SPLenTestSet::ALL.contains(d) == (d <= 8) && BitTestSet::default().contains(d) == (d <= 8), "all depths");
            ensures!(g.contains(d) == (d <= 8 && d as u32 >= ge), "depths from a value on");
        }
        let o: BitTestSet = BitTestSet(m);
        ensures!((0..=255).all(|d| s.and(o).contains(d) == (s.contains(d) && o.contains(d))), "the intersection contains what both contain");
        let c = s.try_combine(o);
        ensures!(c.is_ok() == (s.0 & m != 0) && c.map(|c| c == s.and(o)).unwrap_or(true), "combining is refused exactly when nothing is left");
        let by = any::<u8>() % 40;
        match s.checked_shift(by) {
            Some(t) => { ensures!((0..32u8).all(|d| t.contains(d) == (d >= by && has(d - by))), "shifting moves every member"); }
            None => { ensures!(by >= 32, "a shift is refused when it moves everything out"); }
        }
    }
    native kf_depth8, unwind 1, bias 0 {
        ensures!(SPLenTestSet::ALL.contains(8) && BitTestSet::default().contains(8) && SPLenTestSet::greater_eq(upto(8) as u32).contains(8), "the deepest depth is one of all depths");
    }
    native kf_mask, unwind 1, bias 0 {
        let rs = any_rules::<u8>(&|| any());
        let mut t = TestSet::<u8>::DEFAULT;
        for (o, r) in &rs { t.add(*o, *r) }
        requires!(!t.mask.has_any());
        let at: u8 = any();
        ensures!(t.is_empty() && !t.test(at) && t.min_value().is_none() && t.try_add(TestOp::Nop, 0).is_err(), "contradicting masks accept nothing");
    }
    native kf_combine, unwind 1, bias 0 {
        let (x, y): (Bound<u8>, Bound<u8>) = (Bound { low: any(), high: any() }, Bound { low: any(), high: any() });
        requires!(x.has_any() && y.has_any() && y.high < x.low);
        ensures!(x.try_combine(y).is_err(), "a bound entirely below another is refused");
    }
    native uint_ops, unwind 1, bias 0 {
        fn same<U: UInt>(of: &dyn Fn([u8; 32]) -> U) {
            let g = || { let a: u128 = any(); let b: u128 = any(); let mut o = [0u8; 32]; o[..16].copy_from_slice(&b.to_be_bytes()); o[16..].copy_from_slice(&a.to_be_bytes()); o };
            let (x, y) = (of(g()), of(if any() { g() } else { [[0u8; 32], [255; 32]][upto(1)] }));
            let n = U::BITS as usize;
            let w = |u: U| { let v = u.to_be_vec(); let mut o = [0u8; 64]; o[64 - v.len()..].copy_from_slice(&v); ruint::Uint::<512, 8>::from_be_bytes(o) };
            let one = ruint::Uint::<512, 8>::from(1u64);
            let lim = one << n;
            ensures!(x.to_be_vec().len() * 8 == n && w(U::MIN).is_zero() && w(U::MAX) == lim - one && w(U::ONE) == one, "constants");
            ensures!((x < y) == (w(x) < w(y)) && (x == y) == (w(x) == w(y)), "order");
            let s = w(x) + w(y);
            let fit = |v: ruint::Uint<512, 8>| (v < lim).then_some(v);
            ensures!(x.checked_add(y).map(w) == fit(s), "checked addition");
            ensures!(x.checked_sub(y).map(w) == (x >= y).then(|| w(x) - w(y)), "checked subtraction");
            ensures!(x.inc().map(w) == fit(w(x) + one) && x.decr().map(w) == (x > U::MIN).then(|| w(x) - one), "increment and decrement");
            let (o, c) = x.overflowing_add(y);
            ensures!(w(o) == s % lim && c == (s >= lim), "wrapping addition");
            ensures!(w(x.bit_and(y)) == w(x) & w(y) && w(x.bit_or(y)) == w(x) | w(y) && w(x.not()) == lim - one - w(x), "bit operations");
            let k = upto(n + 3) as u32;
            let (l, a) = x.overflowing_shl(k);
            let (r, b) = x.overflowing_shr(k);
            ensures!(w(l) == (w(x) << (k as usize % n)) % lim && w(r) == w(x) >> (k as usize % n) && a == (k as usize >= n) && b == a, "shifts by the amount modulo the width");
            let bits: Vec<bool> = x.to_be_vec().iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
            let (lz, lo) = (bits.iter().take_while(|b| !**b).count(), bits.iter().take_while(|b| **b).count());
            let (tz, to) = (bits.iter().rev().take_while(|b| !**b).count(), bits.iter().rev().take_while(|b| **b).count());
            ensures!(x.leading_zeros() as usize == lz && x.leading_ones() as usize == lo && x.trailing_zeros() as usize == tz && x.trailing_ones() as usize == to, "leading and trailing bits");
        }
        macro_rules! nat { ($t:ty) => { same::<$t>(&|b| <$t>::from_be_bytes(b[32 - std::mem::size_of::<$t>()..].try_into().unwrap())) } }
        match upto(7) {
            0 => nat!(u8), 1 => nat!(u16), 2 => nat!(u32), 3 => nat!(u64), 4 => nat!(u128),
            5 => same::<AB<[u8; 16]>>(&|b| AB(b[16..].try_into().unwrap())),
            6 => same::<B64<[u8; 32]>>(&|b| B64(b)),
            _ => same::<U256>(&|b| U256::from_be_bytes(b)),
        }
    }
}
