//! C25: stamp ranges and stamp arithmetic; every bound, stamp and duration is explored by the verifier.
use crate::nd::*;
use linkspace_core::stamp_range::*;
use linkspace_pkt::*;
use std::cmp::Ordering;
use std::time::Duration;

#[cfg(kani)] static mut MICROS: u128 = 0;
#[cfg(kani)] fn micros(_: &Duration) -> u128 { unsafe { MICROS } }

contracts! {
    full range, unwind 4, bias 0 {
        let (a, b): (u64, u64) = (any(), any());
        let i: u64 = any();
        let (lo, hi) = (a.min(b), a.max(b));
        for r in [StampRange::new_u64s(a, b), StampRange::new(Stamp::new(a), Stamp::new(b))] {
            ensures!(r.contains_u64(i) == (lo <= i && i <= hi) && r.contains(Stamp::new(i)) == r.contains_u64(i), "a range contains the stamps between its bounds");
            ensures!(r.bound_cmp(i) == if hi < i { Ordering::Less } else if lo > i { Ordering::Greater } else { Ordering::Equal }, "where the range lies from a stamp");
            ensures!(r.lower_bound().get() == lo && r.upper_bound().get() == hi, "its bounds");
            ensures!(r.is_ascending() == (a < b) && r.is_new_first() == (a >= b) && r.rev() == StampRange::new_u64s(b, a), "direction");
            let pos = if lo <= i && i <= hi { IterCmp::In } else if (i < lo) == (a <= b) { IterCmp::Pre } else { IterCmp::Post };
            ensures!(r.iter_cmp_u64(i) == pos && r.iter_cmp(Stamp::new(i)) == pos, "the place of a stamp along the direction of a range");
            ensures!(*r.as_bound().start() == a && *r.as_bound().end() == b, "as an inclusive range");
        }
        ensures!(StampRange::asc_from(Stamp::new(a)).contains_u64(i) == (i >= a), "a range from a stamp on includes it");
        if a < u64::MAX { ensures!(StampRange::after(Stamp::new(a)).contains_u64(i) == (i > a), "a range after a stamp excludes it"); } else { let _ = StampRange::after(Stamp::new(a)); }
        ensures!(StampRange::ALL_ASC.contains_u64(i) && StampRange::ALL_DSC.contains_u64(i) && StampRange::default() == StampRange::ALL_DSC, "all stamps");
    }
    #[kani::stub(std::time::Duration::as_micros, micros)]
    full arith, unwind 2, bias 0 {
        let (a, b): (u64, u64) = (any(), any());
        // every whole number of microseconds (std's as_micros is a stub that gives it; natively the duration is built)
        let us: u128 = any();
        #[cfg(kani)] let d = { unsafe { MICROS = us } Duration::ZERO };
        #[cfg(not(kani))] let d = { requires!(us / 1_000_000 <= u64::MAX as u128); Duration::new((us / 1_000_000) as u64, (us % 1_000_000) as u32 * 1000 + any::<u32>() % 1000) };
        let (up, down) = ((a as u128).saturating_add(us), (a as u128).checked_sub(us));
        let s = Stamp::new(a);
        ensures!(stamp_add(s, d).get() as u128 == up.min(u64::MAX as u128), "adding saturates");
        ensures!(stamp_sub(s, d).get() as u128 == down.unwrap_or(0), "subtracting saturates");
        ensures!(checked_stamp_add(s, d).map(|x| x.get() as u128) == (up <= u64::MAX as u128).then_some(up), "adding is exact or refused");
        ensures!(checked_stamp_sub(s, d).map(|x| x.get() as u128) == down, "subtracting is exact or refused");
        ensures!(match stamp_sub_stamp(s, Stamp::new(b)) { Ok(x) => a > b && x.get() == a - b, Err(x) => a <= b && x.get() == b - a }, "the distance of two stamps");
    }
}
