//! C25: stamp ranges, stamp arithmetic, durations as text.
#![cfg(not(kani))]
use crate::nd::*;
use linkspace_core::stamp_fmt::*;
use linkspace_core::stamp_range::*;
use linkspace_pkt::*;
use std::cmp::Ordering;
use std::time::Duration;

const UNITS: [(u8, u128); 9] = [(b'Y', 31_557_600_000_000), (b'M', 2_592_000_000_000), (b'W', 604_800_000_000), (b'D', 86_400_000_000), (b'h', 3_600_000_000), (b'm', 60_000_000), (b's', 1_000_000), (b'l', 1_000), (b'u', 1)];
/// ( count unit )*, units in order and at most once; a count is decimal, at most u32::MAX
fn dur_of(t: &[u8]) -> Option<u128> {
    let (mut at, mut i, mut sum) = (0, 0, 0u128);
    while i < t.len() {
        let s = i;
        while i < t.len() && !t[i].is_ascii_alphabetic() { i += 1 }
        if i == t.len() { return None }
        let mut d = &t[s..i];
        if d.first() == Some(&b'+') { d = &d[1..] } // std's integers may carry a plus
        if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) { return None }
        let mut n = 0u128;
        for c in d { n = n * 10 + (*c - b'0') as u128; if n > u32::MAX as u128 { return None } }
        let k = UNITS.iter().position(|u| u.0 == t[i])?;
        if k < at { return None }
        at = k + 1;
        sum += UNITS[k].1 * n;
        i += 1;
    }
    Some(sum)
}
fn near(x: u64) -> u64 { match upto(3) { 0 => x, 1 => x.wrapping_add(1), 2 => x.wrapping_sub(1), _ => any() } }
fn text() -> Vec<u8> {
    let mut v = vec![];
    for k in 0..upto(5) {
        match upto(7) { 0 => v.push(any()), 1 => { v.push(0xc3); } 2 => v.push(UNITS[upto(8)].0), _ => { v.extend_from_slice(any::<u32>().to_string().as_bytes()); if upto(9) == 0 { v.push(b'9') } v.push(UNITS[(2 * k + upto(1)).min(8)].0) } }
    }
    v
}

contracts! {
    native range, unwind 1, bias 0 {
        let (a, b): (u64, u64) = match upto(3) { 0 => (any(), any()), 1 => (u64::MAX, any()), 2 => (any(), u64::MAX), _ => { let a: u64 = any(); (a, near(a)) } };
        let i = match upto(2) { 0 => near(a), 1 => near(b), _ => any() };
        let (lo, hi) = (a.min(b), a.max(b));
        for r in [StampRange::new_u64s(a, b), StampRange::new(Stamp::new(a), Stamp::new(b))] {
            ensures!(r.contains_u64(i) == (lo <= i && i <= hi) && r.contains(Stamp::new(i)) == r.contains_u64(i), "a range contains the stamps between its bounds");
            ensures!(r.bound_cmp(i) == if hi < i { Ordering::Less } else if lo > i { Ordering::Greater } else { Ordering::Equal }, "where the range lies from a stamp");
            ensures!(r.lower_bound().get() == lo && r.upper_bound().get() == hi, "its bounds");
            ensures!(r.is_ascending() == (a < b) && r.is_new_first() == (a >= b) && r.rev() == StampRange::new_u64s(b, a), "direction");
            let pos = if lo <= i && i <= hi { IterCmp::In } else if (i < lo) == (a <= b) { IterCmp::Pre } else { IterCmp::Post };
            ensures!(r.iter_cmp_u64(i) == pos && r.iter_cmp(Stamp::new(i)) == pos, "the place of a stamp along the direction of a range");
            let t = r.to_string();
            ensures!(t.parse::<StampRange>().map(|x| x == r).unwrap_or(false), "a printed range reads back");
            ensures!(*r.as_bound().start() == a && *r.as_bound().end() == b, "as an inclusive range");
        }
        ensures!(StampRange::asc_from(Stamp::new(a)).contains_u64(i) == (i >= a), "a range from a stamp on includes it");
        if a < u64::MAX { ensures!(StampRange::after(Stamp::new(a)).contains_u64(i) == (i > a), "a range after a stamp excludes it"); } else { let _ = StampRange::after(Stamp::new(a)); }
        ensures!(StampRange::ALL_ASC.contains_u64(i) && StampRange::ALL_DSC.contains_u64(i) && StampRange::default() == StampRange::ALL_DSC, "all stamps");
    }
    native range_text, unwind 1, bias 1 {
        let now: u64 = any();
        let now = any::<bool>().then(|| Stamp::new(now));
        let part = || -> String { match upto(6) { 0 => String::new(), 1 => "++".into(), 2 => "--".into(), 3 => any::<u64>().to_string(), 4 => "now".into(), 5 => format!("{}{}", if any() { "+" } else { "-" }, String::from_utf8_lossy(&text())), _ => String::from_utf8_lossy(&text()).into_owned() } };
        let (x, y) = (part(), part());
        let one = |s: &str| -> Option<u64> {
            let b = s.as_bytes();
            match b { b"++" => return Some(u64::MAX), b"--" => return Some(0), _ => {} }
            if !b.is_empty() && b.iter().all(|c| c.is_ascii_digit()) { if let Ok(v) = s.parse() { return Some(v) } }
            let now = now?.get();
            if b == b"now" { return Some(now) }
            let c = |v: u128| v.min(u64::MAX as u128) as u64;
            if let Some(r) = b.strip_prefix(b"+") { return dur_of(r).map(|d| now.saturating_add(c(d))) }
            if let Some(r) = b.strip_prefix(b"-") { return dur_of(r).map(|d| now.saturating_sub(c(d))) }
            None
        };
        for s in [&x, &y] { if !s.is_empty() { ensures!(stamp_from_str(s, now).ok().map(|v| v.get()) == one(s), "the stamp a text stands for"); } }
        if !x.contains("..") && !y.contains("..") {
            let r = StampRange::from_str_at(&format!("{x}..{y}"), now).ok();
            let start = if x.is_empty() { Some(u64::MAX) } else { one(&x) };
            let end = if y.is_empty() { Some(0) } else { one(&y) };
            ensures!(r == start.zip(end).map(|(a, b)| StampRange::new_u64s(a, b)), "the range a text stands for");
        }
    }
    native convert, unwind 1, bias 0 {
        let a: u64 = any();
        let s = Stamp::new(a);
        let r: StampRange = if any() { StampRange::new_u64s(a, any()) } else { StampRange::new_u64s(near(a), if any() { u64::MAX } else { near(u64::MAX) }) };
        ensures!(r.to_string().parse::<StampRange>().map(|x| x == r).unwrap_or(false), "a printed range reads back");
        ensures!(as_duration(s).as_micros() == a as u128 && from_systime(as_systime(Stamp::new(a >> 1))).get() == a >> 1, "a stamp counts microseconds");
    }
    native duration, unwind 1, bias 1 {
        let t = text();
        let r = parse_duration_str(&t);
        ensures!(r.as_ref().ok().map(|d| d.as_nanos()) == dur_of(&t).map(|v| v * 1000), "the duration a text stands for");
        let d = match upto(2) { 0 => Duration::from_micros(any()), 1 => { let k = UNITS[upto(8)].1 as u64; Duration::from_micros(near(k.wrapping_mul(any::<u64>() % (u64::MAX / k)))) } _ => r.unwrap_or_default().min(Duration::from_micros(u64::MAX)) };
        let p = duration_as_stamp_dfmt(d);
        ensures!(dur_of(p.as_bytes()) == Some(d.as_micros()), "a printed duration stands for that duration");
        ensures!(p.parse::<DurationStr>().map(|x| x.0 == d && x.stamp().get() as u128 == d.as_micros()).unwrap_or(false), "a printed duration reads back");
        cover!(dur_of(&t).is_some() && t.len() > 8, "several units");
    }
    native stamp_fn, unwind 1, bias 1 {
        let (mut now, mut cur) = (any::<u64>(), any::<u64>());
        let ef = StampEF { fixed_now: Some(Stamp::new(now)) };
        let args: Vec<Vec<u8>> = (0..upto(4)).map(|_| match upto(5) { 0 => vec![], 1 => text(), _ => [[&b"+"[..], b"++", b"-", b"--"][upto(3)].to_vec(), text()].concat() }).collect();
        let refs: Vec<&[u8]> = args.iter().map(|a| a.as_slice()).collect();
        let r = ef.apply(Stamp::new(cur), &refs);
        let mut want = Some(cur);
        for a in &args {
            let Some(c) = want else { break };
            want = match a.as_slice() {
                [] => Some(c),
                [b'+', b'+', r @ ..] => dur_of(r).map(|d| (c as u128 + d).min(u64::MAX as u128) as u64),
                [b'+', r @ ..] => dur_of(r).and_then(|d| u64::try_from(c as u128 + d).ok()),
                [b'-', b'-', r @ ..] => dur_of(r).map(|d| (c as u128).saturating_sub(d) as u64),
                [b'-', r @ ..] => dur_of(r).and_then(|d| (c as u128).checked_sub(d)).map(|x| x as u64),
                b"ticks" | b"val" | b"delta" | b"str" => return,
                _ => None,
            };
        }
        ensures!(r.ok() == want.map(|v| v.to_be_bytes().to_vec()), "each argument moves the stamp by its duration");
        cover!(want.is_some() && args.len() > 2, "several moves");
    }
}
