//! C17, C18: spaces and rooted spaces.
#![cfg(not(kani))]
use crate::nd::*;
use linkspace_pkt::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

type L = Vec<Vec<u8>>;
fn seg() -> Vec<u8> {
    let n = match upto(11) { 0 => 0, 1 => 199 + upto(3), 2 => 20 + upto(40), k => 1 + k % 4 };
    let mut v: Vec<u8> = vec![0; n];
    for b in v.iter_mut().take(4) { *b = match upto(4) { 0 => 1, 1 => 2, 2 => b'/', _ => any() } }
    v
}
fn list(max: usize) -> L { (0..upto(max)).map(|_| seg()).collect() }
fn enc(l: &L) -> Vec<u8> { l.iter().flat_map(|s| std::iter::once(s.len() as u8).chain(s.iter().copied())).collect() }
/// the limits: at most 8 segments of 1..=200 bytes, 242 bytes in all
pub fn fits(l: &L) -> bool { l.len() <= 8 && l.iter().all(|s| (1..=200).contains(&s.len())) && l.iter().map(|s| s.len() + 1).sum::<usize>() <= 242 }
/// the list a byte string encodes
pub fn dec(mut b: &[u8]) -> Option<L> {
    let mut o = vec![];
    if b.len() > 242 { return None }
    while let Some((n, r)) = b.split_first() {
        let n = *n as usize;
        if n == 0 || n > 200 || n > r.len() { return None }
        o.push(r[..n].to_vec());
        b = &r[n..];
    }
    (o.len() <= 8).then_some(o)
}
fn of(s: &Space) -> L { s.iter().map(|c| c.to_vec()).collect() }
pub fn good() -> L { let mut l = list(8); for s in l.iter_mut() { if s.is_empty() { s.push(7) } s.truncate(200) } while !fits(&l) { l.pop(); } l }
fn buf(l: &L) -> SpaceBuf { SpaceBuf::try_from_iter(l.iter()).expect("a list within the limits is a space") }
fn cat(a: &L, b: &L) -> L { a.iter().chain(b).cloned().collect() }
pub fn index(l: &L) -> Vec<u8> {
    let mut o = vec![l.len() as u8];
    let mut at = 0;
    for i in 0..7 { at += l.get(i).map(|s| s.len() + 1).unwrap_or(0); o.push(at as u8) }
    o
}
pub fn root(l: &L) -> Vec<u8> { if l.is_empty() { vec![] } else { [index(l), enc(l)].concat() } }

contracts! {
    native build, unwind 1, bias 0 {
        let l = list(10);
        let r = SpaceBuf::try_from_iter(l.iter());
        ensures!(r.is_ok() == fits(&l), "a list is a space exactly when it is within the limits");
        if let Ok(s) = &r {
            ensures!(s.space_bytes() == enc(&l) && of(s) == l && s.calc_depth() == l.len(), "a space holds the segments it was made of");
            ensures!(s.check_components() == Ok(l.len() as u8), "and is accepted");
            ensures!(s.components().map(|c| c == l).unwrap_or(false), "components are the segments");
            ensures!(s.is_empty() == l.is_empty() && s.size() == enc(&l).len(), "emptiness and size");
        }
        // one by one
        let mut cur: Result<SpaceBuf, SpaceError> = Ok(SpaceBuf::new());
        let mut have: L = vec![];
        for s in &l {
            let want = cat(&have, &vec![s.clone()]);
            cur = cur.and_then(|c| c.try_push(s));
            ensures!(cur.is_ok() == fits(&want), "pushing is refused exactly when it breaks a limit");
            if cur.is_err() { break }
            have = want;
            ensures!(of(cur.as_ref().unwrap()) == have, "pushing appends");
        }
        cover!(l.len() > 8 && r.is_err(), "too deep");
        cover!(l.len() == 8 && r.is_ok(), "as deep as can be");
    }
    native edit, unwind 1, bias 0 {
        let (a, b) = (good(), list(9));
        let s = buf(&a);
        let c = seg();
        let pf = s.clone().try_push_front(&c);
        let want = cat(&vec![c.clone()], &a);
        ensures!(pf.is_ok() == fits(&want) && pf.map(|p| of(&p) == want).unwrap_or(true), "push_front prepends");
        let e = s.clone().extend_from_iter(b.iter());
        let want = cat(&a, &b);
        ensures!(e.is_ok() == fits(&want) && e.map(|p| of(&p) == want).unwrap_or(true), "extending appends the list");
        let b = good();
        let t = buf(&b);
        let want = cat(&a, &b);
        for (r, w) in [(s.try_join(&t), &want), (s.clone().try_append(&t), &want), (t.clone().try_append(&s), &cat(&b, &a)), (t.clone().try_prepend(&s), &want), (s.clone().try_prepend(&t), &cat(&b, &a))] {
            ensures!(r.is_ok() == fits(w) && r.map(|p| of(&p) == *w).unwrap_or(true), "joining concatenates or refuses");
        }
        let mut x = s.clone();
        x.truncate_last();
        ensures!(of(&x) == a[..a.len().saturating_sub(1)], "truncate_last drops the last segment");
    }
    native view, unwind 1, bias 0 {
        let a = good();
        let s = buf(&a);
        ensures!(s.head() == a.first().map(|v| &v[..]) && of(s.tail()) == a[1.min(a.len())..], "head and tail");
        ensures!(s.first() == a.first().map(|v| &v[..]).unwrap_or(&[]), "first");
        ensures!(s.parent().map(of) == (!a.is_empty()).then(|| a[..a.len().saturating_sub(1)].to_vec()), "parent");
        let (p, l) = s.pop();
        ensures!(of(p) == a[..a.len().saturating_sub(1)] && l == a.last().map(|v| &v[..]), "pop");
        let (p, l) = s.split_last();
        ensures!(of(p) == a[..a.len().saturating_sub(1)] && l.map(of) == a.last().map(|v| vec![v.clone()]), "split_last");
        match s.split_first() { None => ensures!(a.is_empty(), "no first"), Some((h, t)) => ensures!(h == a[0] && of(t) == a[1..], "split_first") }
        let n = upto(9);
        let (x, y) = s.split_at(n);
        ensures!(of(x) == a[..n.min(a.len())] && of(y) == a[n.min(a.len())..], "split_at");
        let b = if any() { let k = upto(a.len()); let mut b = a[..k].to_vec(); if upto(3) == 0 { if let Some(v) = b.last_mut() { v.pop(); if v.is_empty() { b.pop(); } } } b } else { good() };
        let t = buf(&b);
        let is = a.starts_with(&b);
        ensures!(s.starts_with(&t) == is && s.strip_prefix(&t).map(of) == is.then(|| a[b.len()..].to_vec()), "prefix tests");
        ensures!(s.to_array().iter().map(|v| v.to_vec()).collect::<L>() == a, "to_array");
        let scans: Vec<L> = s.scan_space().map(of).collect();
        ensures!(scans == (1..=a.len()).map(|i| a[..i].to_vec()).collect::<Vec<_>>(), "scan_space gives every prefix");
        let mut k = s.track();
        for i in 0..=a.len() {
            ensures!(of(k.upto()) == a[..i] && of(k.rest()) == a[i..] && k.component() == a.get(i).map(|v| &v[..]) && of(k.full()) == a, "a track is a position in the list");
            match k.next() { Some(n) => k = n, None => { ensures!(i == a.len(), "a track ends at the end"); } }
        }
        cover!(is && !b.is_empty() && b.len() < a.len(), "a proper prefix");
    }
    native raw, unwind 1, bias 0 {
        let mut b = enc(&list(10));
        if any() && !b.is_empty() { let i = upto(b.len() - 1); b[i] = any() }
        if upto(3) == 0 { b.truncate(upto(b.len())) }
        if upto(6) == 0 { b = (0..upto(260)).map(|_| 1).collect() }
        let want = dec(&b);
        let r = Space::from_slice(&b);
        ensures!(r.is_ok() == want.is_some(), "a byte string is a space exactly when it encodes a list within the limits");
        if let (Ok(s), Some(l)) = (r, &want) { ensures!(of(s) == *l && s.check_components() == Ok(l.len() as u8), "and holds that list"); }
        let o = SpaceBytes::try_from_inner(b.clone());
        ensures!(o.is_ok() == want.is_some(), "likewise owned");
        let _ = Space::from_unchecked(&b).checked_iter().map(|i| i.count());
        cover!(want.is_some() && b.len() > 200, "long");
        cover!(want.is_none() && b.len() == 242, "refused at full length");
    }
    native rooted, unwind 1, bias 0 {
        let l = list(10);
        let r = RootedSpaceBuf::try_from_iter(l.iter());
        ensures!(r.is_ok() == fits(&l), "a list is a rooted space exactly when it is within the limits");
        if let Ok(r) = &r {
            ensures!(r.rooted_bytes() == root(&l), "index and bytes");
            ensures!(r.check_components().is_ok() && r.depth() == l.len() && *r.space_depth() as usize == l.len() && r.is_empty() == l.is_empty(), "accepted, of its depth");
            ensures!(r.iter().map(|c| c.to_vec()).collect::<L>() == l && of(r.space()) == l, "iteration");
            let cs = r.comps_bytes();
            for i in 0..8 { ensures!(r.comp(i) == l.get(i).map(|v| &v[..]).unwrap_or(&[]) && cs[i] == r.comp(i) && of(r.components()[i]) == l[i.min(l.len())..(i + 1).min(l.len())], "segments by index"); }
            let (x, y) = (upto(8), upto(8));
            let (x, y) = (x.min(y), x.max(y));
            ensures!(of(r.range(x..y)) == l[x.min(l.len())..y.min(l.len())], "ranges of segments");
            ensures!(r.last() == l.last().map(|v| &v[..]).unwrap_or(&[]), "last");
            let s = r.space();
            ensures!(s.try_into_rooted().map(|q| q.rooted_bytes() == r.rooted_bytes()).unwrap_or(false), "indexing the bytes alone gives the same");
            ensures!(RootedSpace::from(r.rooted_bytes()).is_ok(), "accepted as bytes");
        }
        let a = good();
        let m = RootedSpaceBuf::try_from_iter(a.iter()).unwrap();
        let mut n = m.clone();
        let c = seg();
        let want = cat(&a, &vec![c.clone()]);
        let ok = n.try_append_component(&c).is_ok();
        ensures!(ok == fits(&want) && n.rooted_bytes() == root(if ok { &want } else { &a }), "appending one segment");
        let b = good();
        let j = m.clone().try_join(&buf(&b));
        let want = cat(&a, &b);
        ensures!(j.is_ok() == fits(&want) && j.map(|j| j.rooted_bytes() == root(&want)).unwrap_or(true), "joining");
    }
    native rooted_raw, unwind 1, bias 0 {
        let l = list(9);
        let mut b = [index(&l), enc(&l)].concat();
        if any() { let i = upto(7); b[i] = if any() { any() } else { b[i].wrapping_add(1) } }
        if any() && b.len() > 8 { let i = 8 + upto(b.len() - 9); b[i] = any() }
        if upto(3) == 0 { b.truncate(upto(b.len())) }
        let want = b.is_empty() || (b.len() >= 8 && dec(&b[8..]).map(|l| index(&l) == b[..8]).unwrap_or(false));
        let r = RootedSpace::from(&b);
        ensures!(r.is_ok() == want, "bytes are a rooted space exactly when their index is that of their segments");
        if let Ok(r) = r { ensures!(r.iter().map(|c| c.to_vec()).collect::<L>() == b.get(8..).and_then(dec).unwrap_or_default(), "and hold them"); let _ = (r.last(), r.components()); }
        cover!(want && l.len() == 8, "eight segments");
        cover!(!want && l.len() == 8, "eight segments refused");
    }
}
