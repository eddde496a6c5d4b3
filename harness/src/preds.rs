//! C26: packet predicates.
#![cfg(not(kani))]
use crate::nd::*;
use crate::point::{gen, key, DATA, ERR, KEY, LINK, P};
use crate::space::{dec, good};
use linkspace_core::env::RecvPktPtr;
use linkspace_core::matcher::WatchEntry;
use linkspace_core::predicate::exprs::{ExtPredicate, Predicate};
use linkspace_core::predicate::pkt_predicates::PktPredicates;
use linkspace_core::predicate::predicate_type::PredicateType;
use linkspace_core::predicate::test_pkt::{compile_predicates, PktStreamTest};
use linkspace_core::query::Query;
use linkspace_pkt::abe::eval::ABList;
use linkspace_pkt::*;
use linkspace_pkt::abe::ast::Ctr;
use std::ops::ControlFlow;

pub const IDS: [(&str, usize); 20] = [("hash", 32), ("group", 32), ("domain", 16), ("prefix", 0), ("spacename", 0), ("pubkey", 32), ("create", 8), ("depth", 1), ("links_len", 2), ("data_size", 2), ("recv", 8), ("hop", 4), ("stamp", 8), ("ubits0", 4), ("ubits1", 4), ("ubits2", 4), ("ubits3", 4), ("type", 1), ("netflags", 1), ("size", 2)];
const OPS: [&str; 10] = ["=", "<", ">", "0", "1", "?", ">=", "<=", "=*", "*="];
#[derive(Clone, Debug)]
pub struct R { pub id: usize, pub op: &'static str, pub val: Vec<u8>, pub space: Vec<Vec<u8>> }
/// the value a packet has for a field, and whether its type has that field
fn field(p: &P, recv: u64, id: &str) -> Option<Vec<u8>> {
    let v = match id {
        "hash" => p.hash().to_vec(),
        "group" => p.group.to_vec(),
        "domain" => p.domain.to_vec(),
        "pubkey" => p.key.as_ref()?.pubkey_bytes().to_vec(),
        "create" => p.stamp.to_be_bytes().to_vec(),
        "depth" => vec![p.space.len() as u8],
        "links_len" => (p.links.len() as u16).to_be_bytes().to_vec(),
        "data_size" => (p.data.len() as u16).to_be_bytes().to_vec(),
        "recv" => return Some(recv.to_be_bytes().to_vec()),
        "netflags" => p.head[3..4].to_vec(),
        "hop" => p.head[4..8].to_vec(),
        "stamp" => p.head[8..16].to_vec(),
        "ubits0" => p.head[16..20].to_vec(),
        "ubits1" => p.head[20..24].to_vec(),
        "ubits2" => p.head[24..28].to_vec(),
        "ubits3" => p.head[28..32].to_vec(),
        "type" => vec![p.kind],
        "size" => ((64 + (p.size() + 7) / 8 * 8) as u16).to_be_bytes().to_vec(),
        _ => unreachable!(),
    };
    let need = match id { "group" | "domain" | "create" | "depth" | "links_len" => LINK, "pubkey" => KEY, _ => DATA };
    (p.kind & 0x7f & need == need & if id == "pubkey" { 4 | 3 } else { need }).then_some(v).filter(|_| p.kind & DATA != 0)
}
pub fn holds(r: &R, p: &P, recv: u64) -> bool {
    let id = IDS[r.id].0;
    match id {
        "prefix" => return p.has_links() && p.space.len() >= r.space.len() && p.space[..r.space.len()] == r.space[..] || r.space.is_empty(),
        "spacename" => return p.has_links() && p.space == r.space,
        _ => {}
    }
    let Some(v) = field(p, recv, id) else { return false };
    let w = &r.val;
    match r.op {
        "=" => v == *w, "<" => v < *w, ">" => v > *w, ">=" => v >= *w, "<=" => v <= *w,
        "0" => v.iter().zip(w).all(|(a, b)| a & !b == 0),
        "1" => v.iter().zip(w).all(|(a, b)| !a & b == 0),
        "?" => true,
        "=*" => v.starts_with(w), "*=" => v.ends_with(w),
        _ => unreachable!(),
    }
}
/// the statement as a list: the value as its bytes, now and then without its leading zeros
fn list(r: &R) -> ABList {
    let (id, _) = IDS[r.id];
    let mut l = ABList::DEFAULT;
    let mut first = true;
    let mut push = |c: Option<Ctr>, b: &[u8]| { let _ = first; first = false; l.push_v((c, b.to_vec())) };
    push(None, id.as_bytes());
    push(Some(Ctr::Colon), r.op.as_bytes());
    let mut l = l;
    match id {
        "prefix" | "spacename" => { l.push_v((Some(Ctr::Colon), vec![])); for s in &r.space { l.push_v((Some(Ctr::FSlash), s.clone())) } }
        _ => {
            let mut v = r.val.clone();
            if !r.op.contains('*') && !matches!(IDS[r.id].1, 1 | 32) && any() { if id == "domain" { while v.len() > 1 && v[0] == 0 { v.remove(0); } } }
            l.push_v((Some(Ctr::Colon), v))
        }
    }
    l
}
fn near(v: &mut [u8]) {
    match upto(6) {
        0 => { for b in v.iter_mut().rev() { let (x, c) = b.overflowing_add(1); *b = x; if !c { break } } }
        1 => { for b in v.iter_mut().rev() { let (x, c) = b.overflowing_sub(1); *b = x; if !c { break } } }
        2 => { for b in v.iter_mut() { *b = any() } }
        3 => v.fill([0, 255][upto(1)]),
        4 => { let k = upto(v.len() - 1); for b in v[..k].iter_mut() { *b = 0 } }
        _ => {}
    }
}
fn rule(p: &P, recv: u64) -> R { rule_of(p, recv, upto(IDS.len() - 1)) }
fn rule_of(p: &P, recv: u64, id: usize) -> R {
    let n = IDS[id].1;
    if n == 0 {
        let mut space = if any() { p.space.clone() } else { good() };
        if any() { space.truncate(upto(8)) } else if upto(3) == 0 { if let Some(s) = space.last_mut() { s[0] ^= 1 } }
        return R { id, op: "=", val: vec![], space };
    }
    let op = OPS[upto(9)];
    if IDS[id].0 == "recv" && matches!(op, "0" | "1" | "=*" | "*=") { return R { id, op: "?", val: vec![0; 8], space: vec![] } }
    let mut val = field(p, recv, IDS[id].0).filter(|_| upto(4) > 0).unwrap_or_else(|| (0..n).map(|_| any()).collect());
    match op {
        "=" => { if upto(5) == 0 { near(&mut val) } }
        "0" => { for b in val.iter_mut() { *b |= any::<u8>() & any::<u8>() } if upto(4) == 0 { near(&mut val) } }
        "1" => { for b in val.iter_mut() { *b &= any::<u8>() | any::<u8>() } if upto(4) == 0 { near(&mut val) } }
        "=*" => { val.truncate(upto(n)); if !val.is_empty() && upto(4) == 0 { near(&mut val) } }
        "*=" => { val.drain(..upto(n)); if !val.is_empty() && upto(4) == 0 { near(&mut val) } }
        _ => near(&mut val),
    }
    R { id, op, val, space: vec![] }
}
/// the masks a rule stands for
fn masks(r: &R) -> (Vec<u8>, Vec<u8>) {
    let n = IDS[r.id].1;
    let pad = |b: u8| { let m = n - r.val.len(); let p = vec![b; m]; if r.op == "=*" { [&r.val[..], &p].concat() } else { [&p, &r.val[..]].concat() } };
    match r.op { "1" => (r.val.clone(), vec![255; n]), "0" => (vec![0; n], r.val.clone()), "=*" | "*=" => (pad(0), pad(255)), _ => (vec![0; n], vec![255; n]) }
}
/// rules whose masks leave something (contradicting masks are the known finding `kf_mask` of C24)
pub fn rules(p: &P, recv: u64) -> Vec<R> { agree((0..1 + upto(4)).map(|_| rule(p, recv)).collect()) }
/// rules on the fields a position in the tree has
pub fn tree_rules(p: &P, recv: u64) -> Vec<R> {
    let mut v = vec![];
    for (id, x) in IDS.iter().enumerate() { if ["group", "domain", "prefix", "pubkey", "create", "depth"].contains(&x.0) { for _ in 0..[0, 1, 1, 2][upto(3)] { v.push(rule_of(p, recv, id)) } } }
    agree(v)
}
fn agree(mut rs: Vec<R>) -> Vec<R> {
    let mut at: Vec<(Vec<u8>, Vec<u8>)> = IDS.iter().map(|x| (vec![if x.0 == "type" { 7 } else { 0 }; x.1], vec![255; x.1])).collect();
    rs.retain(|r| {
        if IDS[r.id].1 == 0 { return true }
        let (o, z) = masks(r);
        let o: Vec<u8> = at[r.id].0.iter().zip(o).map(|(a, b)| a | b).collect();
        let z: Vec<u8> = at[r.id].1.iter().zip(z).map(|(a, b)| a & b).collect();
        let ok = o.iter().zip(&z).all(|(a, b)| a & !b == 0);
        if ok { at[r.id] = (o, z) }
        ok
    });
    rs
}
fn add(s: &mut PktPredicates, r: &R) -> anyhow::Result<()> { s.add_ext_predicate(ExtPredicate::try_from(list(r))?) }
pub fn of(rs: &[R]) -> Option<PktPredicates> { let mut s = PktPredicates::DEFAULT; for r in rs { add(&mut s, r).ok()?; } Some(s) }
fn accepts(s: &PktPredicates, q: &NetPktPtr, recv: u64) -> bool {
    let (it, b) = compile_predicates(s);
    let t: Vec<Box<dyn PktStreamTest>> = it.map(|x| x.0).collect();
    let a = t.test(q);
    ensures!(t.result(q).is_ok() == a, "the failed rule is named exactly when a rule fails");
    a && b.test(recv)
}
fn packet() -> (P, u64) { (gen([DATA, LINK, KEY, LINK, KEY, ERR][upto(5)], false), if any() { any() } else { u64::MAX }) }

contracts! {
    native fields, unwind 1, bias 0 {
        let (p, recv) = packet();
        let b = p.bytes();
        let q = match linkspace_pkt::read::read_pkt(&b, true) { Ok(q) => q.into_owned(), Err(_) => return };
        let rs = rules(&p, recv);
        let want = rs.iter().all(|r| holds(r, &p, recv));
        let s = of(&rs);
        match &s {
            None => { ensures!(!want, "rules that a packet satisfies do not contradict each other"); }
            Some(s) => {
                ensures!(accepts(s, &q, recv) == want, "a predicate set accepts a packet exactly when every rule holds");
                let mut e = WatchEntry::new(vec![], Query { predicates: s.clone(), conf: Default::default() }, 0, (), tracing::Span::none()).unwrap();
                ensures!(e.test(RecvPktPtr { recv: Stamp::new(recv), pkt: &q }).0 == want, "so does a watch made from it");
                let text = s.to_str(any());
                let mut t = Query::DEFAULT;
                let back = t.parse(text.as_bytes(), &linkspace_core::eval::CORE_SCOPE);
                // a set that accepts nothing may be refused when read back
                ensures!(if back.is_ok() { accepts(&t.predicates, &q, recv) == want } else { !want }, "a printed predicate set reads back as one that accepts the same");
            }
        }
        let mut other = rs.clone();
        for i in (1..other.len()).rev() { other.swap(i, upto(i)) }
        let o = of(&other);
        ensures!(o.as_ref().map(|o| accepts(o, &q, recv)).unwrap_or(false) == want, "in whatever order they are added");
        cover!(want && rs.len() > 3, "accepted by several rules");
        cover!(!want && s.is_some(), "refused by a satisfiable set");
    }
    // any value whatever
    native values, unwind 1, bias 0 {
        let (p, recv) = packet();
        let b = p.bytes();
        let q = match linkspace_pkt::read::read_pkt(&b, true) { Ok(q) => q.into_owned(), Err(_) => return };
        let id = PredicateType::ALL[upto(23)];
        let n = IDS.iter().find(|x| x.0 == id.info().name).map(|x| x.1).unwrap_or(4);
        let mut l = ABList::DEFAULT;
        let k = if any() { n } else { upto(70) };
        let mut v: Vec<u8> = (0..k).map(|_| any()).collect();
        match upto(7) {
            0 => v.fill([0, 255][upto(1)]),
            1 => if n == 32 { v.resize(32, 0); let t: [u8; 32] = v[..].try_into().unwrap(); v = B64(t).to_string().into_bytes() },
            2 => for c in v.iter_mut() { *c = b"AZaz09-_=+/:"[*c as usize % 12] },
            _ => {}
        }
        l.push_v((None, v));
        if upto(3) == 0 { for _ in 0..upto(3) { l.push_v((Some([Ctr::Colon, Ctr::FSlash][upto(1)]), (0..upto(9)).map(|_| any()).collect())) } }
        if upto(7) == 0 { l = ABList::DEFAULT }
        let of = |op: &str| -> Option<bool> {
            // (a mask on the type that contradicts the implied one is the known finding pred::kf_mask)
            if id == PredicateType::Type && matches!(op, "0" | "1" | "=*" | "*=") { return None }
            let e = ExtPredicate { kind: id.into(), op: op.parse().unwrap(), val: l.clone() };
            let mut s = PktPredicates::DEFAULT;
            s.add_ext_predicate(e).ok()?;
            Some(accepts(&s, &q, recv))
        };
        let (eq, lt, gt, ge, le) = (of("="), of("<"), of(">"), of(">="), of("<="));
        let (m0, m1, h, t) = (of("0"), of("1"), of("=*"), of("*="));
        if matches!(id, PredicateType::Prefix | PredicateType::Spacename) { ensures!(lt.is_none() && gt.is_none() && ge.is_none() && le.is_none() && m0.is_none() && m1.is_none() && h.is_none() && t.is_none(), "a space is only compared for equality"); return }
        if matches!(id, PredicateType::IBranch | PredicateType::IDb | PredicateType::INew | PredicateType::I) { return }
        if id == PredicateType::Recv { ensures!(m0.is_none() && m1.is_none() && h.is_none() && t.is_none(), "no masks on the receive stamp") }
        if id != PredicateType::Type {
            ensures!(eq.is_some() == ge.is_some() && eq.is_some() == le.is_some(), "a value that can be required can be a bound");
            let has = id == PredicateType::Recv || field(&p, recv, id.info().name).is_some();
            if eq.is_some() {
                let yes = |o: Option<bool>| o == Some(true);
                ensures!(ge == Some(yes(eq) || yes(gt)) && le == Some(yes(eq) || yes(lt)), "at least is equal or greater, at most is equal or less");
                ensures!([yes(eq), yes(lt), yes(gt)].iter().filter(|x| **x).count() == has as usize, "a field is less, equal or greater");
            } else { ensures!(lt.is_none() && gt.is_none() && m0.is_none() && m1.is_none(), "a value no field can have is refused for every operation"); }
        }
        cover!(eq == Some(true), "equal");
        cover!(ge == Some(true) && eq == Some(false), "greater");
        cover!(eq.is_none(), "refused");
        cover!(h.is_some() || t.is_some(), "head or tail");
    }
    // the functions that make common predicates
    native makers, unwind 1, bias 0 {
        let (p, recv) = packet();
        let b = p.bytes();
        let q = match linkspace_pkt::read::read_pkt(&b, true) { Ok(q) => q.into_owned(), Err(_) => return };
        let r = |name: &str, op: &'static str, val: Vec<u8>, space: Vec<Vec<u8>>| R { id: IDS.iter().position(|x| x.0 == name).unwrap(), op, val, space };
        let other = gen(KEY, false);
        let (g, d, k) = (if any() { p.group } else { other.group }, if any() { p.domain } else { other.domain }, if any() { p.key.as_ref() } else { None }.unwrap_or(other.key.as_ref().unwrap()).pubkey_bytes());
        let mut space = if any() { p.space.clone() } else { good() };
        if any() { space.truncate(upto(8)) }
        let sp = if space.is_empty() { SpaceBuf::new() } else { SpaceBuf::try_from_iter(space.iter()).unwrap() };
        let st = if any() { p.stamp.saturating_add(upto(2) as u64) } else { any() };
        let exact: bool = any();
        let (rg, rd, rp) = (r("group", "=", g.to_vec(), vec![]), r("domain", "=", d.to_vec(), vec![]), r("prefix", "=", vec![], space.clone()));
        let all = |rs: &[R]| rs.iter().all(|r| holds(r, &p, recv));
        let s = PktPredicates::from_gdp(B64(g), AB(d), &sp, exact);
        let here = p.has_links() && p.space == space;
        ensures!(accepts(&s, &q, recv) == (all(&[rg.clone(), rd.clone(), rp.clone()]) && (!exact || here)), "group, domain and space");
        ensures!(accepts(&PktPredicates::from_gd(B64(g), AB(d)), &q, recv) == all(&[rg.clone(), rd.clone()]), "group and domain");
        let mut s = PktPredicates::DEFAULT.group(B64(g)).unwrap();
        let mut want = all(&[rg]);
        let mut ok = true;
        if any() { match s.clone().key(B64(k)) { Ok(n) => { s = n; want &= all(&[r("pubkey", "=", k.to_vec(), vec![])]) } Err(_) => ok = false } }
        if any() { match s.clone().create_before(Stamp::new(st)) { Ok(n) => { s = n; want &= all(&[r("create", "<", st.to_be_bytes().to_vec(), vec![])]) } Err(_) => { ensures!(st == 0, "no stamp is before zero"); ok = false } } }
        if ok && any() { ensures!(s.prefix(&*sp).is_ok(), "a first prefix is accepted"); want &= all(&[rp.clone()]); 
            let mut two = if any() { space.clone() } else { good() };
            if any() { two.truncate(upto(8)) } else { two.extend(good()); while enc_len(&two) > 200 || two.len() > 8 { two.pop(); } }
            let sp2 = if two.is_empty() { SpaceBuf::new() } else { SpaceBuf::try_from_iter(two.iter()).unwrap() };
            let fits = two.starts_with(&space) || space.starts_with(&two);
            let mut t = s.clone();
            ensures!(t.prefix(&sp2).is_ok() == fits, "a second prefix is accepted exactly when one extends the other");
            if fits { s = t; want &= all(&[r("prefix", "=", vec![], two.clone())]); }
            let long = if two.len() > space.len() && fits { &two } else { &space };
            let e = s.clone().space(if long == &two { &sp2 } else { &sp });
            ensures!(e.is_ok(), "the whole space can be required");
            ensures!(accepts(&e.unwrap(), &q, recv) == (want && p.has_links() && &p.space == long), "and is then exact");
        }
        if ok { ensures!(accepts(&s, &q, recv) == want, "the functions add the rules they name"); }
        cover!(want, "accepted");
    }
}
fn enc_len(l: &[Vec<u8>]) -> usize { l.iter().map(|s| s.len() + 1).sum() }
