//! C27: watches.
#![cfg(not(kani))]
use crate::nd::*;
use crate::point::{gen, DATA, KEY, LINK, P};
use linkspace_core::env::RecvPktPtr;
use linkspace_core::matcher::{Matcher, WatchEntry};
use linkspace_core::predicate::exprs::{Predicate, QScope, RuleType};
use linkspace_core::predicate::TestOp;
use linkspace_core::query::Query;
use linkspace_pkt::*;
use std::ops::ControlFlow;

/// a limit: the ordinals from lo to hi
#[derive(Clone, Copy, Debug)]
struct Lim { lo: u64, hi: u64 }
const ANY: Lim = Lim { lo: 0, hi: u32::MAX as u64 };
impl Lim {
    fn has(&self, n: u32) -> bool { self.lo <= n as u64 && n as u64 <= self.hi }
    fn later(&self, n: u32) -> bool { self.hi >= self.lo.max(n as u64) }
}
#[derive(Clone, Debug)]
struct W { id: Vec<u8>, uid: u32, size: Option<u16>, lo: u64, hi: u64, new: Lim, query: Lim, nth_new: u32, nth_query: u32, stop: u32, calls: u32 }
struct Ctx { uid: u32, stop: u32, calls: u32 }
impl W {
    fn key(&self) -> (Vec<u8>, u32, u32, u32) { (self.id.clone(), self.uid, self.nth_new, self.nth_query) }
    /// offers a packet: whether it is received, and whether the watch is finished
    fn offer(&mut self, p: &P, recv: u64) -> (bool, bool) {
        if recv > self.hi { return (false, true) }
        if recv < self.lo || self.size.map(|s| p.data.len() as u16 != s).unwrap_or(false) { return (false, false) }
        let got = self.new.has(self.nth_new) && self.query.has(self.nth_query);
        self.nth_new = self.nth_new.saturating_add(1);
        self.nth_query = self.nth_query.saturating_add(1);
        let done = self.nth_new as u64 > self.new.hi || self.nth_query as u64 > self.query.hi;
        if got { self.calls += 1 }
        (got, done || got && self.calls == self.stop)
    }
}
fn id() -> Vec<u8> { let n = upto(3); (0..n).map(|_| [0u8, b'a', b'b', 255][upto(3)]).collect() }
fn limit(q: &mut Query, s: QScope) -> Option<Lim> {
    let mut l = ANY;
    for _ in 0..upto(2) {
        let v: u32 = if upto(9) == 0 { any() } else { upto(4) as u32 };
        let op = [TestOp::Less, TestOp::Greater, TestOp::Equal][upto(2)];
        let r = q.predicates.add_predicate(&Predicate::from_slice(RuleType::Limit(s), op, &v.to_be_bytes()));
        match op {
            TestOp::Less => { if v == 0 { return None } l.hi = l.hi.min(v as u64 - 1) },
            TestOp::Greater => l.lo = l.lo.max(v as u64 + 1),
            _ => { l.lo = l.lo.max(v as u64); l.hi = l.hi.min(v as u64) }
        }
        if l.lo > l.hi { return None }
        if r.is_err() { return None }
    }
    Some(l)
}
fn watch(uid: u32) -> Option<(W, Query)> {
    let mut q = Query::DEFAULT;
    let (new, query) = (limit(&mut q, QScope::New)?, limit(&mut q, QScope::Query)?);
    let size = (upto(2) == 0).then(|| upto(2) as u16);
    if let Some(s) = size { q.predicates.add_predicate(&Predicate::from_slice(RuleType::Field(FieldEnum::DataSizeF), TestOp::Equal, &s.to_be_bytes())).ok()?; }
    let (mut lo, mut hi) = (0, u64::MAX);
    if upto(2) == 0 { let v = upto(6) as u64; lo = v + 1; q.predicates.add_predicate(&Predicate::from_slice(RuleType::RecvStamp, TestOp::Greater, &v.to_be_bytes())).ok()?; }
    if upto(2) == 0 { let v = if upto(3) == 0 { upto(9) as u64 } else { u64::MAX - upto(9) as u64 }; if v == 0 { return None } hi = v - 1; q.predicates.add_predicate(&Predicate::from_slice(RuleType::RecvStamp, TestOp::Less, &v.to_be_bytes())).ok()?; }
    let nth_query = if upto(5) == 0 { if any() { u32::MAX - upto(1) as u32 } else { any() } } else { upto(2) as u32 };
    Some((W { id: id(), uid, size, lo, hi, new, query, nth_new: 0, nth_query, stop: upto(4) as u32, calls: 0 }, q))
}
fn shows(m: &Matcher<Ctx>, model: &[W]) -> bool { m.entries().len() == model.len() && m.entries().iter().zip(model).all(|(e, w)| (e.query_id.clone(), e.ctx.uid, e.nth_new, e.nth_query) == w.key()) }

contracts! {
    native history, unwind 1, bias 0 {
        let mut m: Matcher<Ctx> = Matcher::default();
        let mut model: Vec<W> = vec![];
        let mut pkts: Vec<(P, NetPktBox)> = vec![];
        for _ in 0..3 { let mut p = gen([DATA, LINK, KEY][upto(2)], false); p.data.truncate(upto(2)); if let Ok(b) = linkspace_pkt::read::read_pkt(&p.bytes(), true) { pkts.push((p, b.into_owned())) } }
        if pkts.is_empty() { return }
        let (mut ranged, mut limited, mut replaced) = (false, false, false);
        for step in 0..4 + upto(12) as u32 {
            let i = |model: &[W], id: &[u8]| model.binary_search_by(|w| w.id.as_slice().cmp(id));
            match upto(7) {
                0 | 1 | 2 => {
                    let Some((w, q)) = watch(step) else { continue };
                    let e = WatchEntry::new(w.id.clone(), q, w.nth_query, Ctx { uid: w.uid, stop: w.stop, calls: 0 }, tracing::Span::none());
                    ensures!(e.is_ok() == (w.new.later(0) && w.query.later(w.nth_query)), "a watch is made exactly when it may still receive something");
                    let Ok(e) = e else { continue };
                    let old = m.register(e);
                    let at = i(&model, &w.id);
                    let live = w.hi > 1 << 40;
                    replaced |= at.is_ok();
                    ensures!(old.map(|o| o.ctx.uid) == at.ok().map(|k| model[k].uid), "registering gives back the watch it replaces");
                    match (live, at) { (true, Ok(k)) => model[k] = w, (true, Err(k)) => model.insert(k, w), (false, Ok(k)) => { model.remove(k); } _ => {} }
                }
                3 => {
                    let (q, range) = (id(), any::<bool>());
                    let mut gone = vec![];
                    let n = m.deregister(&q, range, |w| gone.push(w.ctx.uid));
                    let hit = |w: &W| if range { w.id.starts_with(&q) } else { w.id == q };
                    let want: Vec<u32> = model.iter().filter(|w| hit(w)).map(|w| w.uid).collect();
                    ranged |= range && want.len() > 1 && i(&model, &q).is_err();
                    ensures!(gone == want && n == want.len(), "closing ends exactly the watches named");
                    model.retain(|w| !hit(w));
                }
                4 if upto(2) == 0 => {
                    let at = if any() { u64::MAX - upto(9) as u64 } else { upto(9) as u64 };
                    let left = m.gc(Stamp::new(at));
                    model.retain(|w| w.hi > at);
                    ensures!(left.map(|s| s.get()) == model.iter().map(|w| w.hi).min(), "collecting keeps the watches that may still receive something, and gives the first end");
                }
                _ => {
                    let (p, b) = &pkts[upto(pkts.len() - 1)];
                    let recv = if upto(5) == 0 { u64::MAX - upto(9) as u64 } else { upto(9) as u64 };
                    let (mut got, mut gone) = (vec![], vec![]);
                    m.trigger(RecvPktPtr { recv: Stamp::new(recv), pkt: b }, |c| { got.push(c.uid); c.calls += 1; if c.calls == c.stop { ControlFlow::Break(()) } else { ControlFlow::Continue(()) } }, |w| gone.push(w.ctx.uid));
                    let (mut wgot, mut wgone) = (vec![], vec![]);
                    model.retain_mut(|w| { let (g, d) = w.offer(p, recv); if g { wgot.push(w.uid) } if d { wgone.push(w.uid); limited = true } !d });
                    ensures!(got == wgot, "a point is received exactly once by each watch whose query accepts it");
                    ensures!(gone == wgone, "and a watch ends exactly when its limits are reached or it says so");
                }
            }
            ensures!(shows(&m, &model), "no other watch is affected");
            let q = id();
            ensures!(m.get(&q).map(|e| e.ctx.uid) == i(&model, &q).ok().map(|k| model[k].uid), "a watch is found by its id");
        }
        cover!(ranged, "several closed by a prefix that is no id");
        cover!(limited, "ended");
        cover!(replaced, "replaced");
    }
}
