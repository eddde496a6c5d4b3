//! C28, C29, C31: the storage, over the stand-in of LMDB.
#![cfg(not(kani))]
use crate::nd::*;
use crate::point::{enc, gen, pubkey, DATA, ERR, KEY, LINK, P};
use crate::preds::{holds, of, rules, tree_rules, IDS, R};
use linkspace_core::env::lmdb::get::ReadTxn;
use linkspace_core::env::lmdb::BTreeEnv;
use linkspace_core::env::misc::SaveState;
use linkspace_core::env::query_mode::{Mode, Order, Table};
use linkspace_core::predicate::exprs::{Predicate, QScope, RuleType};
use linkspace_core::predicate::pkt_predicates::PktPredicates;
use linkspace_core::predicate::TestOp;
use linkspace_pkt::*;
use std::path::PathBuf;

struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let t = std::env::temp_dir();
        let d = if t.to_string_lossy().contains("lkscratch") { t } else { t.join(format!("lkscratch-{}", std::process::id())) };
        let d = d.join(format!("s{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir { fn drop(&mut self) { lmdb_sys::fault(-1); let _ = std::fs::remove_dir_all(&self.0); } }
/// the bus of an instance takes a UDP port of its own choice, which another process may hold: then another instance is made
fn open(d: &Dir) -> BTreeEnv {
    std::env::set_var("LK_FORCE_EMPTY", "1");
    for i in 0..50 {
        let p = d.0.join(format!("e{i}"));
        match std::panic::catch_unwind(|| BTreeEnv::open(p.clone(), true)) {
            Ok(Ok(e)) => return e,
            Ok(Err(e)) if e.kind() == std::io::ErrorKind::AddrInUse => {}
            Err(e) if e.downcast_ref::<String>().map(|s| s.contains("AddrInUse")).unwrap_or(false) => {}
            Ok(Err(e)) => panic!("{e:?}"),
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    panic!("no port for a bus")
}
/// a saved point, by its receive stamp
#[derive(Clone)]
struct S { recv: u64, p: P, b: Vec<u8> }
fn some_points() -> Vec<P> {
    let mut v: Vec<P> = vec![];
    for _ in 0..2 + upto(6) {
        let mut p = match v.last() { Some(p) if upto(2) > 0 => p.clone(), _ => gen([DATA, LINK, KEY, LINK, KEY, LINK][upto(5)], false) };
        match upto(7) {
            0 => p.stamp = any(),
            1 => p.stamp = p.stamp.wrapping_add(1),
            2 => { p.group[31] ^= 1 }
            3 => { if p.kind != DATA && p.space.len() < 7 { p.space.push(vec![b'a' + any::<u8>() % 3]) } }
            4 => { p.space.pop(); }
            5 => p.domain[15] ^= 1,
            6 => p.data.push(any()),
            _ => { if p.kind == KEY { p.key = Some(crate::point::key(any())) } }
        }
        // depth 8 is left out by default: known finding pred::kf_depth8 of C23
        p.space.truncate(7);
        while !crate::space::fits(&p.space) { p.space.pop(); }
        p.data.truncate(24);
        v.push(p);
    }
    v.retain(|p| linkspace_pkt::read::read_pkt(&p.bytes(), true).is_ok());
    v
}
fn bytes(q: &NetPktPtr) -> Vec<u8> { q.as_netpkt_bytes().to_vec() }
fn hash(s: &S) -> LkHash { B64(s.p.hash()) }
/// what a reader finds is what was saved: by receive order, by hash and by tree position
fn shows(r: &ReadTxn, saved: &[S], absent: &[P]) {
    let log: Vec<(u64, Vec<u8>)> = r.local_pkt_log(Stamp::ZERO).map(|q| (q.recv.get(), bytes(q.pkt))).collect();
    ensures!(log.iter().map(|x| (x.0, &x.1)).eq(saved.iter().map(|s| (s.recv, &s.b))), "the log holds every saved point once, in the order of its stamps");
    ensures!(r.log_head().get() == saved.last().map(|s| s.recv).unwrap_or(0), "its head is the last stamp");
    for s in saved {
        let q = r.read(&hash(s)).unwrap();
        ensures!(q.map(|q| (q.recv.get(), bytes(q.pkt))) == Some((s.recv, s.b.clone())), "a saved point is found by its hash");
    }
    for p in absent { ensures!(r.read_ptr(&B64(p.hash())).unwrap().is_none(), "a point that was not saved is not found"); }
    for asc in [true, false] {
        let got: Vec<u64> = r.query_tree(Order::asc(asc), &PktPredicates::DEFAULT).map(|q| q.recv.get()).collect();
        ensures!(got == want(saved, &[], Table::Tree, asc).iter().map(|s| s.recv).collect::<Vec<_>>(), "every saved point with a place in the tree is found there, once");
    }
    let k = if saved.is_empty() { 0 } else { saved[upto(saved.len() - 1)].recv };
    ensures!(r.pkts_after(Stamp::new(k)).map(|q| q.recv.get()).eq(saved.iter().map(|s| s.recv).filter(|x| *x > k)), "those after a stamp are those with later stamps");
}
type Branch = (Vec<u8>, Vec<u8>, usize, Vec<u8>, Vec<u8>);
fn branch(p: &P) -> Branch { (p.group.to_vec(), p.domain.to_vec(), p.space.len(), enc(&p.space), pubkey(p).to_vec()) }
fn want<'a>(saved: &'a [S], rs: &[R], t: Table, asc: bool) -> Vec<&'a S> {
    let mut v: Vec<&S> = saved.iter().filter(|s| rs.iter().all(|r| holds(r, &s.p, s.recv)) && (t != Table::Tree || s.p.has_links())).collect();
    match t {
        Table::Log => { if !asc { v.reverse() } }
        Table::Hash => v.sort_by_key(|s| s.p.hash()),
        Table::Tree => v.sort_by(|a, b| branch(&a.p).cmp(&branch(&b.p)).then_with(|| { let o = (a.p.stamp, a.p.hash()).cmp(&(b.p.stamp, b.p.hash())); if asc { o } else { o.reverse() } })),
    }
    v
}
struct Clock(u64);
/// saves a batch: what was newly saved, in order
fn save(env: &BTreeEnv, saved: &mut Vec<S>, batch: &[P], clock: &mut Clock) -> bool {
    let boxes: Vec<NetPktBox> = batch.iter().map(|p| linkspace_pkt::read::read_pkt(&p.bytes(), true).unwrap().into_owned()).collect();
    let dynamic: bool = any();
    let n = if upto(2) == 0 { upto(40) as i64 } else { -1 };
    let old = saved.clone();
    let before = linkspace_pkt::now().get();
    lmdb_sys::fault(n);
    let (r, states) = if dynamic {
        let mut o: Vec<(&dyn NetPkt, SaveState)> = boxes.iter().map(|b| (b as &dyn NetPkt, SaveState::Pending)).collect();
        let r = env.save_dyn(&mut o); (r, o.iter().map(|x| x.1).collect::<Vec<_>>())
    } else {
        let mut o: Vec<(&NetPktPtr, SaveState)> = boxes.iter().map(|b| (&***b, SaveState::Pending)).collect();
        let r = env.save_ptr(&mut o); (r, o.iter().map(|x| x.1).collect::<Vec<_>>())
    };
    let failed = n >= 0 && lmdb_sys::calls() > n as u64;
    lmdb_sys::fault(-1);
    ensures!(r.is_err() == failed, "saving fails only when the storage does");
    let Ok(range) = r else { return false };
    let mut at = range.start;
    for (i, p) in batch.iter().enumerate() {
        let known = saved.iter().any(|s| s.p.hash() == p.hash());
        ensures!(states[i] == if known { SaveState::Exists } else { SaveState::Written }, "the state of each point says whether it was there already");
        if !known { saved.push(S { recv: at, p: p.clone(), b: bytes(&boxes[i]) }); at += 1 }
    }
    ensures!(at == range.end, "each new point has a stamp of its own, and they follow each other");
    if at > range.start {
        ensures!(old.last().map(|s| s.recv < range.start).unwrap_or(true) && range.start >= before, "stamps are later than all before, and than the time of the call");
        clock.0 = at - 1;
    }
    true
}
fn limit(s: &mut PktPredicates, sc: QScope) -> Option<(u64, u64)> {
    let (mut lo, mut hi) = (0u64, u32::MAX as u64);
    for _ in 0..upto(2) {
        let v = upto(4) as u32;
        let op = [TestOp::Less, TestOp::Greater, TestOp::Equal][upto(2)];
        let r = s.add_predicate(&Predicate::from_slice(RuleType::Limit(sc), op, &v.to_be_bytes()));
        match op { TestOp::Less => { if v == 0 { return None } hi = hi.min(v as u64 - 1) } TestOp::Greater => lo = lo.max(v as u64 + 1), _ => { lo = lo.max(v as u64); hi = hi.min(v as u64) } }
        if lo > hi || r.is_err() { return None }
    }
    Some((lo, hi))
}
fn within<T>(v: Vec<T>, l: (u64, u64), from: u64) -> Vec<T> { v.into_iter().enumerate().filter(|(i, _)| l.0 <= *i as u64 + from && *i as u64 + from <= l.1).map(|x| x.1).collect() }

/// points of a few branches: positions that differ in one part
fn branches() -> Vec<P> {
    let mut base = gen(KEY, false);
    let keys: Vec<_> = (0..3).map(|_| crate::point::key(any())).collect();
    let mut v = vec![];
    for n in 0..3 + upto(9) {
        let mut p = if upto(2) == 0 { gen([KEY, LINK][upto(1)], false) } else { base.clone() };
        (p.group, p.domain) = (base.group, base.domain);
        if upto(5) == 0 { p.group[[0, 31][upto(1)]] ^= 1 }
        if upto(5) == 0 { p.domain[[0, 15][upto(1)]] ^= 1 }
        if upto(1) == 0 { p.space = (0..upto(4)).map(|_| [&b"a"[..], b"b", b"aa", b"\xff"][[0, 0, 0, 1, 2, 3][upto(5)]].to_vec()).collect() }
        p.space.truncate(7);
        while !crate::space::fits(&p.space) { p.space.pop(); }
        if p.kind == KEY { p.key = Some(keys[upto(2)].clone()) }
        p.stamp = [base.stamp, 0, 1, 2, u64::MAX][upto(4)];
        p.data = vec![n as u8];
        if n == 0 { base = p.clone() }
        v.push(p);
    }
    v.retain(|p| linkspace_pkt::read::read_pkt(&p.bytes(), true).is_ok());
    v
}
/// queries over a storage (`scan`: of the tree, with rules on positions)
fn queries(scan: bool) {
    let d = Dir::new();
    let env = open(&d);
    let pts = if scan { branches() } else { some_points() };
    if pts.is_empty() { return }
    let mut saved: Vec<S> = vec![];
    let mut clock = Clock(0);
    while saved.len() < pts.len() && upto(20) > 0 { let batch: Vec<P> = (0..upto(4)).map(|_| pts[upto(pts.len() - 1)].clone()).collect(); save(&env, &mut saved, &batch, &mut clock); }
    if saved.is_empty() { return }
    let r = env.new_read_txn().unwrap();
    for _ in 0..if scan { 12 } else { 4 } {
        let s = &saved[upto(saved.len() - 1)];
        let rs = if scan { tree_rules(&s.p, s.recv) } else if upto(3) == 0 { vec![] } else { rules(&s.p, s.recv) };
        let Some(mut q) = of(&rs) else { continue };
        let (t, asc) = if scan { (Table::Tree, any()) } else { [(Table::Log, true), (Table::Log, false), (Table::Tree, true), (Table::Tree, false), (Table::Hash, true)][upto(4)] };
        let limits = !scan || upto(5) == 0;
        let any_l = (0, u32::MAX as u64);
        let i_branch = if t == Table::Tree && limits { let Some(l) = limit(&mut q, QScope::Branch) else { continue }; l } else { any_l };
        let Some(i_db) = (if limits { limit(&mut q, QScope::Index) } else { Some(any_l) }) else { continue };
        let Some(mut i) = (if limits { limit(&mut q, QScope::Query) } else { Some(any_l) }) else { continue };
        // a query for one hash is for one point
        if rs.iter().any(|r| IDS[r.id].0 == "hash" && r.op == "=") { i.1 = 0 }
        let from = upto(2) as u32;
        if i.1 < from as u64 { continue }
        let mut nth = from;
        let all = want(&saved, &rs, t, asc);
        let mut w: Vec<&S> = vec![];
        if t == Table::Tree {
            // the limit of a branch counts what the tree itself tells apart
            let of_tree: Vec<R> = rs.iter().filter(|r| !["hop", "stamp", "ubits0", "ubits1", "ubits2", "ubits3", "type", "netflags", "size"].contains(&IDS[r.id].0)).cloned().collect();
            let mut k = 0;
            let mut last: Option<Branch> = None;
            for s in want(&saved, &of_tree, t, asc) {
                let b = branch(&s.p);
                if last.as_ref() != Some(&b) { k = 0; last = Some(b) }
                if i_branch.0 <= k && k <= i_branch.1 && all.iter().any(|a| a.recv == s.recv) { w.push(s) }
                k += 1;
            }
        } else { w = all.clone() }
        let w = within(within(w, i_db, 0), i, from as u64);
        let got: Vec<u64> = r.query(Mode { table: t, order: Order::asc(asc) }, &q, &mut nth).unwrap().map(|q| q.recv.get()).collect();
        ensures!(got == w.iter().map(|s| s.recv).collect::<Vec<_>>(), "a query gives exactly the saved points its rules accept, once each, in order, within its limits");
        cover!(!rs.is_empty() && w.len() > 1 && w.len() < saved.len() && t == Table::Tree, "part of the tree");
        cover!(!rs.is_empty() && w.len() > 1 && w.len() < saved.len() && t == Table::Log, "part of the log");
    }
}

contracts! {
    native history, unwind 1, bias 0 {
        let d = Dir::new();
        let env = open(&d);
        let pts = some_points();
        if pts.is_empty() { return }
        let mut saved: Vec<S> = vec![];
        let mut clock = Clock(0);
        let (mut broke, mut again) = (false, false);
        for _ in 0..1 + upto(3) {
            let batch: Vec<P> = (0..upto(4)).map(|_| pts[upto(pts.len() - 1)].clone()).collect();
            let earlier = env.new_read_txn().unwrap();
            let old = saved.clone();
            again |= batch.iter().any(|p| old.iter().any(|s| s.p.hash() == p.hash()));
            let ok = save(&env, &mut saved, &batch, &mut clock);
            broke |= !ok;
            let gone = |v: &[S]| -> Vec<P> { pts.iter().filter(|p| !v.iter().any(|s| s.p.hash() == p.hash())).cloned().collect() };
            shows(&earlier, &old, &gone(&old));
            let mut earlier = earlier;
            earlier.refresh();
            shows(&earlier, &saved, &gone(&saved));
            shows(&env.new_read_txn().unwrap(), &saved, &gone(&saved));
            env.linkspace_info().expect("the storage agrees with itself");
            ensures!(env.next_deadline(Some(std::time::Instant::now())).unwrap_or(clock.0) == clock.0, "the last stamp given out is announced");
        }
        cover!(broke, "a save that failed");
        cover!(again, "a point saved again");
        cover!(saved.iter().any(|s| s.p.kind == KEY) && saved.len() > 3, "several");
    }
    native query, unwind 1, bias 0 { queries(false) }
    native scan, unwind 1, bias 0 { queries(true) }
}
