//! C15: the process bus.
#![cfg(not(kani))]
use crate::nd::*;
use ipcbus::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::path::PathBuf;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// every file this module touches is below the scratch directory that the runner names in TMPDIR
fn scratch() -> PathBuf {
    let t = std::env::temp_dir();
    if t.to_string_lossy().contains("lkscratch") { return t }
    let d = t.join(format!("lkscratch-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_var("TMPDIR", &d);
    d
}
fn id() -> u64 { static I: OnceLock<u64> = OnceLock::new(); *I.get_or_init(|| std::process::id() as u64 ^ (std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64) << 16) }
fn open() -> ProcBus { let d = scratch().join("db"); std::fs::create_dir_all(&d).unwrap(); std::fs::write(d.join("id"), id().to_be_bytes()).unwrap(); ProcBus::new(&d).unwrap() }
/// what arrives at the bus's address
static SEEN: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(vec![]);
struct Rx { bus: ProcBus, sock: std::net::UdpSocket, to: (std::net::Ipv4Addr, u16), works: bool }
fn rx() -> &'static Rx {
    static R: OnceLock<Rx> = OnceLock::new();
    R.get_or_init(|| {
        let bus = open(); bus.init();
        UdpIPC::new(get_port(id()).unwrap()).rx_thread(|b| SEEN.lock().unwrap().push(b.to_vec()));
        let sock = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
        sock.set_multicast_loop_v4(true).ok();
        // IP_MULTICAST_IF = loopback
        use std::os::fd::AsRawFd;
        extern "C" { fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32; }
        unsafe { setsockopt(sock.as_raw_fd(), 0, 32, [127u8, 0, 0, 1].as_ptr(), 4) };
        let mut r = Rx { bus, sock, to: ([239, 255, 50, 10].into(), get_port(id()).unwrap()), works: false };
        for _ in 0..20 { r.send(&msg(id(), 1, 1)); if r.wait(1, 100) { r.works = true; break } }
        r
    })
}
fn msg(bus: u64, pid: u32, val: u64) -> Vec<u8> { [&bus.to_ne_bytes()[..], &pid.to_ne_bytes(), &val.to_ne_bytes()].concat() }
impl Rx {
    fn send(&self, b: &[u8]) { self.sock.send_to(b, self.to).ok(); }
    fn wait(&self, v: u64, ms: u64) -> bool { let t = Instant::now(); while self.bus.val() < v { if t.elapsed() > Duration::from_millis(ms) { return false } std::thread::yield_now() } true }
}
fn poll(f: &mut std::pin::Pin<Box<impl Future<Output = u64>>>) -> Option<u64> {
    use std::task::*;
    fn raw() -> RawWaker { fn c(_: *const ()) -> RawWaker { raw() } fn n(_: *const ()) {} RawWaker::new(std::ptr::null(), &RawWakerVTable::new(c, n, n, n)) }
    let w = unsafe { Waker::from_raw(raw()) };
    match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Ready(v) => Some(v), Poll::Pending => None }
}

contracts! {
    native emits, unwind 1, bias 0 {
        let b = open();
        let mut cur = 0u64;
        ensures!(b.val() == 0, "a new bus has value 0");
        for _ in 0..upto(8) {
            let v: u64 = match upto(4) { 0 => cur, 1 => cur.wrapping_add(1), 2 => cur.wrapping_sub(1), _ => any() };
            let mut w = Box::pin(b.next_async());
            ensures!(poll(&mut w).is_none(), "a waiter waits");
            let r = if any() { b.emit(v) } else { b._emit::<true>(v) };
            if v >= cur { ensures!(r == v && b.val() == v, "a value not below the current one becomes the current value"); ensures!(poll(&mut w) == Some(v), "and wakes waiters"); cur = v }
            else { ensures!(r == cur && b.val() == cur, "a lower value changes nothing and gives the current one"); ensures!(poll(&mut w).is_none(), "and wakes nobody"); }
        }
    }
    native concurrent, unwind 1, bias 0 {
        let b = open();
        let vs: Vec<Vec<u64>> = (0..3).map(|_| (0..3).map(|_| if any() { upto(9) as u64 } else { any() }).collect()).collect();
        let max = vs.iter().flatten().max().copied().unwrap();
        let ok = std::thread::scope(|s| {
            let hs: Vec<_> = vs.iter().map(|v| { let b = &b; s.spawn(move || v.iter().all(|x| { let r = b._emit::<true>(*x); let now = b.val(); r >= *x && now >= r })) }).collect();
            let mut last = 0; let mut mono = true;
            while !hs.iter().all(|h| h.is_finished()) { let v = b.val(); mono &= v >= last; last = v }
            mono & hs.into_iter().all(|h| h.join().unwrap_or(false))
        });
        ensures!(ok, "the value never decreases and an emit never returns less than it was given");
        ensures!(b.val() == max, "after concurrent emits the value is the largest");
    }
    native hammer, unwind 1, bias 0 {
        use std::sync::atomic::*;
        let b = open();
        let n = 2 + upto(4); let step = 1 + upto(2) as u64;
        let next = AtomicU64::new(0); let stop = AtomicBool::new(false); let bad = AtomicBool::new(false);
        std::thread::scope(|s| {
            let watch = s.spawn(|| { let mut last = 0; while !stop.load(Ordering::Relaxed) { let v = b.val(); if v < last { bad.store(true, Ordering::Relaxed) } last = v } });
            let hs: Vec<_> = (0..n).map(|_| s.spawn(|| for _ in 0..3000 {
                let v = next.fetch_add(step, Ordering::Relaxed) + 1;
                let r = b._emit::<true>(v);
                if r < v || b.val() < r { bad.store(true, Ordering::Relaxed) }
            })).collect();
            for h in hs { h.join().unwrap() }
            stop.store(true, Ordering::Relaxed); watch.join().unwrap();
        });
        ensures!(!bad.load(Ordering::Relaxed), "under contention the value never decreases");
        ensures!(b.val() == (3000 * n as u64 - 1) * step + 1, "and ends at the largest value emitted");
    }
    native datagrams, unwind 1, bias 0 {
        let r = rx();
        requires!(r.works);
        let cur = r.bus.val();
        for _ in 0..1 + upto(3) {
            let good = msg(id(), 1 + upto(3) as u32, cur + 2);
            let v: u64 = if any() { cur + 1 + upto(9) as u64 } else { u64::MAX - upto(3) as u64 };
            let m = match upto(8) {
                0 => msg(id(), std::process::id(), v),
                1 => msg(id() ^ 1 << upto(63), 1, v),
                2 => msg(id(), 1, cur - upto(2).min(cur as usize) as u64),
                3 => good[..upto(19)].to_vec(),
                4 => { let mut m = msg(id(), 1, v); for _ in 0..1 + upto(30) { m.push(any()) } m }
                5 => vec![],
                6 => { let n = upto(60); (0..n).map(|_| any()).collect() }
                7 => { let mut m = msg(id(), 1, v); m.truncate(upto(19)); m }
                _ => { let mut m = msg(id(), 1, v); m.drain(..1 + upto(18)); m }
            };
            requires!(m.len() != 20 || !m.starts_with(&id().to_ne_bytes()) || m[8..12] == std::process::id().to_ne_bytes() || u64::from_ne_bytes(m[12..].try_into().unwrap()) <= cur);
            r.send(&m);
        }
        // a well formed one is applied after them
        r.send(&msg(id(), 1 + upto(5) as u32, cur + 1));
        let mut ok = r.wait(cur + 1, 300);
        for _ in 0..12 { if ok { break } r.send(&msg(id(), 1, cur + 1)); ok = r.wait(cur + 1, 250) }
        ensures!(ok, "a datagram of another process with this bus's id is applied, whatever came before it");
        ensures!(r.bus.val() == cur + 1, "every other datagram is ignored");
        cover!(ok, "received");
    }
    native sends, unwind 1, bias 0 {
        let r = rx();
        requires!(r.works);
        let b = open();
        let me = std::process::id();
        let (mut v, mut heard) = (any::<u64>() / 2 + 1, false);
        for _ in 0..6 {
            SEEN.lock().unwrap().clear();
            let skip = upto(3) == 0;
            b._emit::<true>(v - 1); if skip { b.emit(v - 1); } else { b.emit(v); }
            if v > 1 { b.emit(v - 2); }
            let want = msg(id(), me, if skip { v - 1 } else { v });
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(200) && SEEN.lock().unwrap().is_empty() { std::thread::yield_now() }
            let s = SEEN.lock().unwrap().clone();
            ensures!(s.iter().all(|m| *m == want), "an emit sends this bus's id, this process and the value, and a refused one sends nothing");
            if !s.is_empty() { heard = true; break }
            v += 2;
        }
        ensures!(heard, "an emitted value is sent to the other processes");
    }
    native ports, unwind 1, bias 0 {
        let d = scratch();
        let f = std::env::temp_dir().join("procbus.map");
        requires!(f.starts_with(&d));
        std::fs::remove_file(&f).ok();
        let ids: Vec<u64> = (0..1 + upto(6)).map(|_| match upto(2) { 0 => upto(3) as u64, 1 => (upto(3) as u64) << 48, _ => any() }).collect();
        let mut given: BTreeMap<u64, u16> = BTreeMap::new();
        let mut last: Option<u64> = None;
        for _ in 0..1 + upto(9) {
            if let Some(l) = last.filter(|_| upto(7) == 0) {
                // the process was killed while it wrote the last record
                let mut b = std::fs::read(&f).unwrap(); let n = b.len() - 1 - upto(8); b.truncate(n); std::fs::write(&f, b).unwrap();
                given.remove(&l); last = None;
            }
            let i = ids[upto(ids.len() - 1)];
            let p = get_port(i);
            ensures!(p.is_ok(), "a port is given");
            let p = p.unwrap();
            match given.get(&i) {
                Some(q) => ensures!(*q == p, "a bus id keeps its port"),
                None => { ensures!(given.values().all(|q| *q != p) && p > 1024, "another bus id gets another port"); given.insert(i, p); last = Some(i); }
            }
        }
    }
}
