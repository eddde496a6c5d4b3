//! vhrun list | run NAME SECONDS MAXITER SEED STATEFILE | replay NAME VALS(hex,hex,..)|rng:SEED:BIAS
//! Executes contract harnesses natively on the unmodified sources and prints one JSON line.
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use vh::nd::{Discard, Src, ST};

static LAST: AtomicU64 = AtomicU64::new(0); // iteration number, for the watchdog
static CUR: AtomicU64 = AtomicU64::new(0); // its generator seed
static DONE: AtomicU64 = AtomicU64::new(0);

fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_add(0xD1B54A32D192ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn hexlog(l: &[Vec<u8>]) -> String { l.iter().map(|v| v.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(",") }
enum Out { Ok, Discard, Fail(String) }
fn one(f: fn(), src: Src, bias: u8) -> Out {
    ST.with(|s| { let s = &mut *s.borrow_mut(); s.src = src; s.log.clear(); s.bias = bias; });
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Out::Ok,
        Err(e) => {
            if e.downcast_ref::<Discard>().is_some() { return Out::Discard }
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or("panic".into());
            Out::Fail(m)
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |n: &str| vh::all().into_iter().find(|h| format!("{}::{}", h.0, h.1) == n);
    match a[1].as_str() {
        "list" => for h in vh::all() { println!("{}::{} {} {}", h.0, h.1, h.2, h.3) },
        "replay" => {
            let h = find(&a[2]).expect("no such harness");
            let (src, bias) = if let Some(r) = a[3].strip_prefix("rng:") {
                let (s, b) = r.split_once(':').unwrap();
                (Src::Rng(s.parse().unwrap()), b.parse().unwrap())
            } else {
                let v = if a[3].is_empty() { vec![] } else { a[3].split(',').map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect() };
                (Src::Replay(v, 0), h.3)
            };
            std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(30)); println!("REPLAY-FAIL did not terminate within 30 s"); std::process::exit(3) });
            match one(h.4, src, bias) {
                Out::Ok => println!("REPLAY-OK contract held"),
                Out::Discard => { println!("REPLAY-DISCARD precondition not met"); std::process::exit(2) }
                Out::Fail(m) => { println!("values: {}", ST.with(|s| hexlog(&s.borrow().log))); println!("REPLAY-FAIL {m}"); std::process::exit(3) }
            }
        }
        "run" => {
            let h = find(&a[2]).expect("no such harness");
            let secs: f64 = a[3].parse().unwrap();
            let maxit: u64 = a[4].parse().unwrap();
            let seed: u64 = a[5].parse().unwrap();
            let state = std::fs::File::create(&a[6]).unwrap();
            let name = a[2].clone();
            if std::env::var("VH_VERBOSE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
            let bias = h.3;
            std::thread::spawn(move || {
                let mut last = u64::MAX; let mut since = Instant::now();
                loop {
                    std::thread::sleep(Duration::from_millis(300));
                    if DONE.load(Ordering::SeqCst) == 1 { return }
                    let l = LAST.load(Ordering::SeqCst);
                    if l != last { last = l; since = Instant::now() }
                    else if since.elapsed() > Duration::from_secs(20) {
                        println!("{{\"harness\":{},\"fail\":\"one execution of the code under contract did not terminate within 20 s\",\"rng\":{},\"bias\":{},\"evals\":{}}}", esc(&name), CUR.load(Ordering::SeqCst), bias, l);
                        std::io::stdout().flush().unwrap();
                        std::process::exit(0)
                    }
                }
            });
            let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let t0 = Instant::now();
                let (mut n, mut disc) = (0u64, 0u64);
                let mut seen: HashSet<u64> = HashSet::new();
                let mut samples: Vec<String> = vec![];
                let mut fail = None;
                while n < maxit && t0.elapsed().as_secs_f64() < secs {
                    let s = mix(seed, n);
                    CUR.store(s, Ordering::SeqCst);
                    LAST.store(n, Ordering::SeqCst);
                    state.write_all_at(&s.to_le_bytes(), 0).unwrap();
                    n += 1;
                    let r = one(h.4, Src::Rng(s), bias);
                    let (hs, txt) = ST.with(|st| { let st = st.borrow(); use std::hash::{Hash, Hasher}; let mut hh = std::collections::hash_map::DefaultHasher::new(); st.log.hash(&mut hh); (hh.finish(), if samples.len() < 3 { hexlog(&st.log) } else { String::new() }) });
                    match r {
                        Out::Discard => disc += 1,
                        Out::Ok => { if seen.len() < 4_000_000 && seen.insert(hs) && samples.len() < 3 { samples.push(txt) } }
                        Out::Fail(m) => { fail = Some((m, s, ST.with(|st| hexlog(&st.borrow().log)))); break }
                    }
                }
                DONE.store(1, Ordering::SeqCst);
                let (cov, ck) = ST.with(|s| { let s = s.borrow(); (s.covers.clone(), s.checks) });
                let mut o = format!("{{\"harness\":{},\"evals\":{n},\"discarded\":{disc},\"distinct\":{},\"checks\":{ck},\"covers\":[{}],\"samples\":[{}],\"wall\":{:.2}", esc(&a[2]), seen.len(), cov.iter().map(|c| esc(c)).collect::<Vec<_>>().join(","), samples.iter().map(|c| esc(c)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64());
                if let Some((m, s, l)) = fail { o.push_str(&format!(",\"fail\":{},\"rng\":{s},\"bias\":{bias},\"vals\":{}", esc(&m), esc(&l))) }
                o.push('}');
                println!("{o}");
            }).unwrap();
            t.join().unwrap();
        }
        _ => panic!("usage"),
    }
}
