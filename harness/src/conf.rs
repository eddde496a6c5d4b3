//! C16: configuration lists.
#![cfg(not(kani))]
use crate::ast::{gen, logical};
use crate::nd::*;
use abe::abconf::*;
use abe::ast::Ctr;
use abe::eval::ABList;

/// few distinct components, so that prefixes collide
fn entry() -> ABList {
    let mut l = ABList::DEFAULT;
    for i in 0..1 + upto(3) {
        let b: Vec<u8> = match upto(6) { 0 => vec![], 1 | 2 => b"a".to_vec(), 3 | 4 => b"b".to_vec(), 5 => b"\n%".to_vec(), _ => gen::bytes(3) };
        let lead = i != 0 || upto(3) == 0;
        l.push_v((lead.then(|| if upto(3) == 0 { Ctr::FSlash } else { Ctr::Colon }), b));
    }
    l
}
fn show(l: &ABList) -> (Vec<Vec<u8>>, Vec<Ctr>) { logical(l) }

contracts! {
    native lookup, unwind 1, bias 1 {
        let n = upto(5);
        let es: Vec<ABList> = (0..n).map(|_| entry()).collect();
        let mut c = ABConf::DEFAULT;
        let k = upto(n);
        let mut c = if any() { ABConf::new(es[..k].to_vec()) } else { for e in &es[..k] { c.push(e.clone()) } c };
        if any() { c.extend(es[k..].to_vec()) } else { for e in &es[k..] { c.push(e.clone()) } }
        let m = upto(3);
        let pre: Vec<Vec<u8>> = if n > 0 && upto(2) != 0 { let e = show(&es[upto(n - 1)]).0; e[..m.min(e.len())].to_vec() } else { (0..m).map(|_| match upto(2) { 0 => vec![], 1 => b"a".to_vec(), _ => b"b".to_vec() }).collect() };
        let p: Vec<&[u8]> = pre.iter().map(|v| &v[..]).collect();
        let m = p.len();
        // newest first
        let hits: Vec<&ABList> = es.iter().rev().filter(|e| { let c = show(e).0; c.len() >= m && c[..m] == pre[..] }).collect();
        let got: Vec<&ABList> = c.get_inner(&p).collect();
        ensures!(got == hits, "the entries whose leading components equal the prefix, newest first");
        let checked: Vec<Result<&ABList, &ABList>> = c.get_checked(&p).collect();
        ensures!(checked.len() == hits.len(), "every matching entry is reported");
        for (r, e) in checked.iter().zip(&hits) {
            let d = show(e).1;
            let bad = d[..m.saturating_sub(1).min(d.len())].contains(&Ctr::FSlash);
            let edge = m > 0 && d.get(m - 1) == Some(&Ctr::FSlash);
            ensures!(match r { Ok(g) => *g == *e && !bad, Err(g) => *g == *e && (bad || edge) }, "an entry is an error value when its prefix is delimited by anything but ':'");
        }
        if m == 1 { ensures!(c.get(&pre[0]).map(|r| r.is_ok()) == checked.first().map(|r| r.is_ok()) && c.get(&pre[0]).map(|r| r.unwrap_or_else(|e| e)) == hits.first().copied(), "get is the newest match of one component"); }
        if m > 0 {
            let o = c.has_optional_value(&p);
            match hits.first() {
                None => ensures!(o.is_none(), "nothing matches"),
                Some(e) => {
                    let (co, d) = show(e);
                    let bad = d[..m - 1].contains(&Ctr::FSlash);
                    let want: Result<Option<&[u8]>, ()> = if bad { Err(()) } else if co.len() == m { Ok(None) } else if co.len() == m + 1 && d[m - 1] == Ctr::Colon { Ok(Some(&co[m])) } else { Err(()) };
                    ensures!(match (&o, &want) { (Some(Ok(a)), Ok(b)) => a == b, (Some(Err(l)), Err(())) => l == e, _ => false }, "the optional value is nothing, one ':' component, or an error value");
                }
            }
        }
        cover!(hits.len() > 1, "several matches");
    }
    native print_read, unwind 1, bias 1 {
        let n = upto(5);
        let es: Vec<ABList> = (0..n).map(|_| entry()).collect();
        let c = ABConf::new(es.clone());
        let text = c.to_string();
        requires!(!text.starts_with(":%"));
        let header: bool = any();
        let text = if header { format!(":%abctxt\n{text}") } else { text };
        let r = ABConf::try_from(text.as_bytes());
        ensures!(r.is_ok(), "a printed configuration is readable");
        let r = r.unwrap();
        let blank = |l: &&ABList| !l.is_empty();
        let got: Vec<_> = r.get_inner(&[]).filter(blank).map(show).collect();
        let want: Vec<_> = es.iter().rev().filter(blank).map(show).collect();
        ensures!(got == want, "reading a printed configuration gives every entry in order");
    }
    native read_any, unwind 1, bias 3 {
        let t = gen::bytes(24);
        let r = ABConf::try_from(&t);
        let body = if t.starts_with(b":%") { match t.strip_prefix(b":%abctxt\n") { Some(b) => b, None => { ensures!(r.is_err(), "an unknown format is refused"); return } } } else { &t[..] };
        let lines: Vec<_> = body.split(|b| *b == b'\n').map(parse_ablist_b).collect();
        ensures!(r.is_ok() == lines.iter().all(|l| l.is_ok()), "a configuration is readable exactly when each line is a list");
        if let Ok(r) = r { ensures!(r.get_inner(&[]).map(show).collect::<Vec<_>>() == lines.iter().map(|l| show(l.as_ref().unwrap())).collect::<Vec<_>>(), "each line is an entry, the first the newest"); }
    }
}
