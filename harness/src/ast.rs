//! C03, C04, C11: ABE trees, tokenizer, component lists, pattern replacement.
use crate::abtxt::{spec_next, Tok};
use crate::nd::*;
use abe::ast::*;
use abe::eval::{ABItem, ABList, ABLV};

#[cfg(not(kani))]
pub mod gen {
    use super::*;
    pub fn bytes(max: usize) -> Vec<u8> { let n = upto(max); (0..n).map(|_| any::<u8>()).collect() }
    /// an arbitrary expression tree
    pub fn tree(depth: usize, width: usize) -> Vec<ABE> {
        let n = upto(width);
        (0..n).map(|_| match upto(if depth == 0 { 4 } else { 6 }) {
            0 => ABE::Ctr(Ctr::Colon),
            1 => ABE::Ctr(Ctr::FSlash),
            2 => ABE::Expr(Expr::Bytes(vec![])),
            3 | 4 => ABE::Expr(Expr::Bytes(bytes(4))),
            _ => ABE::Expr(Expr::Lst(tree(depth - 1, width))),
        }).collect()
    }
    pub fn small(depth: usize, width: usize) -> Vec<ABE> {
        let n = upto(width);
        (0..n).map(|_| match upto(if depth == 0 { 4 } else { 5 }) {
            0 => ABE::Ctr(Ctr::Colon),
            1 => ABE::Ctr(Ctr::FSlash),
            2 => ABE::Expr(Expr::Bytes(b"a".to_vec())),
            3 => ABE::Expr(Expr::Bytes(b"b".to_vec())),
            4 => ABE::Expr(Expr::Bytes(b"ab".to_vec())),
            _ => ABE::Expr(Expr::Lst(small(depth - 1, width))),
        }).collect()
    }
    pub fn ablist(width: usize, max: usize) -> ABList {
        let mut l = ABList::DEFAULT;
        let n = upto(width);
        for i in 0..n {
            let c = match upto(2) { 0 => Ctr::FSlash, _ => Ctr::Colon };
            let b = bytes(max);
            let lead: bool = i != 0 || any();
            l.push_v((if lead { Some(c) } else { None }, b));
        }
        l
    }
}
/// empty byte components vanish, neighbours merge
pub fn normal(t: &[ABE]) -> Vec<ABE> {
    let mut out: Vec<ABE> = vec![];
    for e in t {
        match e {
            ABE::Expr(Expr::Bytes(b)) if b.is_empty() => {}
            ABE::Expr(Expr::Bytes(b)) => {
                if let Some(ABE::Expr(Expr::Bytes(p))) = out.last_mut() { p.extend_from_slice(b) } else { out.push(e.clone()) }
            }
            ABE::Expr(Expr::Lst(l)) => out.push(ABE::Expr(Expr::Lst(normal(l)))),
            c => out.push(c.clone()),
        }
    }
    out
}
/// Specification of the two parsers. None: not in the grammar.
pub fn spec_parse(s: &[u8], lenient: bool) -> Option<Vec<ABE>> {
    fn lst(s: &[u8], i: &mut usize, lenient: bool, top: bool) -> Option<Vec<ABE>> {
        let mut out: Vec<ABE> = vec![];
        loop {
            if *i == s.len() { return if top { Some(out) } else { None } }
            let r = &s[*i..];
            let byte = match spec_next(r, 0, 4) {
                Tok::Byte(b, k) => { *i += k; b }
                Tok::Ctr(c) => {
                    *i += 1;
                    match c {
                        b':' => out.push(ABE::Ctr(Ctr::Colon)),
                        b'/' => out.push(ABE::Ctr(Ctr::FSlash)),
                        b'[' => out.push(ABE::Expr(Expr::Lst(lst(s, i, lenient, false)?))),
                        b']' => return if top { None } else { Some(out) },
                        _ => return None,
                    }
                    continue;
                }
                Tok::End => unreachable!(),
                Tok::Err => {
                    let bad_hex = r[0] == b'\\' && r.len() >= 2 && r[1] == b'x';
                    if !lenient || bad_hex { return None }
                    *i += 1;
                    r[0]
                }
            };
            if let Some(ABE::Expr(Expr::Bytes(p))) = out.last_mut() { p.push(byte) } else { out.push(ABE::Expr(Expr::Bytes(vec![byte]))) }
        }
    }
    lst(s, &mut 0, lenient, true)
}
/// Specification of the tokenizer: components in order, then how it ends.
pub struct SpecToks { pub n: usize, pub ctr: [u8; 26], pub inner: [bool; 26], pub from: [usize; 26], pub to: [usize; 26], pub err: bool }
pub fn spec_tokens(s: &[u8], plain: u32, err: u32) -> SpecToks {
    let mut t = SpecToks { n: 0, ctr: [0; 26], inner: [false; 26], from: [0; 26], to: [0; 26], err: false };
    if s.is_empty() { return t }
    let (mut i, mut start, mut head, mut depth, mut inner) = (0usize, 0usize, 0u8, 0usize, false);
    while i < s.len() {
        match spec_next(&s[i..], plain, err) {
            Tok::Byte(_, k) => i += k,
            Tok::Ctr(b'[') => { depth += 1; inner = true; i += 1 }
            Tok::Ctr(b']') => { if depth == 0 { t.err = true; return t } depth -= 1; i += 1 }
            Tok::Ctr(c) => {
                if depth == 0 {
                    t.ctr[t.n] = head; t.inner[t.n] = inner; t.from[t.n] = start; t.to[t.n] = i; t.n += 1;
                    head = c; start = i + 1; inner = false;
                    if start == s.len() { return t }
                }
                i += 1
            }
            _ => { t.err = true; return t }
        }
    }
    if depth != 0 { t.err = true; return t }
    t.ctr[t.n] = head; t.inner[t.n] = inner; t.from[t.n] = start; t.to[t.n] = s.len(); t.n += 1;
    t
}
fn csets() -> (u32, u32) { let p: u8 = any(); let e: u8 = any(); ((p & 0x37) as u32, (e & 0x37) as u32) }

/// logical content of a component list: components and the delimiters between them
pub fn logical(l: &[ABLV]) -> (Vec<Vec<u8>>, Vec<Ctr>) {
    let (mut c, mut d) = (vec![], vec![]);
    for (i, (k, b)) in l.iter().enumerate() {
        if let Some(k) = k { if i == 0 { c.push(vec![]) } d.push(*k) }
        c.push(b.clone());
    }
    if c.is_empty() { c.push(vec![]) }
    (c, d)
}
/// Specification of replacement
pub fn spec_replace(t: &[ABE], pat: &[ABE], new: &[ABE]) -> Vec<ABE> {
    let t: Vec<ABE> = t.iter().map(|e| match e { ABE::Expr(Expr::Lst(l)) => ABE::Expr(Expr::Lst(spec_replace(l, pat, new))), e => e.clone() }).collect();
    if pat.is_empty() { return t }
    let (mut out, mut i) = (vec![], 0);
    while i < t.len() {
        if t[i..].starts_with(pat) { out.extend_from_slice(new); i += pat.len() } else { out.push(t[i].clone()); i += 1 }
    }
    out
}

contracts! {
    native print_parse_tree, unwind 1, bias 0 {
        let t = gen::tree(4, 5);
        let st = print_abe(t.iter());
        ensures!(st.bytes().all(|b| b >= 0x20 && b <= 0x7e), "printed expressions are printable ascii");
        let n = normal(&t);
        let p = parse_abe_strict_b(st.as_bytes());
        ensures!(matches!(&p, Ok(p) if *p == n), "printing then parsing strictly gives back the tree");
        let p = parse_abe_with_unencoded_b(st.as_bytes());
        ensures!(matches!(&p, Ok(p) if *p == n), "printing then parsing leniently gives back the tree");
        ensures!(print_abe(n.iter()) == st, "normalising does not change the printed form");
        cover!(t.len() > 3, "large");
    }
    native parse_text, unwind 1, bias 3 {
        let b = buf::<28>();
        let s = b.get();
        let (p, e) = (parse_abe_b(s, false), spec_parse(s, false));
        ensures!(p.is_ok() == e.is_some(), "the strict parser accepts exactly the grammar");
        if let (Ok(p), Some(e)) = (&p, &e) { ensures!(p == e, "the strict parser builds the tree the text describes"); }
        let (p, e) = (parse_abe_b(s, true), spec_parse(s, true));
        ensures!(p.is_ok() == e.is_some(), "the lenient parser accepts exactly its grammar");
        if let (Ok(p), Some(e)) = (&p, &e) { ensures!(p == e, "the lenient parser builds the tree the text describes"); }
        cover!(p.is_ok(), "accepted"); cover!(e.is_none(), "rejected");
    }
    native parse_brackets, unwind 1, bias 2 {
        let b = buf::<20>();
        let s = b.get();
        let (p, e) = (parse_abe_b(s, false), spec_parse(s, false));
        ensures!(p.is_ok() == e.is_some(), "the strict parser accepts exactly the balanced texts");
        if let (Ok(p), Some(e)) = (&p, &e) { ensures!(p == e, "the strict parser builds the tree the text describes"); }
        let (p, e) = (parse_abe_b(s, true), spec_parse(s, true));
        ensures!(p.is_ok() == e.is_some(), "the lenient parser accepts exactly the balanced texts");
        if let (Ok(p), Some(e)) = (&p, &e) { ensures!(p == e, "the lenient parser builds the tree the text describes"); }
    }
    /// deeply nested texts
    native parse_deep, unwind 1, bias 0 {
        let n = [250 + upto(12), upto(700), 127 + upto(3)][upto(2)];
        let m = if any() { n } else { [n + 1, n - n.min(1), n - n.min(256), n % 256][upto(3)] };
        let t = format!("{}a{}", "[".repeat(n), "]".repeat(m));
        for lenient in [false, true] { ensures!(parse_abe_b(t.as_bytes(), lenient).is_ok() == (n == m), "the parsers accept exactly the balanced texts, however deep"); }
    }
    native tokens_deep, unwind 1, bias 0 {
        let n = [250 + upto(12), upto(700), 127 + upto(3)][upto(2)];
        let m = if any() { n } else { [n + 1, n - n.min(1), n - n.min(256), n % 256][upto(3)] };
        let t = format!("b:{}a{}", "[".repeat(n), "]".repeat(m));
        let v: Result<Vec<_>, _> = tokenize_abe_b(t.as_bytes(), 0, 0).collect();
        ensures!(v.is_ok() == (n == m), "the tokenizer accepts exactly the balanced texts, however deep");
        if let Ok(v) = v { ensures!(v.len() == 2 && v[1] == (b':', n > 0, &t.as_bytes()[2..]), "brackets keep a component together, however deep"); }
    }
    /// every text of at most 4 bytes and every pair of delimiter sets
    native tokens_short, unwind 7, bias 2 {
        let b = buf::<4>();
        let s = b.get();
        let (pl, er) = csets();
        let t = spec_tokens(s, pl, er);
        let mut it = tokenize_abe_b(s, pl, er);
        let mut i = 0;
        cover!(t.n == 3, "three components"); cover!(t.err, "rejected");
        while i < t.n {
            match it.next() {
                Some(Ok((c, inn, part))) => {
                    ensures!(c == t.ctr[i], "a component carries the delimiter before it");
                    ensures!(inn == t.inner[i], "a component is flagged exactly when it has a bracketed part");
                    ensures!(part.len() == t.to[i] - t.from[i], "components are the text between top-level delimiters");
                    ensures!(part.as_ptr() as usize == s.as_ptr() as usize + t.from[i], "components are slices of the text");
                }
                _ => ensures!(false, "no component is dropped"),
            }
            i += 1;
        }
        match it.next() { Some(Err(_)) => ensures!(t.err, "only texts outside the grammar give an error"), None => ensures!(!t.err, "texts outside the grammar give an error"), Some(Ok(_)) => ensures!(false, "no component is invented") }
    }
    native tokens_any, unwind 1, bias 3 {
        let b = buf::<24>();
        let s = b.get();
        let (pl, er) = csets();
        let t = spec_tokens(s, pl, er);
        let mut it = tokenize_abe_b(s, pl, er);
        for i in 0..t.n {
            let x = it.next();
            ensures!(matches!(x, Some(Ok((c, inn, p))) if c == t.ctr[i] && inn == t.inner[i] && p == &s[t.from[i]..t.to[i]]), "components, delimiters and flags are those of the text");
        }
        ensures!(match it.next() { Some(Err(_)) => t.err, None => !t.err, _ => false }, "the tokenizer ends with an error exactly outside the grammar");
        if let Ok(st) = std::str::from_utf8(s) {
            let v = tokenize_abe(st, pl, er);
            ensures!(v.is_ok() == !t.err, "the collecting form fails exactly outside the grammar");
            if let Ok(v) = v {
                let mut j = Vec::new();
                for (c, _, p) in &v { if *c != 0 { j.push(*c) } j.extend_from_slice(p.as_bytes()) }
                ensures!(s == &j[..] || (s.len() == j.len() + 1 && s.starts_with(&j)), "delimiters and components concatenate to the text");
            }
        }
    }
    native tokens_brackets, unwind 1, bias 2 {
        let b = buf::<16>();
        let s = b.get();
        let (pl, er) = if any() { (0, 0) } else { csets() };
        let t = spec_tokens(s, pl, er);
        let mut it = tokenize_abe_b(s, pl, er);
        for i in 0..t.n {
            let x = it.next();
            ensures!(matches!(x, Some(Ok((c, inn, p))) if c == t.ctr[i] && inn == t.inner[i] && p == &s[t.from[i]..t.to[i]]), "components, delimiters and flags are those of the text");
        }
        ensures!(match it.next() { Some(Err(_)) => t.err, None => !t.err, _ => false }, "the tokenizer ends with an error exactly outside the grammar");
    }
    native ablist_forms, unwind 1, bias 3 {
        let l = gen::ablist(5, 4);
        let (comps, ctrs) = logical(&l);
        let join: Vec<u8> = { let mut o = comps[0].clone(); for (c, b) in ctrs.iter().zip(&comps[1..]) { o.push(*c as u8); o.extend_from_slice(b) } o };
        let v: Vec<ABE> = l.clone().into();
        let back = ABList::try_from(v.as_slice());
        ensures!(matches!(&back, Ok(b) if logical(b) == (comps.clone(), ctrs.clone())), "a list converts to an expression and back");
        let back: Vec<ABE> = l.clone().into_iter().collect();
        ensures!(back == v, "both conversions to an expression agree");
        let again = abe::abconf::parse_ablist_b(l.to_string().as_bytes());
        ensures!(matches!(&again, Ok(b) if logical(b) == (comps.clone(), ctrs.clone())), "printing a list and reading it gives the list");
        let items: ABList = l.clone().items().collect();
        ensures!(logical(&items) == (comps.clone(), ctrs.clone()), "rebuilding a list from its items gives the list");
        let n = l.item_refs().map(|i| match i { ABItem::Ctr(_) => 1, ABItem::Bytes(b) => b.len() }).sum::<usize>();
        ensures!(n == join.len(), "iterating visits every delimiter and byte once");
        if l.len() > 0 {
            let it: Vec<&[u8]> = l.iter_bytes().collect();
            ensures!(it.iter().map(|b| b.to_vec()).collect::<Vec<_>>() == comps, "iterating visits the components in order");
            ensures!(l.clone().into_iter_bytes().collect::<Vec<_>>() == comps, "consuming iteration visits the components in order");
        }
        ensures!(matches!(l.as_exact_bytes(), Ok(b) if ctrs.is_empty() && *b == comps[0]) || (l.as_exact_bytes().is_err() && !ctrs.is_empty()), "exact bytes exist exactly without delimiters");
        ensures!(l.clone().into_exact_bytes().is_ok() == ctrs.is_empty(), "consuming exact bytes agree");
        ensures!(l.is_empty() == (join.is_empty()), "a list is empty exactly when it has neither bytes nor delimiters");
        ensures!(l.clone().concat() == join, "concatenation is components and delimiters in order");
        ensures!(Vec::<u8>::from(l.clone()) == join, "conversion to bytes is concatenation");
        let mut p = l.clone();
        let f = p.pop_front();
        ensures!(f.as_ref() == l.first() && p[..] == l[l.len().min(1)..], "taking the first component leaves the others");
    }
    /// the matchers of lists: what each accepts and the parts it gives
    native matchers, unwind 1, bias 3 {
        let (is_b, is_l) = (|a: &ABE| matches!(a, ABE::Expr(Expr::Bytes(_))), |a: &ABE| matches!(a, ABE::Expr(Expr::Lst(_))));
        let mut t = gen::tree(1, 4);
        if upto(2) == 0 { t.truncate(upto(2)) }
        let t = &t[..];
        let n = t.len();
        ensures!(take::<0>(t).ok() == Some((&[], t)) && take::<1>(t).ok().map(|(a, r)| (&a[..], r)) == (n >= 1).then(|| t.split_at(1)) && take::<2>(t).ok().map(|(a, r)| (&a[..], r)) == (n >= 2).then(|| t.split_at(2)), "take gives the first parts and the rest when there are as many");
        ensures!(take_first(t).ok() == t.split_first(), "take_first gives the first and the rest");
        ensures!(exact::<2>(t).ok().map(|a| &a[..]) == (n == 2).then_some(t) && exact::<0>(t).is_ok() == (n == 0) && is_empty(t).is_ok() == (n == 0), "exact accepts only that length");
        ensures!(single(t).ok() == t.first().filter(|_| n == 1) && match one_or(t) { Ok(o) => n <= 1 && o == t.first(), Err(_) => n > 1 }, "one, or one at most");
        ensures!(no_ctrs(t).ok() == (!t.iter().any(|a| matches!(a, ABE::Ctr(_)))).then_some(t), "a list without delimiters");
        for a in t {
            let e = match a { ABE::Expr(e) => Some(e), _ => None };
            let (b, l) = (match e { Some(Expr::Bytes(b)) => Some(&b[..]), _ => None }, match e { Some(Expr::Lst(l)) => Some(&l[..]), _ => None });
            ensures!(as_expr(a).ok() == e && a.expr().ok() == e && as_bytes(a).ok() == b && as_lst(a).ok() == l && is_b(a) == b.is_some() && is_l(a) == l.is_some(), "each kind gives its content");
            ensures!(as_abstr(a).ok().map(|c| c.into_owned()) == b.map(|b| abe::abtxt::as_abtxt(b).into_owned()), "bytes give their text");
            if let Some(e) = e { ensures!(e.as_list().ok() == l && e.as_bytes().ok() == b && e.as_abstr().map(|c| c.into_owned()) == b.map(|b| abe::abtxt::as_abtxt(b).into_owned()), "each expression gives its content"); }
            let (c, f) = (matches!(a, ABE::Ctr(Ctr::Colon)), matches!(a, ABE::Ctr(Ctr::FSlash)));
            ensures!(is_colon(a).is_ok() == c && a.is_colon() == c && is_fslash(a).is_ok() == f && a.is_fslash() == f, "each delimiter is itself");
        }
        for (m, c) in [(is_colon as fn(&ABE) -> VResult<()>, Ctr::Colon), (is_fslash, Ctr::FSlash)] {
            let at = |i: usize| t.get(i) == Some(&ABE::Ctr(c));
            let ex = |i: usize| t.get(i).and_then(|a| match a { ABE::Expr(e) => Some(e), _ => None });
            ensures!(strip_prefix(t, m).ok() == at(0).then(|| &t[1..]), "the delimiter in front");
            ensures!(take_ctr_expr(t, m).ok() == if at(0) { ex(1).map(|e| (e, &t[2..])) } else { None } && take_expr_ctr2(t, m).ok() == if at(1) { ex(0).map(|e| (e, &t[2..])) } else { None }, "a delimiter and an expression");
            let mut k = 0;
            let mut w = vec![];
            while t.get(k) == Some(&ABE::Ctr(c)) && ex(k + 1).is_some() { w.push(ex(k + 1).unwrap().clone()); k += 2 }
            ensures!(multi_ctr_expr(t, m) == (w, &t[k..]), "all leading delimited expressions");
        }
        let x: u8 = any();
        use abe::abtxt::CtrChar as CC;
        ensures!(CC::try_from_char(x).map(|c| c.as_char()) == b"/[]:\n".contains(&x).then_some(x), "the special characters");
        if let Some(c) = CC::try_from_char(x) { ensures!(c.is_bracket() == (x == b'[' || x == b']') && c.is_newline() == (x == b'\n') && c.is_internal_delim() == (x == b':' || x == b'/'), "and their kinds"); }
        cover!(n > 2 && multi_ctr_expr(t, is_colon).0.len() > 0, "delimited expressions");
    }
    native ablist_build, unwind 1, bias 3 {
        let n = upto(5);
        let parts: Vec<Vec<u8>> = (0..n).map(|_| gen::bytes(4)).collect();
        let c = abe::eval::clist(&parts); let f = abe::eval::flist(&parts);
        for (l, k) in [(c, Ctr::Colon), (f, Ctr::FSlash)] {
            ensures!(l.len() == n, "a delimited list has one entry per element");
            for (i, (d, b)) in l.iter().enumerate() { ensures!(*d == if i == 0 { None } else { Some(k) } && b == &parts[i], "a delimited list holds the elements in order between that delimiter"); }
        }
        let a = gen::bytes(4); let b = gen::bytes(4);
        let l = ABList::default().push_bytes(&a).push_bytes(&b);
        ensures!(l.len() == 1 && l[0].0.is_none() && l[0].1 == [&a[..], &b].concat(), "pushed bytes extend the last component");
        let l = l.push_ctr(Ctr::Colon).push(ABItem::Bytes(a.clone())).push(ABItem::Ctr(Ctr::FSlash));
        ensures!(l.len() == 3 && l[1] == (Some(Ctr::Colon), a.clone()) && l[2] == (Some(Ctr::FSlash), vec![]), "a pushed delimiter starts a component");
    }
    native replace_tree, unwind 1, bias 0 {
        let t = gen::small(2, 8);
        let pat = gen::small(if any() { 1 } else { 0 }, 3);
        let new = gen::small(1, 3);
        let mut x = t.clone();
        replace_abe(&mut x, &pat, &new);
        ensures!(x == spec_replace(&t, &pat, &new), "replacement substitutes exactly the leftmost non-overlapping occurrences");
        cover!(x != t, "something replaced");
    }
}
