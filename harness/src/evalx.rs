//! C10: evaluation order and arguments.
#![cfg(not(kani))]
use crate::ast::gen;
use crate::nd::*;
use abe::ast::*;
use abe::eval::*;
use std::cell::RefCell;

#[derive(PartialEq, Debug, Clone)]
pub enum Ev { Func(Vec<u8>, Vec<Vec<u8>>, bool), Mac(Vec<u8>, Vec<ABE>) }
pub struct Rec { pub log: RefCell<Vec<Ev>> }
/// what the functions of the recording scope answer
fn answer(id: &[u8], args: &[Vec<u8>], init: bool) -> Result<Vec<u8>, ()> {
    if id.first() == Some(&b'e') || id.first() == Some(&b'n') { return Err(()) }
    let mut o = id.to_vec();
    o.push(if init { b'!' } else { b'+' });
    for a in args { o.push(b'('); o.extend_from_slice(&a[..a.len().min(6)]); o.push(b')') }
    o.truncate(24);
    Ok(o)
}
impl Scope for Rec {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], init: bool, _s: &dyn Scope) -> ApplyResult {
        let args: Vec<Vec<u8>> = a.iter().map(|b| b.to_vec()).collect();
        self.log.borrow_mut().push(Ev::Func(id.to_vec(), args.clone(), init));
        match answer(id, &args, init) { Ok(v) => ApplyResult::Value(v), Err(()) if id[0] == b'n' => ApplyResult::NoValue, Err(()) => ApplyResult::Err(abe::eval::ApplyErr::msg("no")) }
    }
    fn try_apply_macro(&self, id: &[u8], abe: &[ABE], _s: &dyn Scope) -> ApplyResult {
        self.log.borrow_mut().push(Ev::Mac(id.to_vec(), abe.to_vec()));
        match answer(id, &[], true) { Ok(v) => ApplyResult::Value(v), Err(()) if id[0] == b'n' => ApplyResult::NoValue, Err(()) => ApplyResult::Err(abe::eval::ApplyErr::msg("no")) }
    }
    fn try_encode(&self, _: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> { ApplyResult::NoValue }
}
type L = Vec<(Option<Ctr>, Vec<u8>)>;
/// Specification of evaluation; Err(None): unspecified, Err(Some(())): an error
fn spec_list(t: &[ABE], log: &mut Vec<Ev>) -> Result<L, Option<()>> {
    let mut out: L = vec![];
    for e in t {
        let b = match e {
            ABE::Ctr(c) => { out.push((Some(*c), vec![])); continue }
            ABE::Expr(Expr::Bytes(b)) => b.clone(),
            ABE::Expr(Expr::Lst(l)) => spec_bracket(l, log)?,
        };
        match out.last_mut() { Some((_, p)) => p.extend_from_slice(&b), None => out.push((None, b)) }
    }
    Ok(out)
}
fn dump(t: &[ABE], o: &mut Vec<u8>) { for e in t { match e { ABE::Ctr(c) => o.push(*c as u8), ABE::Expr(Expr::Bytes(b)) => o.extend_from_slice(b), ABE::Expr(Expr::Lst(l)) => { o.push(b'['); dump(l, o); o.push(b']') } } } }
fn spec_bracket(l: &[ABE], log: &mut Vec<Ev>) -> Result<Vec<u8>, Option<()>> {
    if let [ABE::Ctr(Ctr::FSlash), tail @ ..] = l {
        let (id, rest): (Vec<u8>, &[ABE]) = match tail {
            [] | [ABE::Expr(Expr::Lst(_)), ..] => return Err(Some(())),
            [ABE::Ctr(Ctr::Colon), rest @ ..] => { let mut o = vec![]; dump(rest, &mut o); return Ok(o) }
            [ABE::Ctr(Ctr::FSlash), ..] => (vec![], tail),
            [ABE::Expr(Expr::Bytes(b)), r @ ..] => (b.clone(), r),
        };
        log.push(Ev::Mac(id.clone(), rest.to_vec()));
        return answer(&id, &[], true).map_err(Some);
    }
    if let [ABE::Expr(Expr::Lst(_)), ..] | [ABE::Expr(_), ABE::Expr(_)] = l { return Err(Some(())) }
    if let [ABE::Expr(_), ABE::Expr(_), ..] = l { return Err(None) }
    let comps = spec_list(l, log)?;
    let mut carry = vec![];
    let mut i = 0;
    while i < comps.len() {
        let mut j = i + 1;
        while j < comps.len() && comps[j].0 != Some(Ctr::FSlash) { j += 1 }
        let g = &comps[i..j];
        if g.len() > 16 { return Err(Some(())) }
        if g[0].0 == Some(Ctr::Colon) { carry = g.iter().flat_map(|x| x.1.clone()).collect() }
        else {
            let init = g[0].0.is_none();
            let mut args: Vec<Vec<u8>> = if init { vec![] } else { vec![carry] };
            args.extend(g[1..].iter().map(|x| x.1.clone()));
            log.push(Ev::Func(g[0].1.clone(), args.clone(), init));
            carry = answer(&g[0].1, &args, init).map_err(Some)?;
        }
        i = j;
    }
    Ok(carry)
}
fn check(t: &[ABE]) {
    let mut log = vec![];
    let e = spec_list(t, &mut log);
    if e == Err(None) { return }
    let r = Rec { log: RefCell::new(vec![]) };
    let v = eval(&r, t);
    ensures!(v.is_ok() == e.is_ok(), "evaluation fails exactly when a call fails or the form is not allowed");
    ensures!(*r.log.borrow() == log, "the calls made, their order and their arguments are those written");
    if let (Ok(v), Ok(e)) = (v, e) { ensures!(v[..] == e[..], "the result is the text with each bracket replaced by its last call's value"); }
}
/// a bracket that mostly consists of calls
fn calls(depth: usize) -> ABE {
    let mut l = vec![];
    let groups = 1 + upto(2);
    for g in 0..groups {
        if g > 0 { l.push(ABE::Ctr(Ctr::FSlash)) }
        let id = match upto(7) { 0 => b"e".to_vec(), 1 => b"n".to_vec(), 2 if g == 0 => vec![], 3 => b"gg".to_vec(), _ => b"f".to_vec() };
        if !(id.is_empty()) { l.push(ABE::Expr(Expr::Bytes(id))) }
        let n = if upto(7) == 0 { 12 + upto(6) } else { upto(3) };
        for _ in 0..n {
            l.push(ABE::Ctr(Ctr::Colon));
            for _ in 0..upto(2) { l.push(if depth > 0 && any::<bool>() { calls(depth - 1) } else { ABE::Expr(Expr::Bytes(gen::bytes(3))) }) }
        }
    }
    ABE::Expr(Expr::Lst(l))
}
struct Tbl;
fn put(tag: u8, i: &[&[u8]], init: bool) -> ApplyResult { let mut v = vec![tag, init as u8]; for x in i { v.push(x.len() as u8); v.extend_from_slice(x) } ApplyResult::Value(v) }
impl EvalScopeImpl for Tbl {
    fn list_funcs(&self) -> &[ScopeFunc<&Self>] {
        fn i(id: &'static str, init_eq: Option<bool>, argc: std::ops::RangeInclusive<usize>) -> ScopeFuncInfo { ScopeFuncInfo { id, init_eq, argc, help: "", to_abe: id == "a" } }
        static F: std::sync::OnceLock<Vec<ScopeFunc<&'static Tbl>>> = std::sync::OnceLock::new();
        let v = F.get_or_init(|| vec![
            ScopeFunc { info: i("a", None, 1..=2), apply: |_, a, b, _| put(b'a', a, b), to_abe: |_, b, _| if b.is_empty() { ApplyResult::NoValue } else { ApplyResult::Value(format!("A{}", b.len())) } },
            ScopeFunc { info: i("b", Some(true), 0..=3), apply: |_, a, b, _| put(b'b', a, b), to_abe: abe::eval::none },
            ScopeFunc { info: i("c", Some(false), 1..=1), apply: |_, a, b, _| put(b'c', a, b), to_abe: abe::eval::none },
        ]);
        unsafe { std::mem::transmute::<&[ScopeFunc<&'static Tbl>], &[ScopeFunc<&Self>]>(v) }
    }
    fn list_macros(&self) -> &[ScopeMacro<&Self>] { &[ScopeMacro { info: ScopeMacroInfo { id: "m", help: "" }, apply: |_, a, _| ApplyResult::Value(vec![b'm', a.len() as u8]) }] }
}
struct Fix(u8, u8);
impl Scope for Fix {
    fn try_apply_func(&self, _: &[u8], _: &[&[u8]], _: bool, _s: &dyn Scope) -> ApplyResult { match self.0 { 0 => ApplyResult::NoValue, 1 => ApplyResult::Value(vec![self.1]), _ => ApplyResult::Err(ApplyErr::msg(self.1)) } }
    fn try_apply_macro(&self, _: &[u8], _: &[ABE], s: &dyn Scope) -> ApplyResult { self.try_apply_func(&[], &[], true, s) }
    fn try_encode(&self, _: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> { match self.0 { 0 => ApplyResult::NoValue, 1 => ApplyResult::Value(self.1.to_string()), _ => ApplyResult::Err(ApplyErr::msg(self.1)) } }
}
fn kind(r: ApplyResult) -> (u8, Vec<u8>) { match r { ApplyResult::NoValue => (0, vec![]), ApplyResult::Value(v) => (1, v), ApplyResult::Err(e) => (2, e.to_string().into_bytes()) } }
fn kind_s(r: ApplyResult<String>) -> (u8, Vec<u8>) { match r { ApplyResult::NoValue => (0, vec![]), ApplyResult::Value(v) => (1, v.into_bytes()), ApplyResult::Err(e) => (2, e.to_string().into_bytes()) } }

contracts! {
    native eval_tree, unwind 1, bias 1 { let t = gen::tree(3, 5); check(&t); }
    native eval_calls, unwind 1, bias 1 {
        let mut t = vec![];
        for _ in 0..1 + upto(1) { t.push(calls(2)); if any() { t.push(ABE::Ctr(Ctr::Colon)) } if any() { t.push(ABE::Expr(Expr::Bytes(gen::bytes(2)))) } }
        check(&t);
    }
    native table_scope, unwind 1, bias 1 {
        let id: Vec<u8> = [&b"a"[..], b"b", b"c", b"m", b"", b"aa"][upto(5)].to_vec();
        let args: Vec<Vec<u8>> = (0..upto(4)).map(|_| gen::bytes(2)).collect();
        let a: Vec<&[u8]> = args.iter().map(|v| &v[..]).collect();
        let init: bool = any();
        let s = EScope(Tbl);
        let r = s.try_apply_func(&id, &a, init, &s);
        let (n, kind_ok) = (a.len(), match &id[..] { b"b" => init, b"c" => !init, _ => true });
        let argc_ok = match &id[..] { b"a" => n >= 1 && n <= 2, b"b" => n <= 3, b"c" => n == 1, _ => true };
        match &id[..] {
            b"a" | b"b" | b"c" => {
                if kind_ok && argc_ok { let e = put(id[0], &a, init); ensures!(kind(r) == kind(e), "a function gets its arguments and its value is returned"); }
                else { ensures!(matches!(r, ApplyResult::Err(_)), "a call with the wrong number of arguments or in the wrong place is an error"); }
            }
            _ => ensures!(matches!(r, ApplyResult::NoValue), "an unknown function has no value"),
        }
        let m = s.try_apply_macro(&id, &[], &s);
        ensures!(kind(m) == if id == b"m" { (1, vec![b'm', 0]) } else { (0, vec![]) }, "macros are found by name");
        let b = gen::bytes(3);
        ensures!(kind_s(s.try_encode(&id, &[], &b)) == if id == b"a" && !b.is_empty() { (1, format!("A{}", b.len()).into_bytes()) } else { (0, vec![]) }, "only encoders encode");
    }
    native scope_order, unwind 1, bias 0 {
        let k: [u8; 4] = any();
        let f: Vec<Fix> = (0..4).map(|i| Fix(k[i] % 3, i as u8 + 1)).collect();
        let e = |ix: &[usize]| ix.iter().map(|i| &f[*i]).find(|x| x.0 != 0).map(|x| (x.0, if x.0 == 1 { vec![x.1] } else { x.1.to_string().into_bytes() })).unwrap_or((0, vec![]));
        let es = |ix: &[usize]| ix.iter().map(|i| &f[*i]).find(|x| x.0 != 0).map(|x| (x.0, x.1.to_string().into_bytes())).unwrap_or((0, vec![]));
        let u: &dyn Scope = &();
        let two = (&f[0], &f[1]); let three = (&f[0], &f[1], &f[2]);
        let nest = ((&f[0], &f[1], &f[2]), (&f[3], ()));
        let opt = (None::<Fix>, Some(&f[3]));
        let arc = (std::sync::Arc::new(Fix(f[0].0, f[0].1)), std::rc::Rc::new(Fix(f[1].0, f[1].1)));
        let cases: Vec<(&dyn Scope, Vec<usize>)> = vec![(&two, vec![0, 1]), (&three, vec![0, 1, 2]), (&nest, vec![0, 1, 2, 3]), (&opt, vec![3]), (&arc, vec![0, 1])];
        for (s, ix) in &cases {
            ensures!(kind(s.try_apply_func(b"x", &[], true, u)) == e(ix), "scopes are asked in order; the first answer counts (functions)");
            ensures!(kind(s.try_apply_macro(b"x", &[], u)) == e(ix), "scopes are asked in order; the first answer counts (macros)");
            ensures!(kind_s(s.try_encode(b"x", &[], b"")) == es(ix), "scopes are asked in order; the first answer counts (encoders)");
        }
    }
    /// functions that evaluate, and the positional arguments
    native helpers, unwind 1, bias 0 {
        let sc = &abe::scope::BASIC_SCOPE;
        let one = |t: &[ABE]| eval(sc, t).ok().map(|l| l.concat());
        let lst = |v: Vec<ABE>| ABE::Expr(Expr::Lst(v));
        let by = |b: &[u8]| ABE::Expr(Expr::Bytes(b.to_vec()));
        let (sl, co) = (ABE::Ctr(Ctr::FSlash), ABE::Ctr(Ctr::Colon));
        // an expression that evaluates, or one that fails
        let piece = || -> Vec<ABE> { let n = 1 + upto(2); (0..n).map(|_| match upto(4) { 0 => by(&gen::bytes(3)), 1 => ABE::Ctr(Ctr::FSlash), 2 => ABE::Expr(Expr::Lst(vec![ABE::Expr(Expr::Bytes(b"rpad".to_vec())), ABE::Ctr(Ctr::Colon), ABE::Expr(Expr::Bytes(b"xy".to_vec())), ABE::Ctr(Ctr::Colon), ABE::Expr(Expr::Bytes(b"4".to_vec()))])), 3 => ABE::Expr(Expr::Lst(vec![ABE::Expr(Expr::Bytes(b"u8".to_vec())), ABE::Ctr(Ctr::Colon), ABE::Expr(Expr::Bytes(b"7".to_vec()))])), _ => ABE::Expr(Expr::Lst(vec![ABE::Expr(Expr::Bytes(b"nope".to_vec()))])) }).collect() };
        let mut e = piece();
        if upto(9) == 0 { e.clear() }
        let mut m = vec![sl.clone(), by(b"e"), co.clone()]; m.extend(e.clone());
        ensures!(one(&[lst(m)]) == one(&e), "'/e:' gives what its expression evaluates to");
        let text = print_abe(e.iter());
        let tx = if any() { text.clone().into_bytes() } else { gen::bytes(6) };
        let want = parse_abe_strict_b(&tx).ok().and_then(|t| one(&t));
        let arg: Vec<ABE> = if tx.is_empty() { vec![by(b"eval"), co.clone()] } else { vec![by(b"eval"), co.clone(), by(&tx)] };
        ensures!(one(&[lst(arg)]) == want, "'eval' gives what its text evaluates to");
        // or: the first alternative that evaluates
        let alts: Vec<Vec<ABE>> = (0..1 + upto(2)).map(|_| piece()).collect();
        let mut m = vec![sl.clone(), by(b"or")];
        for a in &alts { m.push(co.clone()); m.extend(a.clone()) }
        ensures!(one(&[lst(m)]) == alts.iter().find_map(|a| one(a)), "'/or' gives the first alternative that evaluates");
        let v = gen::bytes(4); let w = if any() { v.clone() } else { gen::bytes(4) };
        let c = |name: &[u8], a: &[&[u8]]| { let mut l = vec![ABE::Expr(Expr::Bytes(name.to_vec()))]; for x in a { l.push(ABE::Ctr(Ctr::Colon)); l.push(ABE::Expr(Expr::Bytes(x.to_vec()))) } eval(&abe::scope::BASIC_SCOPE, &[ABE::Expr(Expr::Lst(l))]).ok().map(|l| l.concat()) };
        let op: &[u8] = [&b"="[..], b"=", b"<", b""][upto(3)];
        let n = if any() { v.len() } else { upto(6) };
        ensures!(c(b"size?", &[&v, op, n.to_string().as_bytes()]) == (op == b"=" && n == v.len()).then(|| v.clone()), "'size?' gives the bytes exactly when their number is the one asked for");
        ensures!(c(b"val?", &[&v, op, &w]) == (op == b"=" && v == w).then(|| v.clone()), "'val?' gives the bytes exactly when they are those asked for");
        ensures!(c(b"C", &[&v, &w]) == Some(vec![]), "a comment is nothing");
        // positional arguments
        let args: Vec<Vec<u8>> = (0..upto(9)).map(|_| gen::bytes(2)).collect();
        let refs: Vec<&[u8]> = args.iter().map(|a| &a[..]).collect();
        let k = upto(11);
        let fit = abe::scope::ArgV::try_fit(&refs);
        ensures!(fit.is_some() == (args.len() <= 8), "up to eight values fit");
        if let Some(a) = fit {
            let r = eval(&EScope(a), &[lst(vec![by(k.to_string().as_bytes())])]).ok().map(|l| l.concat());
            ensures!(r == if k < 8 { args.get(k).cloned() } else { None }, "a number gives the value at that position");
        }
        let al = abe::scope::argv::ArgList::new(&refs[..]);
        let r = eval(&al, &[lst(vec![by(k.to_string().as_bytes())])]).ok().map(|l| l.concat());
        ensures!(r == args.get(k).cloned(), "a number gives the argument at that position");
        ensures!(matches!(al.try_apply_func(k.to_string().as_bytes(), &[b"x"], true, &al), ApplyResult::Err(_)) && matches!(al.try_apply_func(k.to_string().as_bytes(), &[], false, &al), ApplyResult::Err(_)), "positions take no arguments");
        let (a, b) = (upto(6) as isize - 3, upto(6) as isize - 3);
        let step = [1isize, 1, 2, -1, -2][upto(4)];
        let f = |i: isize| i.to_string().into_bytes();
        let r = al.try_apply_func(b"argv", &[&f(a), &f(b), &f(step)], true, &al);
        // what the same Python slice selects
        let n = args.len() as isize;
        let clip = |i: isize| { let i = if i < 0 { i + n } else { i }; if step > 0 { i.clamp(0, n) } else { i.clamp(-1, n - 1) } };
        let mut want = vec![]; let mut i = clip(a); while if step > 0 { i < clip(b) } else { i > clip(b) } { want.extend_from_slice(&args[i as usize]); i += step }
        ensures!(kind(r) == (1, want), "argv selects what the same Python slice selects");
    }
}
