//! C07, C08, C09: byte and integer functions of the basic scope.
use crate::nd::*;
use abe::ast::*;
use abe::eval::*;
#[cfg(not(kani))]
use crate::ast::gen;

#[cfg(not(kani))]
pub fn call(name: &[u8], args: &[Vec<u8>]) -> Option<Vec<u8>> {
    let mut l = vec![ABE::Expr(Expr::Bytes(name.to_vec()))];
    for a in args { l.push(ABE::Ctr(Ctr::Colon)); l.push(ABE::Expr(Expr::Bytes(a.clone()))) }
    let r = eval(&abe::scope::BASIC_SCOPE, &[ABE::Expr(Expr::Lst(l))]).ok()?;
    r.into_exact_bytes().ok()
}
/// big endian sum of equally long strings, None when it does not fit
fn spec_add(v: &[Vec<u8>]) -> Option<Vec<u8>> {
    let n = v[0].len();
    let mut out = vec![0; n];
    let mut carry = 0u64;
    for i in (0..n).rev() { let s = carry + v.iter().map(|x| x[i] as u64).sum::<u64>(); out[i] = s as u8; carry = s >> 8 }
    (carry == 0).then_some(out)
}
fn spec_sub(v: &[Vec<u8>]) -> Option<Vec<u8>> {
    let n = v[0].len();
    let mut out = vec![0; n];
    let mut borrow = 0i64;
    for i in (0..n).rev() { let s = v[0][i] as i64 - v[1..].iter().map(|x| x[i] as i64).sum::<i64>() + borrow; out[i] = s.rem_euclid(256) as u8; borrow = s.div_euclid(256) }
    (borrow == 0).then_some(out)
}
/// text of a decimal number: plain, signed or padded
#[cfg(not(kani))]
fn dec(n: usize) -> Vec<u8> { match upto(5) { 0 => format!("+{n}"), 1 => format!("{n:03}"), _ => format!("{n}") }.into_bytes() }
fn spec_pad(b: &[u8], len: usize, pad: &[u8], left: bool, strict: bool, fixed: bool) -> Option<Option<Vec<u8>>> {
    // Some(None): an error; None: unspecified
    let b = if !fixed || b.len() <= len { b } else if left { &b[..len] } else { &b[b.len() - len..] };
    if b.len() > len { return Some(if strict { None } else if pad.len() == 1 { Some(b.to_vec()) } else { return None }) }
    if pad.len() != 1 { return Some(None) }
    let fill = vec![pad[0]; len - b.len()];
    Some(Some(if left { [&fill[..], b].concat() } else { [b, &fill[..]].concat() }))
}
#[derive(Clone, Copy)]
pub enum Num { None, Pos(u128), Neg(u128) }
impl Num {
    #[cfg(not(kani))]
    fn any(hi: usize) -> Num {
        match upto(9) {
            0 => Num::None,
            1 => Num::Pos([usize::MAX as u128, isize::MAX as u128, isize::MAX as u128 + 1, 1 << 62][upto(3)]),
            2 => Num::Neg([usize::MAX as u128, isize::MAX as u128, isize::MAX as u128 + 1, 1 << 62][upto(3)]),
            3..=6 => Num::Pos(upto(hi) as u128),
            _ => Num::Neg(1 + upto(hi) as u128),
        }
    }
    fn text(&self) -> Vec<u8> { match self { Num::None => vec![], Num::Pos(n) => format!("{n}").into_bytes(), Num::Neg(n) => format!("-{n}").into_bytes() } }
    fn val(&self) -> Option<i128> { match self { Num::None => None, Num::Pos(n) => Some(*n as i128), Num::Neg(n) => Some(-(*n as i128)) } }
}
/// Python's slice.indices
pub fn spec_slice(b: &[u8], start: Option<i128>, stop: Option<i128>, step: i128) -> Vec<u8> {
    let n = b.len() as i128;
    let (lo, hi) = if step < 0 { (-1, n - 1) } else { (0, n) };
    let fix = |v: i128| { let v = if v < 0 { v + n } else { v }; v.clamp(lo, hi) };
    let mut i = start.map(fix).unwrap_or(if step < 0 { hi } else { lo });
    let stop = stop.map(fix).unwrap_or(if step < 0 { lo } else { hi });
    let mut out = vec![];
    while if step > 0 { i < stop } else { i > stop } { out.push(b[i as usize]); i += step }
    out
}
fn value(b: &[u8]) -> u128 { b.iter().fold(0, |a, x| (a << 8) | *x as u128) }

contracts! {
    /// std's byte carry primitives: the contract that verus/uint.rs.in relies on
    full carry_prims, unwind 2, bias 0 {
        let (a, b): (u8, u8) = (any(), any()); let k: bool = any();
        let (r, o) = a.carrying_add(b, k);
        ensures!(a as u32 + b as u32 + k as u32 == r as u32 + 256 * o as u32, "u8::carrying_add is exact");
        let (r, o) = a.borrowing_sub(b, k);
        ensures!(a as i32 - b as i32 - k as i32 == r as i32 - 256 * o as i32, "u8::borrowing_sub is exact");
    }
    bounded carry_add, unwind 17, bias 0 {
        let a: [u8; 16] = any(); let b: [u8; 16] = any();
        let mut r = a;
        let c = abe::scope::uint::carry_add_be(&mut r, &b);
        let (s, o) = u128::from_be_bytes(a).overflowing_add(u128::from_be_bytes(b));
        ensures!(u128::from_be_bytes(r) == s && c == o, "addition with carry is big endian addition");
        cover!(c, "carry out");
    }
    bounded carry_sub, unwind 17, bias 0 {
        let a: [u8; 16] = any(); let b: [u8; 16] = any();
        let mut r = a;
        let c = abe::scope::uint::carry_sub_be(&mut r, &b);
        let (s, o) = u128::from_be_bytes(a).overflowing_sub(u128::from_be_bytes(b));
        ensures!(u128::from_be_bytes(r) == s && c == o, "subtraction with borrow is big endian subtraction");
        cover!(c, "borrow out");
    }
    native add_sub, unwind 1, bias 0 {
        let n = if upto(3) == 0 { upto(40) } else { upto(9) };
        let k = 1 + upto(14);
        let small: bool = any();
        let odd = upto(7) == 0;
        let mut v: Vec<Vec<u8>> = (0..k).map(|i| { let mut b: Vec<u8> = (0..n).map(|_| any::<u8>()).collect(); if small && n > 0 { b[0] /= if i == 0 { 2 } else { 16 } } b }).collect();
        if odd { let i = upto(k - 1); if n > 0 && any() { v[i].pop(); } else { v[i].push(any()) } }
        let same = v.iter().all(|x| x.len() == v[0].len());
        let n = v[0].len();
        let (p, m) = (call(b"+", &v), call(b"-", &v));
        if !same { ensures!(p.is_none() && m.is_none(), "arguments of different lengths are refused"); }
        else {
            ensures!(p == Some(spec_add(&v).unwrap_or(vec![255; n])), "'+' is the exact sum, or all 0xff when it does not fit");
            ensures!(m == Some(spec_sub(&v).unwrap_or(vec![0; n])), "'-' is the exact difference, or all zero when it is negative");
        }
    }
    native pad_cut, unwind 1, bias 0 {
        let b: Vec<u8> = { let n = upto(24); (0..n).map(|_| any()).collect() };
        let has_len = upto(5) != 0;
        let len_empty = upto(7) == 0;
        let len = if any() { upto(40) } else { (b.len() + upto(2)).saturating_sub(1) };
        let has_pad = has_len && any::<bool>();
        let pad: Vec<u8> = if upto(7) == 0 { let n = upto(3); (0..n).map(|_| any()).collect() } else { vec![any()] };
        let mut args = vec![b.clone()];
        if has_len { args.push(if len_empty { vec![] } else { dec(len) }) }
        let elen = if has_len && !len_empty { len } else { 16 };
        let cut_args = args.clone();
        if has_pad { args.push(pad.clone()) }
        for (name, left, strict, fixed, fill) in [("a", true, true, false, 0u8), ("f", true, true, false, 255), ("lpad", true, true, false, 0), ("rpad", false, true, false, 0),
            ("~lpad", true, false, false, 0), ("~rpad", false, false, false, 0), ("lfixed", true, false, true, 0), ("rfixed", false, false, true, 0)] {
            let p = if has_pad { pad.clone() } else { vec![fill] };
            match spec_pad(&b, elen, &p, left, strict, fixed) {
                Some(e) => { let g = call(name.as_bytes(), &args); ensures!(g == e, "padding gives the input on the right side of the fill, exactly as long as asked") }
                None => { call(name.as_bytes(), &args); }
            }
        }
        if !(has_len && len_empty) {
            for (name, left, strict) in [("lcut", true, true), ("rcut", false, true), ("~lcut", true, false), ("~rcut", false, false)] {
                let e = if elen > b.len() { if strict { None } else { Some(b.clone()) } } else if left { Some(b[..elen].to_vec()) } else { Some(b[b.len() - elen..].to_vec()) };
                let g = call(name.as_bytes(), &cut_args);
                ensures!(g == e, "cutting keeps the named side, exactly as long as asked");
            }
        }
    }
    native replace_fn, unwind 1, bias 0 {
        let t = |n| (0..n).map(|_| [b'a', b'b', b'c', 0][upto(3)]).collect::<Vec<u8>>();
        let b = t(upto(16)); let from = t(upto(3)); let to = t(upto(4));
        let g = call(b"replace", &[b.clone(), from.clone(), to.clone()]);
        if from.is_empty() { ensures!(g.is_none(), "an empty pattern is refused"); return }
        let mut e = vec![]; let mut i = 0;
        while i < b.len() { if b[i..].starts_with(&from) { e.extend_from_slice(&to); i += from.len() } else { e.push(b[i]); i += 1 } }
        cover!(e != b, "something replaced");
        ensures!(g == Some(e), "replace substitutes left to right without overlap");
    }
    native slice_fn, unwind 1, bias 0 {
        let n = upto(14);
        let b: Vec<u8> = (0..n).map(|i| i as u8 + 65).collect();
        let (a, z, s) = (Num::any(16), Num::any(16), Num::any(5));
        let k = upto(3);
        let step = match (k, s) { (3, Num::Pos(0)) => { ensures!(abe::scope::bytes::slice(&b, &[&a.text(), &z.text(), b"0"]).map(|i| i.count()).unwrap_or(0) == 0, "a zero step selects nothing"); return } (3, s) => s.val(), _ => Some(1) };
        let args = [a.text(), z.text(), s.text()];
        let mut full = vec![b.clone()];
        full.extend_from_slice(&args[..k]);
        let g = call(b"slice", &full);
        let Some(step) = step else { ensures!(g.is_none(), "an empty step is refused"); return };
        if step > isize::MAX as i128 || step < isize::MIN as i128 { ensures!(g.is_none(), "a step out of range is refused"); return }
        let e = spec_slice(&b, if k > 0 { a.val() } else { None }, if k > 1 { z.val() } else { None }, step);
        ensures!(g == Some(e.clone()), "slice selects what the same Python slice selects");
        let r: &[&[u8]] = &[&args[0], &args[1], &args[2]];
        ensures!(abe::scope::bytes::slice(&b, &r[..k]).map(|i| i.copied().collect::<Vec<u8>>()).ok() == Some(e), "the library function agrees");
    }
    native any_args, unwind 1, bias 3 {
        let names = abe_names();
        let name = names[upto(names.len() - 1)];
        let k = 1 + upto(3);
        let args: Vec<Vec<u8>> = (0..k).map(|_| match upto(4) { 0 => dec(upto(30)), 1 => Num::any(20).text(), _ => gen::bytes(6) }).collect();
        // padding to an astronomical length is out of scope (memory)
        if args.iter().any(|a| std::str::from_utf8(a).ok().and_then(|s| s.parse::<usize>().ok()).is_some_and(|n| n > 100_000)) && !name.starts_with(b"slice") { return }
        let g = call(name, &args);
        cover!(g.is_some(), "accepted"); cover!(g.is_none(), "refused");
    }
    native number_text, unwind 1, bias 0 {
        macro_rules! one { ($t:ty, $n:literal, $ln:literal) => {{
            let x: $t = any();
            ensures!(call($n, &[x.to_string().into_bytes()]) == Some(x.to_be_bytes().to_vec()), "decimal text evaluates to the big endian value");
            ensures!(call($ln, &[x.to_string().into_bytes()]) == Some(x.to_le_bytes().to_vec()), "decimal text evaluates to the little endian value");
            ensures!(call(b"?u", &[x.to_be_bytes().to_vec()]) == Some(x.to_string().into_bytes()), "big endian bytes print as decimal");
            ensures!(call(b"?lu", &[x.to_le_bytes().to_vec()]) == Some(x.to_string().into_bytes()), "little endian bytes print as decimal");
            if let Some(y) = (x as u128).checked_add(<$t>::MAX as u128).and_then(|y| y.checked_add(1)) {
                ensures!(call($n, &[y.to_string().into_bytes()]).is_none() && call($ln, &[y.to_string().into_bytes()]).is_none(), "numbers out of range are refused");
            }
        }} }
        one!(u8, b"u8", b"lu8"); one!(u16, b"u16", b"lu16"); one!(u32, b"u32", b"lu32"); one!(u64, b"u64", b"lu64"); one!(u128, b"u128", b"lu128");
        let x: u128 = any();
        let le = x.to_le_bytes(); let be = x.to_be_bytes();
        let n = le.iter().rposition(|b| *b != 0).map(|i| i + 1).unwrap_or(0);
        ensures!(call(b"lu", &[x.to_string().into_bytes()]) == Some(le[..n].to_vec()), "'lu' is the shortest little endian form");
        let short = { let m = be.iter().position(|b| *b != 0).unwrap_or(15); be[m..].to_vec() };
        for (f, t) in [("b2", format!("{x:b}")), ("b8", format!("{x:o}")), ("b16", format!("{x:x}")), ("b16", format!("{x:X}"))] {
            ensures!(call(f.as_bytes(), &[t.into_bytes()]) == Some(short.clone()), "binary, octal and hex text evaluate to the value's bytes");
        }
        let v: Vec<u8> = { let n = upto(20); (0..n).map(|_| any()).collect() };
        if v.len() <= 16 { ensures!(call(b"?u", &[v.clone()]) == Some(value(&v).to_string().into_bytes()), "bytes of any length print as decimal"); let mut r = v.clone(); r.reverse(); ensures!(call(b"?lu", &[r]) == Some(value(&v).to_string().into_bytes()), "bytes of any length print as decimal"); }
        else { ensures!(call(b"?u", &[v.clone()]).is_none() && call(b"?lu", &[v.clone()]).is_none(), "more than 16 bytes are refused"); }
        for (enc, dec_) in [("?b", "b"), ("?bs", "bs")] {
            let t = call(enc.as_bytes(), &[v.clone()]);
            ensures!(t.is_some(), "base64 encodes everything");
            ensures!(call(dec_.as_bytes(), &[t.unwrap_or_default()]) == Some(v.clone()), "base64 decodes what it encoded");
        }
    }
    native encode_any, unwind 1, bias 0 {
        let n = upto(20);
        let mut b: Vec<u8> = (0..n).map(|_| any()).collect();
        if any() { let k = upto(n); for x in b[..k].iter_mut() { *x = 0 } }
        let names = [&b"a"[..], b"b", b"b2", b"b16", b"bs", b"u8", b"u16", b"u32", b"u64", b"u128", b"", b"nope", b"f", b"lu", b"?", b"rpad"];
        let k = 1 + upto(3);
        let mut opts: Vec<ABE> = vec![];
        let mut spec: Vec<(Vec<u8>, Vec<usize>)> = vec![];
        for i in 0..k {
            if i > 0 { opts.push(ABE::Ctr(Ctr::FSlash)) }
            let name = names[upto(names.len() - 1)].to_vec();
            if !name.is_empty() { opts.push(ABE::Expr(Expr::Bytes(name.clone()))) }
            let mut lens = vec![];
            if !name.is_empty() { for j in 0..[0usize, 0, 1, 2][upto(3)] { let l = if any() { b.len() } else if any() { b.len() + (256usize << upto(23)) } else { upto(20) }; lens.push(l); opts.push(ABE::Ctr(Ctr::Colon)); if j > 0 { lens.pop(); opts.pop(); } else { opts.push(ABE::Expr(Expr::Bytes(l.to_string().into_bytes()))) } } }
            spec.push((name, lens));
        }
        let ignore: bool = any();
        let st = encode_abe(&abe::scope::BASIC_SCOPE, &b, &opts, ignore);
        // which encoders apply
        let pick = spec.iter().filter(|_| !opts.is_empty()).find(|(n, lens)| match &n[..] {
            b"" | b"a" | b"bs" => true,
            b"b" => lens.is_empty() || lens.contains(&b.len()),
            b"b2" | b"b16" => (lens.is_empty() || lens.contains(&b.len())) && !b.is_empty() && b.len() <= 16 && (b[0] != 0 || b.len() == 1),
            b"u8" => b.len() == 1, b"u16" => b.len() == 2, b"u32" => b.len() == 4, b"u64" => b.len() == 8, b"u128" => b.len() == 16,
            _ => false,
        });
        match &st {
            Ok(st) => {
                let t = parse_abe_strict_b(st.as_bytes());
                ensures!(t.is_ok(), "an encoding is an expression");
                let v = eval(&abe::scope::BASIC_SCOPE, &t.unwrap()).ok().and_then(|v| v.into_exact_bytes().ok());
                ensures!(v == Some(b.clone()), "an encoding evaluates to the encoded bytes");
                ensures!(pick.is_some(), "an encoder restricted to other lengths does not encode");
                let (name, _) = pick.unwrap();
                ensures!(if name.is_empty() { *st == abe::abtxt::as_abtxt(&b) } else { st.as_bytes().starts_with(&[&b"["[..], name, b":"].concat()) }, "the first encoder that applies is used");
            }
            Err(_) => ensures!(pick.is_none(), "encoding fails only when no encoder applies"),
        }
        cover!(st.is_ok(), "encoded"); cover!(st.is_err(), "no encoder");
        let text = print_abe(opts.iter());
        if text.bytes().all(|c| c != b'\\') { ensures!(abe::eval::encode(&abe::scope::BASIC_SCOPE, &b, &text, ignore).ok() == st.ok(), "encoders given as text are the same encoders"); }
    }
    /// the functions and macros that encode
    native encode_calls, unwind 1, bias 0 {
        let b = gen::bytes(17);
        let sc = &abe::scope::BASIC_SCOPE;
        let opts = ["a", "b", "b2", "b16", "bs", "u8", "u16", "u32/b", "nope/a", "nope", "b:3", "b:3/u8", "b16:1:2/b2:4", "/", "u16/", "", "b:x", "b:x/a", "[", "a/b:x"][upto(19)];
        let want = abe::eval::encode(sc, &b, opts, false).ok();
        let one = |name: &[u8]| call(name, &[b.clone(), opts.as_bytes().to_vec()]);
        ensures!(one(b"?") == want.clone().map(String::into_bytes), "'?' encodes its first argument with the encoders its second names");
        let inner = |s: &String| s.strip_prefix('[').and_then(|s| s.strip_suffix(']')).map(str::to_string);
        ensures!(one(b"??") == want.as_ref().map(|s| inner(s).unwrap_or(s.clone()).into_bytes()), "'??' is the encoding without its brackets");
        ensures!(one(b"???") == want.as_ref().map(|s| inner(s).map(|s| s.splitn(2, ':').nth(1).unwrap_or("").to_string()).unwrap_or(s.clone()).into_bytes()), "'???' is the encoding without its brackets and function");
        if let Ok(ot) = parse_abe_strict_b(opts.as_bytes()) {
            for (name, ignore) in [(&b"?"[..], false), (b"~?", true)] {
                let mut l = vec![ABE::Ctr(Ctr::FSlash), ABE::Expr(Expr::Bytes(name.to_vec())), ABE::Ctr(Ctr::Colon)];
                if any() { l.push(ABE::Expr(Expr::Bytes(b.clone()))); }
                else { l.push(ABE::Expr(Expr::Lst(vec![ABE::Expr(Expr::Bytes(b"bs".to_vec())), ABE::Ctr(Ctr::Colon), ABE::Expr(Expr::Bytes(call(b"?bs", &[b.clone()]).unwrap_or_default()))]))); }
                if !ot.is_empty() { l.push(ABE::Ctr(Ctr::FSlash)); l.extend(ot.iter().cloned()); }
                let r = eval(sc, &[ABE::Expr(Expr::Lst(l))]).ok().and_then(|l| l.into_exact_bytes().ok());
                ensures!(r == encode_abe(sc, &b, &ot, ignore).ok().map(String::into_bytes), "the macro encodes what its expression evaluates to with the encoders that follow");
            }
        }
    }
    native encode_garbage, unwind 1, bias 3 {
        let b = gen::bytes(18);
        let opts = if any() { gen::tree(2, 4) } else { let mut o = vec![ABE::Expr(Expr::Bytes([&b"b2"[..], b"b16", b"b", b"u8", b"a", b"bs"][upto(5)].to_vec())), ABE::Ctr(Ctr::Colon)]; o.extend(gen::tree(1, 3)); o };
        let st = encode_abe(&abe::scope::BASIC_SCOPE, &b, &opts, any());
        if let Ok(st) = st {
            let v = parse_abe_strict_b(st.as_bytes()).ok().and_then(|t| eval(&abe::scope::BASIC_SCOPE, &t).ok()).and_then(|v| v.into_exact_bytes().ok());
            ensures!(v == Some(b), "an encoding evaluates to the encoded bytes");
        }
    }
}
#[cfg(not(kani))]
fn abe_names() -> Vec<&'static [u8]> {
    vec![b"?a", b"?a0", b"a", b"f", b"lpad", b"rpad", b"~lpad", b"~rpad", b"lcut", b"rcut", b"~lcut", b"~rcut", b"lfixed", b"rfixed", b"replace", b"slice", b"~utf8",
         b"+", b"-", b"u8", b"u16", b"u32", b"u64", b"u128", b"?u", b"lu", b"lu8", b"lu16", b"lu32", b"lu64", b"lu128", b"?lu", b"b2", b"b8", b"b16", b"?b", b"2mini", b"b", b"?bs", b"bs"]
}
