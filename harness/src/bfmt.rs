//! C05, C06, C12, C13: fixed-size byte strings, endian integers, base64 values.
use crate::nd::*;
use abe::{cut_ending_nulls2, cut_prefix_nulls, cut_prefixeq, fit, fit_back, fit_front};
use byte_fmt::endian_types::*;
use byte_fmt::{ab, abx, AB, B64, U256, U512};
use abe::eval::ABList;
use abe::{ABEValidator, ToABE, TypedABE, ABE};

macro_rules! fits { ($L:literal, $N:literal) => {{
    let s = buf::<$N>(); let s = s.get();
    let (a, b, c, e) = (fit_back::<0, $L>(s), fit_back::<255, $L>(s), fit_front::<$L>(s), fit::<$L>(s));
    ensures!(a.is_ok() == (s.len() <= $L) && b.is_ok() == (s.len() <= $L) && c.is_ok() == (s.len() <= $L), "fits exactly when not longer");
    ensures!(e.is_ok() == (s.len() == $L), "an exact fit needs exactly that length");
    let i = upto($L - 1); let d = $L - s.len().min($L);
    if let (Ok(a), Ok(b), Ok(c)) = (a, b, c) {
        ensures!(a[i] == if i < d { 0 } else { s[i - d] }, "left padding with zeros keeps the bytes at the end");
        ensures!(b[i] == if i < d { 255 } else { s[i - d] }, "left padding with 0xff keeps the bytes at the end");
        ensures!(c[i] == if i < s.len() { s[i] } else { 0 }, "front fitting keeps the bytes at the start and fills with zeros");
    }
    if let Ok(e) = e { ensures!(e[i] == s[i], "an exact fit is the same bytes"); }
    cover!(s.len() == $L, "exact"); cover!(s.len() > $L, "too long");
}} }
macro_rules! cuts { ($N:literal) => {{
    let s = buf::<$N>(); let s = s.get();
    let n = s.len();
    let a = cut_prefix_nulls(s); let b = cut_prefixeq::<255>(s); let c = cut_ending_nulls2(s);
    let k = n - a.len().min(n); let l = n - b.len().min(n); let m = c.len();
    ensures!(a == &s[k..] && (a.is_empty() || a[0] != 0) && s[..k].iter().all(|x| *x == 0), "stripping drops exactly the leading zeros");
    ensures!(b == &s[l..] && (b.is_empty() || b[0] != 255) && s[..l].iter().all(|x| *x == 255), "stripping drops exactly the leading 0xff");
    ensures!(c == &s[..m] && (m == 0 || c[m - 1] != 0) && s[m..].iter().all(|x| *x == 0), "stripping drops exactly the trailing zeros");
    cover!(k > 0 && m > 0, "both");
}} }
macro_rules! endian { ($T:ident, $t:ident, $n:literal, $b:ident, $A:ident) => {{
    let x: $t = any(); let y: $t = any();
    let (p, q) = ($T::new(x), $T::new(y));
    ensures!(p.get() == x && p.0 == x.$b() && p.to_bytes() == x.$b() && *p == x.$b() && p.as_ref() == &x.$b()[..], "the value and layout are the native integer's");
    ensures!($T::from(x) == p && $T::from(x.$b()) == p && Into::<$t>::into(p) == x && Into::<[u8; $n]>::into(p) == x.$b(), "conversions agree");
    ensures!($T::try_from(&x.$b()[..]).ok() == Some(p), "conversion from a slice agrees");
    ensures!($T::try_from(&x.$b()[1..]).is_err(), "a slice of another length is refused");
    ensures!(p.cmp(&q) == x.cmp(&y) && p.partial_cmp(&q) == x.partial_cmp(&y) && (p == q) == (x == y) && (p < q) == (x < y), "ordering agrees");
    ensures!(p.saturating_add(q).get() == x.saturating_add(y) && p.saturating_sub(q).get() == x.saturating_sub(y) && p.incr().get() == x.saturating_add(1), "saturating arithmetic agrees");
    ensures!((p & q).get() == x & y && (p | q).get() == x | y && (!p).get() == !x, "bitwise operations agree");
    let mut r = q; r.set(x);
    ensures!(r == p, "set stores the value");
    ensures!($A::from(p).get() == x && $T::from($A::from(p)) == p, "the other endianness holds the same value");
    ensures!($T::MAX.get() == $t::MAX && $T::ZERO.get() == 0 && $T::default().get() == 0, "constants agree");
    ensures!(p.align()[0] == $t::from_ne_bytes(x.$b()), "the raw word is the stored bytes");
    cover!(x > y, "greater");
}} }
macro_rules! be_order { ($T:ident, $t:ident) => {{ let x: $t = any(); let y: $t = any(); ensures!($T::new(x).0.cmp(&$T::new(y).0) == x.cmp(&y), "big endian bytes order as the numbers"); }} }
fn garbage() -> Vec<u8> { let n = upto(48); let r: bool = any(); (0..n).map(|_| { let b: u8 = any(); if r { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[b as usize & 63] } else { b } }).collect() }
/// base64 url-safe without padding, from RFC 4648
fn spec_b64(b: &[u8]) -> Vec<u8> {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = vec![];
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() { o.push(T[(v >> (18 - 6 * k)) as usize & 63]) }
    }
    o
}
#[cfg(not(kani))]
fn typed<T: ABEValidator + ToABE + PartialEq + Clone + TryFrom<ABList>>(v: T) where <T as TryFrom<ABList>>::Error: std::error::Error + Send + Sync + 'static {
    let scope = abe::scope::basic_scope();
    let t = v.to_abe();
    ensures!(T::check(&t).is_ok(), "the shape check accepts the expression");
    let e = TypedABE::<T>::from(t.clone()).ok().and_then(|t| t.eval(&scope).ok());
    ensures!(e.as_ref() == Some(&v), "the expression evaluates to the value");
    let s = v.to_abe_str();
    let e2 = s.parse::<TypedABE<T>>().ok().and_then(|t| t.eval(&scope).ok());
    ensures!(e2.as_ref() == Some(&v), "the text evaluates to the value");
    let mut w = vec![]; v.write_abe(&mut |a| w.push(a));
    ensures!(w == t, "written expression is the expression");
    let e3 = abe::print_abe(t.iter()).parse::<TypedABE<T>>().ok().and_then(|t| t.eval(&scope).ok());
    ensures!(e3.as_ref() == Some(&v), "the printed expression evaluates to the value");
}
macro_rules! ab_any { ($N:literal) => {{
    let v: [u8; $N] = any();
    typed(AB(v)); typed(B64(v));
    ensures!(AB(v).to_string().parse::<AB<[u8; $N]>>().ok() == Some(AB(v)), "plain text reads back");
    ensures!(B64(v).to_string().parse::<B64<[u8; $N]>>().ok() == Some(B64(v)), "base64 text reads back");
    let l: ABList = AB(v).into(); ensures!(AB::<[u8; $N]>::try_from(l).ok() == Some(AB(v)), "list form reads back");
    let l: ABList = B64(v).into(); ensures!(B64::<[u8; $N]>::try_from(l).ok() == Some(B64(v)), "list form reads back");
    // conversions of other lengths
    let s: Vec<u8> = { let n = upto($N + 3); (0..n).map(|_| any()).collect() };
    let want = if s.len() <= $N { let mut w = [0u8; $N]; w[$N - s.len()..].copy_from_slice(&s); Some(AB(w)) } else { None };
    ensures!(AB::<[u8; $N]>::try_from(&s[..]).ok() == want && AB::<[u8; $N]>::try_fit_byte_slice(&s).ok() == want && byte_fmt::try_ab::<$N>(&s).ok() == want, "slices fit with zeros before them");
    let txt = abe::abtxt::as_abtxt(&s);
    ensures!(AB::<[u8; $N]>::parse_abtxt(&*txt).ok() == want && txt.parse::<AB<[u8; $N]>>().ok() == want, "text of the same bytes fits the same way");
    ensures!(AB::<[u8; $N]>::try_from(ABList::from(s.clone())).ok() == want, "a list of the same bytes fits the same way");
    if s.len() <= $N { ensures!(Some(ab::<$N>(&s)) == want && abx::<$N>(&s).0.to_vec() == [&vec![255; $N - s.len()][..], &s].concat(), "ab and abx pad on the left"); }
    if let Some(w) = want { ensures!(w.cut_prefix_nulls() == cut_prefix_nulls(&s), "stripping gives back the bytes without their leading zeros"); ensures!(byte_fmt::as_abtxt_c(&w.0, true) == abe::abtxt::as_abtxt(cut_prefix_nulls(&s)) && w.as_str(true) == abe::abtxt::as_abtxt(cut_prefix_nulls(&s)), "stripped text"); }
    let d = abe::eval::clist(&[&s, &s]);
    ensures!(AB::<[u8; $N]>::try_from(d.clone()).is_err() && B64::<[u8; $N]>::try_from(d).is_err(), "delimited lists are refused");
}} }
macro_rules! b64_any { ($N:literal) => {{
    let t = if any() { garbage() } else { let s: [u8; $N] = any(); let mut t = spec_b64(&s); let l = t.len(); if l > 0 && any() { let i = upto(l - 1); t[i] = any(); } t };
    let r = B64::<[u8; $N]>::parse_str(&t);
    // canonical texts are those of some value
    let dec = |t: &[u8]| -> Option<Vec<u8>> { let mut o = vec![]; let mut acc = 0u32; let mut bits = 0; for c in t { let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'-' => 62, b'_' => 63, _ => return None } as u32; acc = acc << 6 | v; bits += 6; if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); acc &= (1 << bits) - 1 } } Some(o) };
    let want = dec(&t).filter(|v| v.len() == $N && spec_b64(v) == t);
    ensures!(r.as_ref().ok().map(|b| b.0.to_vec()) == want, "exactly the canonical texts of values are accepted");
    ensures!(B64::<Vec<u8>>::parse_str(&t).ok().map(|b| b.0) == dec(&t).filter(|v| spec_b64(v) == t), "base64 of any length decodes exactly the canonical texts");
    let f = B64::<[u8; $N]>::try_fit_bytes_or_b64(&t).ok().map(|b| b.0.to_vec());
    ensures!(f == want.or(if t.len() == $N { Some(t.clone()) } else { None }), "raw bytes of the right length are taken as they are");
    cover!(r.is_ok(), "accepted"); cover!(r.is_err(), "refused");
}} }

contracts! {
    bounded fit_1, unwind 5, bias 0 { fits!(1, 3) }
    bounded fit_2, unwind 6, bias 0 { fits!(2, 4) }
    bounded fit_16, unwind 20, bias 0 { fits!(16, 18) }
    bounded fit_32, unwind 36, bias 0 { fits!(32, 34) }
    bounded cut_8, unwind 11, bias 0 { cuts!(8) }
    native cut_any, unwind 1, bias 0 { cuts!(40) }
    full be16, unwind 20, bias 0 { endian!(U16, u16, 2, to_be_bytes, LU16); be_order!(U16, u16) }
    full be32, unwind 20, bias 0 { endian!(U32, u32, 4, to_be_bytes, LU32); be_order!(U32, u32) }
    full be64, unwind 20, bias 0 { endian!(U64, u64, 8, to_be_bytes, LU64); be_order!(U64, u64) }
    full be128, unwind 20, bias 0 { endian!(U128, u128, 16, to_be_bytes, LU128); be_order!(U128, u128) }
    full le16, unwind 20, bias 0 { endian!(LU16, u16, 2, to_le_bytes, U16) }
    full le32, unwind 20, bias 0 { endian!(LU32, u32, 4, to_le_bytes, U32) }
    full le64, unwind 20, bias 0 { endian!(LU64, u64, 8, to_le_bytes, U64) }
    full le128, unwind 20, bias 0 { endian!(LU128, u128, 16, to_le_bytes, U128) }
    native text, unwind 1, bias 0 {
        let x: u128 = any();
        macro_rules! t { ($($T:ident $t:ident),*) => { $( {
            let y = x as $t;
            ensures!($T::new(y).to_string() == y.to_string(), "prints as the native integer");
            ensures!(y.to_string().parse::<$T>().ok() == Some($T::new(y)), "reads back");
            ensures!(x.to_string().parse::<$T>().ok().map(|v| v.get()) == <$t>::try_from(x).ok(), "a number out of range is refused");
            let bits: String = $T::new(y).0.iter().map(|b| format!("_{b:08b}")).collect();
            ensures!(format!("{:b}", $T::new(y)) == format!("0b{bits}") && binary_str(&$T::new(y).0) == format!("0b{bits}"), "the binary form shows the stored bytes");
        } )* } }
        t!(U16 u16, U32 u32, U64 u64, U128 u128, LU16 u16, LU32 u32, LU64 u64, LU128 u128);
        let g = garbage(); let g = String::from_utf8_lossy(&g);
        ensures!(g.parse::<U32>().ok().map(|v| v.get()) == g.parse::<u32>().ok() && g.parse::<LU16>().ok().map(|v| v.get()) == g.parse::<u16>().ok(), "other text is read as the native integer reads it");
    }
    native typed_ints, unwind 1, bias 0 {
        let x: u128 = any();
        typed(U8(x as u8)); typed(U16::new(x as u16)); typed(U32::new(x as u32)); typed(U64::new(x as u64)); typed(U128::new(x));
        typed(LU16::new(x as u16)); typed(LU32::new(x as u32)); typed(LU64::new(x as u64)); typed(LU128::new(x));
        let scope = abe::scope::basic_scope();
        let e = U8(x as u8).abe_bits();
        ensures!(TypedABE::<U8>::from_unchecked(e).eval(&scope).ok() == Some(U8(x as u8)), "the bit form evaluates to the value");
        let e = LU64::new(x as u64).lu_abe();
        ensures!(TypedABE::<LU64>::from_unchecked(e).eval(&scope).ok() == Some(LU64::new(x as u64)), "the little endian form evaluates to the value");
        let l: ABList = LU128::new(x).into(); ensures!(LU128::try_from(l).ok() == Some(LU128::new(x)), "list form reads back");
        let l: ABList = U64::new(x as u64).into(); ensures!(U64::try_from(l).ok() == Some(U64::new(x as u64)), "list form reads back");
        let l: ABList = U8(x as u8).into(); ensures!(U8::try_from(l).ok() == Some(U8(x as u8)), "list form reads back");
        // bytes of another length
        let b: Vec<u8> = { let n = upto(18); (0..n).map(|_| any()).collect() };
        let l = || ABList::from(b.clone());
        ensures!(U8::try_from(l()).is_ok() == (b.len() == 1) && U16::try_from(l()).is_ok() == (b.len() == 2) && U32::try_from(l()).is_ok() == (b.len() == 4) && U64::try_from(l()).is_ok() == (b.len() == 8) && U128::try_from(l()).is_ok() == (b.len() == 16), "bytes of another length are refused");
        ensures!(LU16::try_from(l()).is_ok() == (b.len() <= 2) && LU32::try_from(l()).is_ok() == (b.len() <= 4) && LU64::try_from(l()).is_ok() == (b.len() <= 8) && LU128::try_from(l()).is_ok() == (b.len() <= 16), "longer bytes are refused");
        if b.len() <= 8 { let mut w = [0; 8]; w[..b.len()].copy_from_slice(&b); ensures!(LU64::try_from(l()).ok() == Some(LU64(w)) && LU64::try_fit_slice(&b).ok() == Some(LU64(w)), "shorter little endian bytes fit at the front"); }
    }
    native typed_bytes, unwind 1, bias 0 { ab_any!(1); ab_any!(7); ab_any!(16); ab_any!(17); ab_any!(32); }
    native b64_text, unwind 1, bias 0 { b64_any!(1); b64_any!(2); b64_any!(3); b64_any!(4); b64_any!(16); b64_any!(32); }
    native b64_print, unwind 1, bias 0 {
        let v: [u8; 32] = any(); let s = spec_b64(&v); let s = String::from_utf8(s).unwrap();
        let mut o = String::from("x"); B64(v).b64_into(&mut o);
        ensures!(B64(v).to_string() == s && B64(v).b64() == s && byte_fmt::base64(v) == s && byte_fmt::b64(&v, false) == s && o == format!("x{s}") && format!("{:?}", B64(v)) == s, "prints as url-safe base64 without padding");
        let w: Vec<u8> = { let n = upto(40); (0..n).map(|_| any()).collect() };
        ensures!(B64(w.clone()).to_string().into_bytes() == spec_b64(&w), "prints as url-safe base64 without padding");
        let m = byte_fmt::mini_b64(&w);
        let f = spec_b64(&w); let f = std::str::from_utf8(&f).unwrap();
        ensures!(if w.len() <= 12 { m == f } else { m.starts_with(&f[..6]) && m.ends_with(&f[f.len() - 2..]) }, "the short form starts and ends as the full one");
        ensures!(U256::from_be_bytes(v) == B64(v).to_u256(), "the integer view agrees");
    }
    full b64_ops, unwind 34, bias 0 {
        let a: [u8; 32] = any(); let b: [u8; 32] = any();
        let x = (B64(a) ^ B64(b)).0;
        let i = upto(31);
        ensures!(x[i] == a[i] ^ b[i], "xor is bytewise");
        ensures!(B64(a).into_bytes()[i] == a[i] && B64(a).inner()[i] == a[i] && B64::from_ref(&a).0[i] == a[i] && AsRef::<[u8]>::as_ref(&B64(a))[i] == a[i], "the bytes are the value's");
        let c: [u8; 16] = any();
        ensures!(AB(c).to_u128() == u128::from_be_bytes(c) && u128::from(AB(c)) == u128::from_be_bytes(c) && AB::from_u128(u128::from_be_bytes(c)).0 == c && AB::<[u8; 16]>::from(u128::from_be_bytes(c)).0 == c, "the 128 bit view is the big endian value");
        ensures!(AB(c).uint().0 == c, "the endian view is the same bytes");
        let w: [u128; 2] = [any(), any()];
        let h = B64(w); let r: &[u8; 32] = h.as_ref();
        ensures!(r[i] == w[i / 16].to_ne_bytes()[i % 16], "a pair of words views as its bytes");
    }
    full u256_view, unwind 34, bias 0 {
        let a: [u8; 32] = any();
        let u = B64(a).to_u256();
        let l = u.as_limbs();
        let k = upto(3); let j = upto(7);
        ensures!((l[k] >> (8 * j)) as u8 == a[31 - 8 * k - j], "the 256 bit view is the big endian value");
        let i = upto(31);
        ensures!(B64::from_u256(u).0[i] == a[i] && B64::<[u8; 32]>::from(u).0[i] == a[i], "and its inverse");
    }
    full u512_view, unwind 66, bias 0 {
        let a: [u8; 64] = any();
        let u: U512 = B64(a).into();
        let l = u.as_limbs();
        let k = upto(7); let j = upto(7);
        ensures!((l[k] >> (8 * j)) as u8 == a[63 - 8 * k - j], "the 512 bit view is the big endian value");
        let i = upto(63);
        ensures!(B64::<[u8; 64]>::from(u).0[i] == a[i], "and its inverse");
    }
}
