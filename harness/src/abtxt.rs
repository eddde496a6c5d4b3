//! C01/C02: ABTXT printing and parsing.
use abe::abtxt::*;
use crate::nd::*;

/// Specification of the printed form of one byte, written from the documentation of the format.
pub fn spec_escape(b: u8) -> ([u8; 4], usize) {
    const H: &[u8; 16] = b"0123456789abcdef";
    let two = match b { 0 => b'0', 255 => b'f', b'\n' => b'n', b'\t' => b't', b'\r' => b'r', b':' | b'\\' | b'/' | b'[' | b']' => b, _ => 0 };
    if two != 0 { return ([b'\\', two, 0, 0], 2) }
    if b >= 0x20 && b <= 0x7e { return ([b, 0, 0, 0], 1) }
    ([b'\\', b'x', H[(b >> 4) as usize], H[(b & 15) as usize]], 4)
}
pub fn hexval(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None } }
/// Specification of the grammar: what the head of `s` denotes.
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Tok { End, Err, Ctr(u8), Byte(u8, usize) }
pub fn spec_next(s: &[u8], plain: u32, err: u32) -> Tok {
    if s.is_empty() { return Tok::End }
    let bit = |c: u8| match c { b'/' => 1u32, b':' => 2, b'\n' => 4, b'[' => 16, b']' => 32, _ => 0 };
    let c = s[0];
    if c == b'\\' {
        if s.len() < 2 { return Tok::Err }
        return match s[1] {
            b'x' => { if s.len() < 4 { return Tok::Err } match (hexval(s[2]), hexval(s[3])) { (Some(a), Some(b)) => Tok::Byte(a * 16 + b, 4), _ => Tok::Err } }
            b'n' => Tok::Byte(10, 2), b'r' => Tok::Byte(13, 2), b't' => Tok::Byte(9, 2), b'0' => Tok::Byte(0, 2), b'f' => Tok::Byte(255, 2),
            k @ (b'[' | b']' | b':' | b'/' | b'\\') => Tok::Byte(k, 2),
            _ => Tok::Err,
        };
    }
    let k = bit(c);
    if k != 0 { return if err & k != 0 { Tok::Err } else if plain & k != 0 { Tok::Byte(c, 1) } else { Tok::Ctr(c) } }
    if c >= 0x20 && c <= 0x7e { Tok::Byte(c, 1) } else { Tok::Err }
}
/// Specification of parsing a whole text: Ok(number of bytes) with the bytes written to out, or Err.
pub fn spec_parse(s: &[u8], out: &mut [u8]) -> Result<usize, ()> {
    let mut i = 0; let mut n = 0;
    while i < s.len() {
        match spec_next(&s[i..], 0, 4) { Tok::Byte(b, k) => { if n >= out.len() { return Err(()) } out[n] = b; n += 1; i += k } _ => return Err(()) }
    }
    Ok(n)
}

contracts! {
    /// every byte: printed form equals the specified one
    full escape_table, unwind 6, bias 0 {
        let b: u8 = any();
        let e = escape_default(b).as_bytes();
        let (s, n) = spec_escape(b);
        cover!(n == 4, "hex form");
        cover!(n == 2, "short form");
        ensures!(e.len() == n, "the printed form of a byte has the specified length");
        let mut i = 0;
        while i < n { ensures!(e[i] == s[i], "the printed form of a byte is the specified one"); ensures!(e[i] >= 0x20 && e[i] <= 0x7e, "printed text is printable ascii"); i += 1 }
        ensures!(escaped_byte(b) == (n > 1), "escaped_byte tells whether a byte is escaped");
    }
    /// reading back one printed byte, with anything after it
    bounded escape_then_parse, unwind 8, bias 0 {
        let b: u8 = any();
        let (s, n) = spec_escape(b);
        let mut out = [0u8; 2];
        let r = parse_abtxt_into(&s[..n], &mut out);
        ensures!(matches!(r, Ok(1)), "a printed byte parses to exactly one byte");
        ensures!(out[0] == b && out[1] == 0, "a printed byte parses back to itself");
    }
    /// parsing any text of at most 5 bytes into a destination of at most 3
    bounded parse_into, unwind 8, bias 3 {
        let t = buf::<5>();
        let cap = upto(3);
        let mut out = [0xEEu8; 4];
        let r = parse_abtxt_into(t.get(), &mut out[..cap]);
        let mut sp = [0xEEu8; 4];
        let e = spec_parse(t.get(), &mut sp[..cap]);
        cover!(matches!(r, Ok(2)), "two bytes accepted");
        cover!(r.is_err(), "rejected");
        match (r, e) {
            (Ok(n), Ok(m)) => { ensures!(n == m, "the number of parsed bytes is the specified one"); ensures!(n <= cap, "never more bytes than the destination holds"); ensures!(out == sp, "the parsed bytes are the specified ones, and nothing else is written"); }
            (Err(_), Err(_)) => ensures!(out[3] == 0xEE && out[cap] == 0xEE, "nothing is written outside the destination"),
            (Ok(_), Err(_)) => ensures!(false, "text outside the grammar or too long is rejected"),
            (Err(_), Ok(_)) => ensures!(false, "text inside the grammar that fits is accepted"),
        }
    }
    native print_parse_any, unwind 1, bias 0 {
        let v = buf::<64>();
        let plain: bool = any();
        let v: Vec<u8> = v.get().iter().map(|b| if plain { b'a' + b % 26 } else { *b }).collect();
        // most strings are short; some are the same bytes many times over
        let reps = if upto(3) == 0 { 1 + upto(40) } else { 1 };
        let mut v = v.repeat(reps);
        for _ in 0..upto(2) { if !v.is_empty() { let i = upto(v.len() - 1); v[i] = any() } }
        let v = &v[..];
        let t = as_abtxt(v);
        let mut exp = Vec::new();
        for b in v { let (s, n) = spec_escape(*b); exp.extend_from_slice(&s[..n]); }
        ensures!(t.as_bytes() == &exp[..], "the printed text is the concatenation of the printed bytes");
        let back = parse_abtxt_upto_max(t.as_bytes(), v.len());
        ensures!(matches!(&back, Ok(x) if x == v), "printing then parsing is the identity");
        if v.len() > 0 { ensures!(parse_abtxt_upto_max(t.as_bytes(), v.len() - 1).is_err(), "a text longer than the limit is rejected"); }
        let mut d = vec![0xEE; v.len() + 2];
        ensures!(matches!(parse_abtxt_into(t.as_bytes(), &mut d), Ok(n) if n == v.len()), "printed text parses into a large enough destination");
        ensures!(&d[..v.len()] == v && d[v.len()..] == [0xEE, 0xEE], "parsing writes exactly the bytes");
    }
    native parse_any, unwind 1, bias 3 {
        let t = buf::<24>();
        let cap = upto(12);
        let mut out = [0xEEu8; 24]; let mut sp = [0xEEu8; 24];
        let r = parse_abtxt_into(t.get(), &mut out[..cap]);
        let e = spec_parse(t.get(), &mut sp[..cap]);
        ensures!(r.is_ok() == e.is_ok(), "exactly the texts in the grammar that fit are accepted");
        if let (Ok(n), Ok(m)) = (&r, &e) { ensures!(n == m && out == sp, "the parsed bytes are the specified ones"); }
        ensures!(out[cap..].iter().all(|b| *b == 0xEE), "nothing is written outside the destination");
        let u = parse_abtxt_upto_max(t.get(), cap);
        ensures!(u.is_ok() == e.is_ok(), "the growing parser accepts exactly the same texts");
        if let Ok(u) = u { ensures!(u[..] == sp[..u.len()] && Ok(u.len()) == e, "the growing parser reads the same bytes"); }
    }
}
