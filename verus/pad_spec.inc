pub open spec fn fill(b: u8, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| b) }
/// the length argument: the default 16 when it is left out or (for padding) empty
pub open spec fn pad_len(a: Seq<&[u8]>) -> Option<usize> { if a.len() < 2 || a[1]@.len() == 0 { Some(16) } else { num(a[1]@) } }
pub open spec fn cut_len(a: Seq<&[u8]>) -> Option<usize> { if a.len() < 2 { Some(16) } else { num(a[1]@) } }
/// padding `s` to n bytes with b; the named side gets the fill
pub open spec fn padded(s: Seq<u8>, n: int, b: u8, left: bool) -> Seq<u8> { if left { fill(b, n - s.len()) + s } else { s + fill(b, n - s.len()) } }
/// the n bytes of s that cutting on the named side keeps
pub open spec fn kept(s: Seq<u8>, n: int, left: bool) -> Seq<u8> { if left { s.take(n) } else { s.skip(s.len() - n) } }
/// a, f, lpad, rpad: strict
pub open spec fn spec_pad(a: Seq<&[u8]>, left: bool, dfl: u8) -> Option<Seq<u8>> {
    match pad_len(a) {
        None => None,
        Some(n) => if a[0]@.len() > n { None } else if a.len() > 2 && a[2]@.len() != 1 { None } else { Some(padded(a[0]@, n as int, if a.len() > 2 { a[2]@[0] } else { dfl }, left)) },
    }
}
