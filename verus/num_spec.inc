// ---------------------------------------------------------------- specification: numbers as text and as bytes
pub open spec fn p256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
/// the decimal form
pub open spec fn dec(n: int) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) } }
pub open spec fn digit(c: u8, r: int) -> Option<int> {
    let d = if 48 <= c && c <= 57 { c as int - 48 } else if 97 <= c && c <= 122 { c as int - 87 } else if 65 <= c && c <= 90 { c as int - 55 } else { 99 };
    if d < r { Some(d) } else { None }
}
pub open spec fn digs(s: Seq<u8>, r: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else { match (digs(s.drop_last(), r), digit(s.last(), r)) { (Some(v), Some(d)) => Some(v * r + d), _ => None } }
}
/// ASSUMED (documented): what from_utf8 followed by str::parse or from_str_radix of an unsigned integer type reads: an optional '+', then digits
pub open spec fn num_r(s: Seq<u8>, r: int, max: int) -> Option<int> {
    let t = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s };
    if t.len() == 0 { None } else { match digs(t, r) { Some(v) => if v <= max { Some(v) } else { None }, None => None } }
}
pub open spec fn num(s: Seq<u8>) -> Option<usize> { match num_r(s, 10, usize::MAX as int) { Some(v) => Some(v as usize), None => None } }
/// big endian value of a byte string; the n big endian (little endian) bytes of a value
pub open spec fn val(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last()) * 256 + s.last() } }
pub open spec fn be(v: int, n: nat) -> Seq<u8> decreases n { if n == 0 { seq![] } else { be(v / 256, (n - 1) as nat).push((v % 256) as u8) } }
pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { s.reverse() }
pub open spec fn le(v: int, n: nat) -> Seq<u8> { rev(be(v, n)) }
pub open spec fn bit(b: u8, k: int) -> u8 { (48 + (b as int / k) % 2) as u8 }
pub open spec fn bits(b: u8) -> Seq<u8> { seq![bit(b, 128), bit(b, 64), bit(b, 32), bit(b, 16), bit(b, 8), bit(b, 4), bit(b, 2), bit(b, 1)] }
pub open spec fn up(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub open spec fn hex2(b: u8) -> Seq<u8> { seq![up(b as int / 16), up(b as int % 16)] }
pub open spec fn all_bits(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { all_bits(s.drop_last()) + bits(s.last()) } }
pub open spec fn all_hex(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { all_hex(s.drop_last()) + hex2(s.last()) } }
// ---------------------------------------------------------------- lemmas
pub proof fn val_bound(s: Seq<u8>)
    ensures 0 <= val(s) < p256(s.len()),
    decreases s.len(),
{ if s.len() > 0 { val_bound(s.drop_last()); } }
pub proof fn p256_pos(n: nat) ensures p256(n) >= 1 decreases n { if n > 0 { p256_pos((n - 1) as nat); } }
pub proof fn p256_mono(n: nat, m: nat) requires n <= m ensures p256(n) <= p256(m) decreases m { if n < m { p256_mono(n, (m - 1) as nat); p256_pos((m - 1) as nat); } }
/// bytes are the bytes of their value
pub proof fn be_val(s: Seq<u8>)
    ensures be(val(s), s.len()) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        be_val(s.drop_last()); val_bound(s.drop_last());
        let (v, b) = (val(s.drop_last()), s.last() as int);
        assert((v * 256 + b) / 256 == v && (v * 256 + b) % 256 == b);
        assert(be(val(s), s.len()) =~= s);
    } else { assert(be(val(s), 0) =~= s); }
}
/// a value is the value of its bytes
pub proof fn val_be(v: int, n: nat)
    requires 0 <= v < p256(n),
    ensures val(be(v, n)) == v, be(v, n).len() == n,
    decreases n,
{
    if n > 0 {
        assert(v / 256 < p256((n - 1) as nat));
        val_be(v / 256, (n - 1) as nat);
        assert(be(v, n).drop_last() =~= be(v / 256, (n - 1) as nat));
    }
}
pub proof fn be_len(v: int, n: nat) ensures be(v, n).len() == n decreases n { if n > 0 { be_len(v / 256, (n - 1) as nat); } }
/// more room is more leading zeros
pub proof fn be_wide(v: int, n: nat, m: nat)
    requires 0 <= v < p256(n), n <= m,
    ensures be(v, m) == Seq::new((m - n) as nat, |i: int| 0u8) + be(v, n),
    decreases n, m,
{
    if n == 0 {
        be_len(v, m);
        if m > 0 { be_wide(v, 0, (m - 1) as nat); assert(0int / 256 == 0); }
        assert(be(v, m) =~= Seq::new((m - n) as nat, |i: int| 0u8) + be(v, n));
    } else {
        assert(v / 256 < p256((n - 1) as nat));
        be_wide(v / 256, (n - 1) as nat, (m - 1) as nat);
        assert(be(v, m) =~= Seq::new((m - n) as nat, |i: int| 0u8) + be(v, n));
    }
}
proof fn digs_push(s: Seq<u8>, c: u8, r: int)
    ensures digs(s.push(c), r) == (match (digs(s, r), digit(c, r)) { (Some(v), Some(d)) => Some(v * r + d), _ => None }),
{ assert(s.push(c).drop_last() =~= s); }
/// a number reads as itself
pub proof fn dec_reads(n: int)
    requires n >= 0,
    ensures digs(dec(n), 10) == Some(n), dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> 48 <= #[trigger] dec(n)[i] <= 57,
    decreases n,
{
    if n < 10 { digs_push(seq![], (48 + n) as u8, 10); assert(seq![].push((48 + n) as u8) =~= dec(n)); }
    else { dec_reads(n / 10); digs_push(dec(n / 10), (48 + n % 10) as u8, 10); }
}
pub proof fn dec_num(n: int, max: int)
    requires 0 <= n,
    ensures num_r(dec(n), 10, max) == (if n <= max { Some(n) } else { None }),
{ dec_reads(n); }
proof fn bit_digit(b: u8, k: int)
    requires k == 1 || k == 2 || k == 4 || k == 8 || k == 16 || k == 32 || k == 64 || k == 128,
    ensures digit(bit(b, k), 2) == Some((b as int / k) % 2),
{ }
proof fn bit_sum(b: u8)
    ensures (b as int / 128) % 2 * 128 + (b as int / 64) % 2 * 64 + (b as int / 32) % 2 * 32 + (b as int / 16) % 2 * 16 + (b as int / 8) % 2 * 8 + (b as int / 4) % 2 * 4 + (b as int / 2) % 2 * 2 + (b as int / 1) % 2 == b,
{ assert((b / 128) % 2 * 128 + (b / 64) % 2 * 64 + (b / 32) % 2 * 32 + (b / 16) % 2 * 16 + (b / 8) % 2 * 8 + (b / 4) % 2 * 4 + (b / 2) % 2 * 2 + (b / 1) % 2 == b) by (bit_vector); }
proof fn bits_read(s: Seq<u8>, b: u8)
    ensures digs(s + bits(b), 2) == (match digs(s, 2) { Some(v) => Some(v * 256 + b), None => None }),
{
    let c = bits(b);
    let s1 = s.push(c[0]); let s2 = s1.push(c[1]); let s3 = s2.push(c[2]); let s4 = s3.push(c[3]);
    let s5 = s4.push(c[4]); let s6 = s5.push(c[5]); let s7 = s6.push(c[6]); let s8 = s7.push(c[7]);
    digs_push(s, c[0], 2); digs_push(s1, c[1], 2); digs_push(s2, c[2], 2); digs_push(s3, c[3], 2);
    digs_push(s4, c[4], 2); digs_push(s5, c[5], 2); digs_push(s6, c[6], 2); digs_push(s7, c[7], 2);
    assert(s + bits(b) =~= s8);
    bit_digit(b, 128); bit_digit(b, 64); bit_digit(b, 32); bit_digit(b, 16); bit_digit(b, 8); bit_digit(b, 4); bit_digit(b, 2); bit_digit(b, 1);
    if digs(s, 2) is Some {
        let v = digs(s, 2)->0;
        let (d0, d1, d2, d3) = ((b as int / 128) % 2, (b as int / 64) % 2, (b as int / 32) % 2, (b as int / 16) % 2);
        let (d4, d5, d6, d7) = ((b as int / 8) % 2, (b as int / 4) % 2, (b as int / 2) % 2, (b as int / 1) % 2);
        let v1 = v * 2 + d0; let v2 = v1 * 2 + d1; let v3 = v2 * 2 + d2; let v4 = v3 * 2 + d3;
        let v5 = v4 * 2 + d4; let v6 = v5 * 2 + d5; let v7 = v6 * 2 + d6; let v8 = v7 * 2 + d7;
        assert(digs(s8, 2) == Some(v8));
        bit_sum(b);
        assert(v8 == v * 256 + (d0 * 128 + d1 * 64 + d2 * 32 + d3 * 16 + d4 * 8 + d5 * 4 + d6 * 2 + d7));
    }
}
proof fn hex_read(s: Seq<u8>, b: u8)
    ensures digs(s + hex2(b), 16) == (match digs(s, 16) { Some(v) => Some(v * 256 + b), None => None }),
{
    let c = hex2(b);
    let s1 = s.push(c[0]); let s2 = s1.push(c[1]);
    digs_push(s, c[0], 16); digs_push(s1, c[1], 16);
    assert(s + hex2(b) =~= s2);
    if digs(s, 16) is Some { let v = digs(s, 16)->0; assert((v * 16 + b as int / 16) * 16 + b as int % 16 == v * 256 + b); }
}
/// printed bytes in binary and hex read as their value
pub proof fn bits_val(s: Seq<u8>)
    ensures digs(all_bits(s), 2) == Some(val(s)), all_bits(s).len() == 8 * s.len(), forall|i: int| 0 <= i < all_bits(s).len() ==> plain(#[trigger] all_bits(s)[i]) && all_bits(s)[i] != 43,
    decreases s.len(),
{ if s.len() > 0 { bits_val(s.drop_last()); bits_read(all_bits(s.drop_last()), s.last()); } }
pub proof fn hex_val(s: Seq<u8>)
    ensures digs(all_hex(s), 16) == Some(val(s)), all_hex(s).len() == 2 * s.len(), forall|i: int| 0 <= i < all_hex(s).len() ==> plain(#[trigger] all_hex(s)[i]) && all_hex(s)[i] != 43,
    decreases s.len(),
{ if s.len() > 0 { hex_val(s.drop_last()); hex_read(all_hex(s.drop_last()), s.last()); } }
/// a byte that stands for itself in a text
pub open spec fn plain(c: u8) -> bool { (48 <= c && c <= 57) || (97 <= c && c <= 122) || (65 <= c && c <= 90) || c == 45 || c == 95 || c == 43 || c == 61 }
