// ---------------------------------------------------------------- specification (written from the format, not the code)
pub open spec fn lo(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
/// the printed form of one byte
pub open spec fn esc(b: u8) -> Seq<u8> {
    if b == 0 { seq![92u8, 48u8] }
    else if b == 255 { seq![92u8, 102u8] }
    else if b == 10 { seq![92u8, 110u8] }
    else if b == 9 { seq![92u8, 116u8] }
    else if b == 13 { seq![92u8, 114u8] }
    else if b == 58 || b == 92 || b == 47 || b == 91 || b == 93 { seq![92u8, b] }
    else if 0x20 <= b && b <= 0x7e { seq![b] }
    else { seq![92u8, 120u8, lo(b as int / 16), lo(b as int % 16)] }
}
/// the printed form of a byte string
pub open spec fn print(v: Seq<u8>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { seq![] } else { print(v.drop_last()) + esc(v.last()) }
}
pub open spec fn hexval(c: u8) -> Option<int> {
    if 48 <= c && c <= 57 { Some(c as int - 48) } else if 97 <= c && c <= 102 { Some(c as int - 87) } else if 65 <= c && c <= 70 { Some(c as int - 55) } else { None }
}
pub open spec fn ctr_bit(c: u8) -> u32 {
    if c == 47 { 1 } else if c == 58 { 2 } else if c == 10 { 4 } else if c == 91 { 16 } else if c == 93 { 32 } else { 0 }
}
pub enum Tok { End, Err, Ctr(u8), Byte(u8, int) }
/// what the head of a text denotes
pub open spec fn tok(s: Seq<u8>, plain: u32, err: u32) -> Tok {
    if s.len() == 0 { Tok::End }
    else if s[0] == 92 {
        if s.len() < 2 { Tok::Err }
        else if s[1] == 120 {
            if s.len() < 4 { Tok::Err } else { match (hexval(s[2]), hexval(s[3])) { (Some(a), Some(b)) => Tok::Byte((a * 16 + b) as u8, 4), _ => Tok::Err } }
        }
        else if s[1] == 110 { Tok::Byte(10, 2) } else if s[1] == 114 { Tok::Byte(13, 2) } else if s[1] == 116 { Tok::Byte(9, 2) }
        else if s[1] == 48 { Tok::Byte(0, 2) } else if s[1] == 102 { Tok::Byte(255, 2) }
        else if s[1] == 91 || s[1] == 93 || s[1] == 58 || s[1] == 47 || s[1] == 92 { Tok::Byte(s[1], 2) }
        else { Tok::Err }
    }
    else if ctr_bit(s[0]) != 0 {
        if err & ctr_bit(s[0]) != 0 { Tok::Err } else if plain & ctr_bit(s[0]) != 0 { Tok::Byte(s[0], 1) } else { Tok::Ctr(s[0]) }
    }
    else if 0x20 <= s[0] && s[0] <= 0x7e { Tok::Byte(s[0], 1) }
    else { Tok::Err }
}
/// a text that begins with \x but not with a byte in hex
pub open spec fn bad_hex(s: Seq<u8>) -> bool { s.len() >= 2 && s[0] == 92 && s[1] == 120 }
/// the bytes a whole text denotes
pub open spec fn parse(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    match tok(s, 0, 4) {
        Tok::End => Some(seq![]),
        Tok::Byte(b, k) => if 0 < k <= s.len() { match parse(s.skip(k)) { Some(t) => Some(seq![b] + t), None => None } } else { None },
        _ => None,
    }
}

// ---------------------------------------------------------------- lemmas over the specification
proof fn tok_of_esc(b: u8, t: Seq<u8>)
    ensures tok(esc(b) + t, 0, 4) == Tok::Byte(b, esc(b).len() as int),
            (esc(b) + t).skip(esc(b).len() as int) =~= t,
            1 <= esc(b).len() <= 4,
{
    let s = esc(b) + t;
    assert(0u32 & 1u32 == 0 && 0u32 & 2u32 == 0 && 0u32 & 4u32 == 0 && 0u32 & 16u32 == 0 && 0u32 & 32u32 == 0) by (bit_vector);
    assert(4u32 & 1u32 == 0 && 4u32 & 2u32 == 0 && 4u32 & 4u32 == 4 && 4u32 & 16u32 == 0 && 4u32 & 32u32 == 0) by (bit_vector);
    if esc(b).len() == 4 {
        assert(s[2] == lo(b as int / 16) && s[3] == lo(b as int % 16));
        assert(hexval(lo(b as int / 16)) == Some(b as int / 16));
        assert(hexval(lo(b as int % 16)) == Some(b as int % 16));
        assert((b as int / 16) * 16 + b as int % 16 == b as int);
    }
}
proof fn print_cons(v: Seq<u8>)
    requires v.len() > 0,
    ensures print(v) =~= esc(v[0]) + print(v.skip(1)),
    decreases v.len(),
{
    if v.len() == 1 {
        assert(v.drop_last() =~= seq![]);
        assert(v.skip(1) =~= seq![]);
        assert(print(v.drop_last()) =~= seq![]);
        assert(print(v.skip(1)) =~= seq![]);
    } else {
        print_cons(v.drop_last());
        assert(v.drop_last().skip(1) =~= v.skip(1).drop_last());
        assert(v.skip(1).last() == v.last());
    }
}
/// THE ROUND TRIP: parsing the printed form of any byte string, of any length, gives that byte string back
pub proof fn round_trip(v: Seq<u8>)
    ensures parse(print(v)) == Some(v),
    decreases v.len(),
{
    if v.len() == 0 {
    } else {
        print_cons(v);
        tok_of_esc(v[0], print(v.skip(1)));
        round_trip(v.skip(1));
        assert(seq![v[0]] + v.skip(1) =~= v);
    }
}
/// printed text is printable ascii, and holds no unescaped separator, bracket or newline
pub proof fn print_printable(v: Seq<u8>)
    ensures forall|i: int| 0 <= i < print(v).len() ==> 0x20 <= #[trigger] print(v)[i] <= 0x7e,
    decreases v.len(),
{
    if v.len() > 0 {
        print_printable(v.drop_last());
        assert forall|i: int| 0 <= i < print(v).len() implies 0x20 <= #[trigger] print(v)[i] <= 0x7e by {
            let n = print(v.drop_last()).len();
            if i < n { assert(print(v)[i] == print(v.drop_last())[i]); } else { assert(print(v)[i] == esc(v.last())[i - n]); }
        }
    }
}

