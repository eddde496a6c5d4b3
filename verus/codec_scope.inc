// ---------------------------------------------------------------- THE ENCODERS ARE INVERSES OF THEIR READERS
/// a function of the tables with an encoder: its name, its reader and its encoder, as proved above
pub enum Fnc { B2, B16, B, Bs, A, U(nat) }
pub open spec fn u_id(n: nat) -> Seq<u8> { if n == 1 { id_u8() } else if n == 2 { id_u16() } else if n == 4 { id_u32() } else if n == 8 { id_u64() } else { id_u128() } }
pub open spec fn name(f: Fnc) -> Seq<u8> { match f { Fnc::B2 => id_b2(), Fnc::B16 => id_b16(), Fnc::B => id_b(), Fnc::Bs => id_bs(), Fnc::A => id_a(), Fnc::U(n) => u_id(n) } }
pub open spec fn known(f: Fnc) -> bool { match f { Fnc::U(n) => n == 1 || n == 2 || n == 4 || n == 8 || n == 16, _ => true } }
/// what the function gives for these arguments (none: refused)
pub open spec fn reads(f: Fnc, a: Seq<Seq<u8>>) -> Option<Seq<u8>> {
    match f {
        Fnc::A => if 1 <= a.len() <= 3 { rd_a(a) } else { None },
        _ => if a.len() != 1 { None } else { match f {
            Fnc::B2 => rd_bin(a[0], 2), Fnc::B16 => rd_bin(a[0], 16), Fnc::B => unb64(true, a[0]), Fnc::Bs => unb64(false, a[0]), Fnc::U(n) => rd_be(a[0], n), _ => None,
        } },
    }
}
pub open spec fn encs(f: Fnc, b: Seq<u8>, o: Seq<T>) -> Enc {
    match f { Fnc::B2 => sp_bin(b, o, 2), Fnc::B16 => sp_bin(b, o, 16), Fnc::B => sp_b(b, o), Fnc::Bs => Enc::Text(call_text(id_bs(), seq![b64(false, b)])), Fnc::A => sp_a(b), Fnc::U(n) => sp_u(u_id(n), b, n) }
}
/// the text is a call of f with arguments that f reads back as b
pub open spec fn inverse(f: Fnc, t: Seq<u8>, b: Seq<u8>) -> bool { exists|a: Seq<Seq<u8>>| #![trigger call_text(name(f), a)] 0 < a.len() < 16 && t == call_text(name(f), a) && reads(f, a) == Some(b) }
proof fn bin_reads(b: Seq<u8>, s: Seq<u8>, radix: int)
    requires 0 < b.len() <= 16, b.len() == 1 || b[0] != 0, digs(s, radix) == Some(val(b)), s.len() > 0, s[0] != 43,
    ensures rd_bin(s, radix) == Some(b),
{
    val_bound(b); p256_mono(b.len(), 16); p16();
    assert(num_r(s, radix, p256(16) - 1) == Some(val(b)));
    be_val(b); be_wide(val(b), b.len(), 16);
    if val(b) == 0 {
        if b.len() > 1 { val_zero(b, 0); }
        else { reveal_with_fuel(val, 2); assert(b.drop_last() =~= seq![]); assert(b =~= seq![0u8]); }
    } else {
        if b[0] == 0 { reveal_with_fuel(val, 2); assert(b.drop_last() =~= seq![]); assert(false); }
        strip_left(b, 0, 16);
        assert(be(val(b), 16) =~= left_padded(b, 0, 16));
        assert(cut_front(b, 0) =~= b);
    }
}
/// a value of zero has no other byte
proof fn val_zero(s: Seq<u8>, i: int)
    requires val(s) == 0, 0 <= i < s.len(),
    ensures s[i] == 0,
    decreases s.len(),
{ val_bound(s.drop_last()); if i < s.len() - 1 { val_zero(s.drop_last(), i); } }
proof fn bin_inv(f: Fnc, b: Seq<u8>, o: Seq<T>)
    requires f is B2 || f is B16,
    ensures encs(f, b, o) is Text ==> encs(f, b, o)->Text_0 == call_text(name(f), seq![if f is B2 { all_bits(b) } else { all_hex(b) }]) && rd_bin(if f is B2 { all_bits(b) } else { all_hex(b) }, if f is B2 { 2 } else { 16 }) == Some(b),
{
    bits_val(b); hex_val(b);
    if encs(f, b, o) is Text { if f is B2 { bin_reads(b, all_bits(b), 2); } else { bin_reads(b, all_hex(b), 16); } }
}
proof fn a_inv(b: Seq<u8>)
    requires b.len() <= usize::MAX,
    ensures ({ let c = cut_front(b, 0); if b.len() == 16 { rd_a(seq![c]) == Some(b) } else { rd_a(seq![c, dec(b.len() as int)]) == Some(b) } }),
{
    let c = cut_front(b, 0);
    front_run_bound(b, 0);
    assert(fill(0, b.len() - c.len()) + c =~= b);
    dec_num(b.len() as int, usize::MAX as int); dec_reads(b.len() as int);
    assert(num(dec(b.len() as int)) == Some(b.len() as usize));
}
proof fn u_inv(b: Seq<u8>, n: nat)
    requires b.len() == n,
    ensures rd_be(dec(val(b)), n) == Some(b),
{ val_bound(b); dec_num(val(b), p256(n) - 1); be_val(b); }
/// AN ENCODER'S TEXT CALLS ITS READER, WHICH GIVES THE BYTES BACK
#[verifier::spinoff_prover]
pub proof fn enc_inverse(f: Fnc, b: Seq<u8>, o: Seq<T>)
    requires known(f), b.len() <= usize::MAX,
    ensures encs(f, b, o) matches Enc::Text(t) ==> inverse(f, t, b),
{
    hide(sp_bin); hide(sp_b); hide(rd_bin); hide(rd_a); hide(rd_be); hide(call_text); hide(cut_front);
    if encs(f, b, o) is Text {
        let t = encs(f, b, o)->Text_0;
        let a = match f {
            Fnc::B2 => seq![all_bits(b)], Fnc::B16 => seq![all_hex(b)], Fnc::B => seq![b64(true, b)], Fnc::Bs => seq![b64(false, b)], Fnc::U(n) => seq![dec(val(b))],
            Fnc::A => if b.len() == 16 { seq![cut_front(b, 0)] } else { seq![cut_front(b, 0), dec(b.len() as int)] },
        };
        match f {
            Fnc::B2 => { bin_inv(f, b, o); }
            Fnc::B16 => { bin_inv(f, b, o); }
            Fnc::B => { b64_inverse(true, b); b_inv(b, o); }
            Fnc::Bs => { b64_inverse(false, b); }
            Fnc::U(n) => { u_inv(b, n); }
            Fnc::A => { a_inv(b); }
        }
        assert(t == call_text(name(f), a) && reads(f, a) == Some(b));
    }
}
proof fn b_inv(b: Seq<u8>, o: Seq<T>) ensures sp_b(b, o) is Text ==> sp_b(b, o)->Text_0 == call_text(id_b(), seq![b64(true, b)]) { }
/// the numbers printed by ?u and ?lu read back (leading or trailing zeros aside)
pub proof fn printed_numbers(b: Seq<u8>)
    requires b.len() <= 16,
    ensures rd_be(pr_be(b)->0, 16) == Some(left_padded(b, 0, 16)), rd_lu(pr_le(b)->0) == Some(cut_back(b, 0)),
{
    val_bound(b); p256_mono(b.len(), 16); dec_num(val(b), p256(16) - 1); be_val(b); be_wide(val(b), b.len(), 16);
    assert(be(val(b), 16) =~= left_padded(b, 0, 16));
    let r = rev(b);
    val_bound(r); dec_num(val(r), p256(16) - 1); be_val(r); be_wide(val(r), r.len(), 16);
    assert(rev(left_padded(r, 0, 16)) =~= right_padded(b, 16));
    assert(be(val(r), 16) =~= left_padded(r, 0, 16));
    strip_right(b, 16);
}
/// a scope that answers a function's name with what its reader gives evaluates the encoder's text to the bytes
pub open spec fn has_fn(f: Fnc) -> bool { forall|a: Seq<Seq<u8>>| #[trigger] reads(f, a) is Some && a.len() < 16 ==> answers(name(f), a, reads(f, a)->0) }
pub proof fn encoded_evaluates(f: Fnc, b: Seq<u8>, o: Seq<T>)
    requires known(f), has_fn(f), b.len() <= usize::MAX,
    ensures encs(f, b, o) matches Enc::Text(t) ==> evaluates(t, b),
{
    enc_inverse(f, b, o);
    if let Enc::Text(t) = encs(f, b, o) {
        let a = choose|a: Seq<Seq<u8>>| #![trigger call_text(name(f), a)] 0 < a.len() < 16 && t == call_text(name(f), a) && reads(f, a) == Some(b);
        call_evaluates(name(f), a, b);
    }
}
