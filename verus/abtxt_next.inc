//@fn crates/abe/src/abtxt.rs hex_byte
//@ret r
//@contract
    ensures
        r is Err ==> r->Err_0 is InvalidHex,
        r is Ok <==> s@.len() >= 2 && hexval(s@[0]) is Some && hexval(s@[1]) is Some,
        r is Ok ==> r->Ok_0 == (hexval(s@[0])->0 * 16 + hexval(s@[1])->0) as u8,
//@end

//@fn crates/abe/src/abtxt.rs next_byte
//@ret r
//@contract
    ensures
        match tok(ascii_bytes@, plain_cset, err_cset) {
            Tok::End => r matches Ok(Byte::Finished),
            Tok::Err => if bad_hex(ascii_bytes@) { r matches Err(ABTxtError::InvalidHex) } else { r matches Err(ABTxtError::ParseError { byte, .. }) && byte == ascii_bytes@[0] },
            Tok::Ctr(c) => r matches Ok(Byte::Ctr { kind, rest }) && kind_char(kind) == c && rest@ == ascii_bytes@.skip(1),
            Tok::Byte(b, k) => 0 < k <= ascii_bytes@.len() && (r matches Ok(Byte::Byte { byte, rest }) && byte == b && rest@ == ascii_bytes@.skip(k)),
        },
//@end

