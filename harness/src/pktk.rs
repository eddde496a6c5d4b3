//! C20, C21: point headers and routing headers; every header is explored by the verifier.
use crate::nd::*;
use linkspace_pkt::*;
const MAX: usize = 65536 - 512;

contracts! {
    full header, unwind 6, bias 0 {
        // every size and type
        let (res, k, n): (u8, u8, u16) = (any::<u8>() & (any::<bool>() as u8 * 255), [any(), 1, 3, 7, 128][upto(4)], any());
        let h = PointHeader { reserved: res, point_type: PointTypeFlags::from_bits_retain(k), uset_bytes: U16::new(n) };
        let min = match k { 1 | 128 => 4, 3 => 64, 7 => 160, _ => usize::MAX };
        ensures!(h.check().is_ok() == (res == 0 && (n as usize) >= min && n as usize <= MAX), "a point header is accepted exactly when its type is known and its size possible");
        if h.check().is_ok() { ensures!(h.size() as usize == 64 + (n as usize + 7) / 8 * 8, "the packet size"); }
        ensures!(*h.as_bytes() == [res, k, (n >> 8) as u8, n as u8], "the bytes of a point header");
    }
    full routing, unwind 34, bias 0 {
        let b: [u8; 32] = any();
        let h = NetPktHeader::cfrom(b);
        ensures!(h.cinto() == b && *h.as_bytes() == b, "a routing header is its bytes");
        let v: B64<[u8; 32]> = h.into();
        ensures!(v.0 == b && NetPktHeader::from(v) == h, "and as one value");
        let (pre, fl, hop, st, ub) = (h.prefix, h.flags, h.hop, h.stamp, h.ubits);
        let w = |s: usize| [b[s], b[s + 1], b[s + 2], b[s + 3]];
        ensures!(pre.0 == [b[0], b[1], b[2]] && fl.bits() == b[3] && hop.0 == w(4) && st.0[..4] == w(8) && st.0[4..] == w(12) && ub[0].0 == w(16) && ub[1].0 == w(20) && ub[2].0 == w(24) && ub[3].0 == w(28), "its fields are the documented layout");
        ensures!(*h.flags_u8() == b[3], "flags as a byte");
        let n = h.hop();
        let mut want = b;
        want[3] &= 0x7f;
        want[4..8].copy_from_slice(&u32::from_be_bytes(b[4..8].try_into().unwrap()).saturating_add(1).to_be_bytes());
        ensures!(n.cinto() == want, "a hop counts up, stops at the largest count, clears the bit that is always zero and changes nothing else");
        let (f, g): (u8, u8) = (any(), any());
        let mut want = b;
        want[3] = f;
        let w = h.with_flags(NetFlags::from_bits_retain(f));
        ensures!(w.cinto() == want, "setting the flags sets nothing else");
        let mut m = h;
        *m.mut_flags_u8() = f;
        ensures!(m.cinto() == want, "through a byte too");
        want[3] = b[3] & !f | g;
        let w = h.and_flags(NetFlags::from_bits_retain(f), NetFlags::from_bits_retain(g));
        ensures!(w.cinto() == want, "removing and inserting flags");
        let of = |o: NetOpts| NetPktHeader::from(o).cinto();
        let empty = NetPktHeader::EMPTY.cinto();
        ensures!(empty == [b'L', b'K', b'1', 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], "the empty header");
        let old = DEFAULT_ROUTING_BITS.get();
        DEFAULT_ROUTING_BITS.set(h);
        ensures!(of(().into()) == b && of(NetFlags::from_bits_retain(f).into()) == { let mut w = b; w[3] = f; w } && NetPktHeader::default().cinto() == b, "options start from the default header");
        DEFAULT_ROUTING_BITS.set(old);
        ensures!(of(h.into()) == b, "a given header is used as it is");
        ensures!(of(NetOpts::Stamp(h.stamp)) == { let mut w = empty; w[8..16].copy_from_slice(&b[8..16]); w }, "a given stamp is the only change to the empty header");
        for (f, range) in [(FieldEnum::VarNetFlagsF, 3..4), (FieldEnum::VarHopF, 4..8), (FieldEnum::VarStampF, 8..16), (FieldEnum::VarUBits0F, 16..20), (FieldEnum::VarUBits1F, 20..24), (FieldEnum::VarUBits2F, 24..28), (FieldEnum::VarUBits3F, 28..32)] {
            let mut m = h;
            let to: [u8; 32] = any();
            let mut want = b;
            want[range.clone()].copy_from_slice(&to[range.clone()]);
            let n = f.mut_route(&mut m).map(|s| s.copy_from_slice(&to[range.clone()]));
            ensures!(n.is_some() && m.cinto() == want, "a field named to be changed is the field changed");
        }
        let mut m = h;
        ensures!(FieldEnum::PktHashF.mut_route(&mut m).is_none() && FieldEnum::GroupIDF.mut_route(&mut m).is_none() && FieldEnum::DataSizeF.mut_route(&mut m).is_none(), "no other field can be changed");
    }
}
