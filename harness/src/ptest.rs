//! C26: the tests made from one field's rules, for every predicate that accepts something and every value of the field.
use crate::nd::*;
use linkspace_core::predicate::test_pkt::{compile_stest, PktStreamTest};
use linkspace_core::predicate::{Bound, Mask, TestSet, UInt};
use linkspace_pkt::*;

/// a keypoint without links, space and data, every other byte free
#[repr(C, align(16))]
struct Buf([u8; 224]);
fn packet() -> Buf {
    let mut b = Buf(any());
    b.0[64..72].copy_from_slice(&[0, 7, 0, 160, 0, 64, 0, 64]);
    b
}
/// the packet at these bytes (the layout is that of `NetPktPtr`; its header is one `PointHeader::check` accepts)
fn at(b: &Buf) -> &NetPktPtr { unsafe { &*(b.0.as_ptr() as *const NetPktPtr) } }
macro_rules! num { ($t:ty, $b:expr, $s:literal, $n:literal) => {{ let mut v: $t = 0; let mut i = 0; while i < $n { v = v << 7 << 1 | $b.0[$s + i] as $t; i += 1 } v }} }
macro_rules! compile { ($t:ty, $n:literal, [$($f:ident at $s:literal),*]) => {{
    let b = packet();
    let s = TestSet::<$t> { bound: Bound { low: any(), high: any() }, mask: Mask { ones: any(), zeros: any() } };
    requires!(s.mask.ones & !s.mask.zeros == 0 && s.has_any()); // what `try_add` leaves
    let p = at(&b);
    $({
        let v = num!($t, b, $s, $n);
        let want = s.bound.low <= v && v <= s.bound.high && v & !s.mask.zeros == 0 && !v & s.mask.ones == 0;
        match compile_stest::<$f, $t>(&s) {
            None => { ensures!(want, "no test only when every value is accepted"); }
            Some(t) => { ensures!(t.test(p) == want, "the test of a field accepts a packet exactly when the field's rules do"); std::mem::forget(t); }
        }
        cover!(want && s.mask.ones > 0 && s.bound.low > 0, "accepted");
        cover!(!want, "refused");
    })*
}} }
contracts! {
    full compile8, unwind 6, bias 0 { compile!(u8, 1, [VarNetFlagsF at 3, PktTypeF at 65]) }
    full compile32, unwind 6, bias 0 { compile!(u32, 4, [VarHopF at 4, VarUBits2F at 24]) }
    full compile64, unwind 9, bias 0 { compile!(u64, 8, [VarStampF at 8, CreateF at 72]) }
    full compile128, unwind 17, bias 0 { compile!(u128, 16, [DomainF at 112]) }
    // each field a packet test reads is the documented place in the packet
    full places, unwind 33, bias 0 {
        let b = packet();
        let p = at(&b);
        ensures!(VarNetFlagsF::get_val(p) == num!(u8, b, 3, 1) && VarHopF::get_val(p) == num!(u32, b, 4, 4), "flags and hop count");
        let (st, cr): (u64, u64) = (VarStampF::get_val(p), CreateF::get_val(p));
        ensures!(st == num!(u64, b, 8, 8) && cr == num!(u64, b, 72, 8), "stamps");
        let u: [u32; 4] = [VarUBits0F::get_val(p), VarUBits1F::get_val(p), VarUBits2F::get_val(p), VarUBits3F::get_val(p)];
        ensures!(u[0] == num!(u32, b, 16, 4) && u[1] == num!(u32, b, 20, 4) && u[2] == num!(u32, b, 24, 4) && u[3] == num!(u32, b, 28, 4), "user bits");
        let d: u128 = DomainF::get_val(p);
        ensures!(d == num!(u128, b, 112, 16), "domain");
        let k: u8 = PktTypeF::get_val(p);
        let e: u8 = DepthF::get_val(p);
        ensures!(k == 7 && e == 0 && SizeF::get_val(p) == 224 && DataSizeF::get_val(p) == 0 && LinksLenF::get_val(p) == 0, "type, depth, size, data size, links");
        let (h, g, key): (U256, U256, U256) = (PktHashF::get_val(p), GroupIDF::get_val(p), PubKeyF::get_val(p));
        let i = upto(31);
        ensures!(h.to_be_bytes::<32>()[i] == b.0[32 + i] && g.to_be_bytes::<32>()[i] == b.0[80 + i] && key.to_be_bytes::<32>()[i] == b.0[128 + i], "hash, group, key");
    }
}
