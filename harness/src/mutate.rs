//! C21: mutations of routing headers.
use crate::nd::*;
use linkspace_core::mut_header::NetHeaderMutate;
use linkspace_core::predicate::exprs::Predicate;
use linkspace_core::predicate::TestOp;
use linkspace_pkt::*;

const FIELDS: [(FieldEnum, usize, usize); 7] = [(FieldEnum::VarNetFlagsF, 3, 4), (FieldEnum::VarHopF, 4, 8), (FieldEnum::VarStampF, 8, 16), (FieldEnum::VarUBits0F, 16, 20), (FieldEnum::VarUBits1F, 20, 24), (FieldEnum::VarUBits2F, 24, 28), (FieldEnum::VarUBits3F, 28, 32)];

#[cfg(kani)] fn no_trace() -> std::backtrace::Backtrace { std::backtrace::Backtrace::disabled() }
#[cfg(kani)] fn no_text(_: std::fmt::Arguments<'_>) -> String { String::new() }
#[cfg(kani)] fn no_write(_: &mut dyn std::fmt::Write, _: std::fmt::Arguments<'_>) -> std::fmt::Result { Err(std::fmt::Error) }

macro_rules! rule { ($k:literal, $n:literal) => {{
    let (clear, set): ([u8; 32], [u8; 32]) = (any(), any());
    let mut m = NetHeaderMutate { clear: NetPktHeader::cfrom(clear), set: NetPktHeader::cfrom(set) };
    let (f, s, e) = FIELDS[$k];
    let v: [u8; $n] = any();
    let r = m.try_add_rule(Predicate::from_slice(f, TestOp::Equal, &v));
    let ok = r.is_ok();
    std::mem::forget(r);
    ensures!(ok, "a routing field can be given a value");
    let i = upto(31);
    let (c, t) = (m.clear.cinto()[i], m.set.cinto()[i]);
    if s <= i && i < e { ensures!(c == 0 && t == v[i - s], "a field given a value has that value"); } else { ensures!(c == clear[i] && t == set[i], "and no other field changes"); }
}} }

contracts! {
    full apply, unwind 34, bias 0 {
        let (clear, set, b): ([u8; 32], [u8; 32], [u8; 32]) = (any(), any(), any());
        let m = NetHeaderMutate { clear: NetPktHeader::cfrom(clear), set: NetPktHeader::cfrom(set) };
        let mut h = NetPktHeader::cfrom(b);
        m.mutate(&mut h);
        let i = upto(31);
        ensures!(h.cinto()[i] == b[i] & clear[i] | set[i], "a mutation clears and sets the bits it says and no other");
        ensures!(NetHeaderMutate::DEFAULT.clear.cinto()[i] == 255 && NetHeaderMutate::DEFAULT.set.cinto()[i] == 0, "no rule changes nothing");
    }
    // one more rule on any mutation: by induction over the rules, the last value given to a field is the one set
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::stub(core::fmt::write, no_write)]
    full rule_flags, unwind 34, bias 0 { rule!(0, 1) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::stub(core::fmt::write, no_write)]
    full rule_hop, unwind 34, bias 0 { rule!(1, 4) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::stub(core::fmt::write, no_write)]
    full rule_stamp, unwind 34, bias 0 { rule!(2, 8) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::stub(core::fmt::write, no_write)]
    full rule_ubits0, unwind 34, bias 0 { rule!(3, 4) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::stub(core::fmt::write, no_write)]
    full rule_ubits1, unwind 34, bias 0 { rule!(4, 4) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::stub(core::fmt::write, no_write)]
    full rule_ubits2, unwind 34, bias 0 { rule!(5, 4) }
    #[kani::stub(std::backtrace::Backtrace::capture, no_trace)]
    #[kani::stub(alloc::fmt::format, no_text)]
    #[kani::stub(core::fmt::write, no_write)]
    full rule_ubits3, unwind 34, bias 0 { rule!(6, 4) }
    native mutation, unwind 1, bias 0 {
        let mut m = NetHeaderMutate::DEFAULT;
        let b: [u8; 32] = any();
        let mut want = b;
        for _ in 0..upto(4) {
            let (f, s, e) = FIELDS[upto(6)];
            let v: [u8; 16] = any();
            let v = &v[..e - s];
            match upto(5) {
                0 => {
                    let other = [FieldEnum::PktHashF, FieldEnum::GroupIDF, FieldEnum::DomainF, FieldEnum::DataSizeF, FieldEnum::PubKeyF, FieldEnum::CreateF][upto(5)];
                    ensures!(m.try_add_rule(Predicate::from_slice(other, TestOp::Equal, v)).is_err(), "only routing fields can be changed");
                }
                1 => { ensures!(m.try_add_rule(Predicate::from_slice(f, [TestOp::Less, TestOp::Greater][upto(1)], v)).is_err(), "a routing field is only changed by giving it a value"); }
                2 => { let w = [v, &[0]].concat(); ensures!(m.try_add_rule(Predicate::from_slice(f, TestOp::Equal, &w)).is_err(), "of its own size"); }
                _ => {
                    ensures!(m.try_add_rule(Predicate::from_slice(f, TestOp::Equal, v)).is_ok(), "a routing field can be given a value");
                    want[s..e].copy_from_slice(v);
                }
            }
        }
        // wherever the header lies
        #[repr(C, packed)]
        struct At { pad: u8, h: NetPktHeader }
        let mut at = [At { pad: 0, h: NetPktHeader::cfrom(b) }, At { pad: 0, h: NetPktHeader::cfrom(b) }];
        for a in at.iter_mut() {
            m.mutate(unsafe { &mut *std::ptr::addr_of_mut!(a.h) });
            let h = a.h;
            ensures!(h.cinto() == want, "a mutation sets the fields it names to their values and no other bit");
        }
        cover!(b != want, "a change");
    }
}
