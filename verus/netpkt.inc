// ---------------------------------------------------------------- anything that stands for a packet
/// ASSUMED: where the copies of raw memory go: bytes from here on; that a write stays within is to be proved
#[verifier::ext_equal] pub struct Dest { pub mem: Ghost<Seq<u8>>, pub at: Ghost<int> }
/// what was there, with s written at position i
pub open spec fn put(m: Seq<u8>, i: int, s: Seq<u8>) -> Seq<u8> { m.take(i) + s + m.skip(i + s.len()) }
#[verifier::external_body] pub fn copy_to(s: &[u8], n: usize, d: Dest) -> (r: Dest)
    requires n <= s@.len(), 0 <= d.at@, d.at@ + n <= d.mem@.len(),
    ensures r.at == d.at, r.mem@ == put(d.mem@, d.at@, s@.take(n as int)),
{ unimplemented!() }
impl Dest { #[verifier::external_body] pub fn add(self, n: usize) -> (r: Dest) requires self.at@ + n <= self.mem@.len() ensures r.mem == self.mem, r.at@ == self.at@ + n { unimplemented!() } }
impl<'a> ByteSegments<'a> {
    //@fn crates/pkt/src/byte_segments.rs write_segments_unchecked
    //@pre unsafe fn => fn ## what the pointer operations ask is to be proved
    //@pre const fn => fn ## constness
    //@pre mut dest: \*mut u8 => dest_: Dest ## raw memory
    //@pre -> \*mut u8 => -> Dest ## likewise
    //@pre let mut i = 0; => let mut dest = dest_; let mut i = 0; ## a mutable argument
    //@pre core::ptr::copy_nonoverlapping\(([^;]*)\.as_ptr\(\), dest, (\w+)\); => dest = copy_to(\1, \2, dest); ## a copy by pointer; that it is in range is to be proved
    //@ret r
    //@contract
        requires 0 <= dest_.at@, dest_.at@ + all(&self).len() <= dest_.mem@.len(),
        // writes the bytes it stands for, and nothing else
        ensures r.mem@ == put(dest_.mem@, dest_.at@, all(&self)), r.at@ == dest_.at@ + all(&self).len(),
    //@before while i
    let ghost m0 = dest.mem@; let ghost a0 = dest.at@;
    proof { cat8(self.0@); assert(put(m0, a0, Seq::<u8>::empty()) =~= m0); }
    //@loop 1
        invariant
            self.0@.len() == 8, i <= 8, 0 <= a0, a0 + upto(self.0@, 8).len() <= m0.len(), cat(self.0@) == upto(self.0@, 8),
            dest.at@ == a0 + upto(self.0@, i as int).len(), dest.mem@ == put(m0, a0, upto(self.0@, i as int)),
        decreases 8 - i,
    //@before let len =
    let ghost u = upto(self.0@, i as int); let ghost s = self.0@[i as int]@;
    proof { upto_mono(self.0@, i + 1, 8); assert(upto(self.0@, i + 1) == u + s); assert(s.take(s.len() as int) =~= s); assert(put(put(m0, a0, u), a0 + u.len(), s) =~= put(m0, a0, u + s)); if s.len() == 0 { assert(u + s =~= u); } }
    //@end
    //@fn crates/pkt/src/byte_segments.rs push_front
    //@pre let \[(\w+), (\w+), (\w+), (\w+), (\w+), (\w+), (\w+), (\w+)\] = self\.0; => let (\1, \2, \3, \4, \5, \6, \7, \8) = (self.0[0], self.0[1], self.0[2], self.0[3], self.0[4], self.0[5], self.0[6], self.0[7]); ## an array's elements
    //@pre debug_assert!\(\s*([^;]*?),\s*"[^;]*"\s*\); => { proof { assert(h@.len() == 0); } } ## to be proved
    //@ret r
    //@contract
        requires self.0@[7]@.len() == 0,
        ensures r.0@[0] == head, all(&r) == head@ + all(&self),
    //@before ByteSegments\(\[head
    proof { let z = self.0@; assert(z[7]@ =~= seq![]); assert(head@ + z[0]@ + z[1]@ + z[2]@ + z[3]@ + z[4]@ + z[5]@ + z[6]@ =~= head@ + (z[0]@ + z[1]@ + z[2]@ + z[3]@ + z[4]@ + z[5]@ + z[6]@ + z[7]@)); }
    //@end
}
pub proof fn upto_mono(s: Seq<&[u8]>, i: int, j: int)
    requires 0 <= i <= j,
    ensures upto(s, i).len() <= upto(s, j).len(),
    decreases j - i,
{ if i < j { upto_mono(s, i, j - 1); } }
/// ASSUMED: alloc gives memory of the size asked for (or ends the program)
#[verifier::external_body] pub fn alloc(l: Layout) -> (r: Dest) requires l.size > 0 ensures r.at@ == 0, r.mem@.len() == l.size { unimplemented!() }
/// the start of the n bytes there
pub fn bytes_at(d: Dest, n: usize) -> (r: Dest) requires d.at@ == 0, n <= d.mem@.len() ensures r == d { d }
/// ASSUMED: a box of a packet with n content bytes from memory asked for with its layout and written from start to end; that it is is to be proved
#[verifier::external_body] pub fn from_raw(d: Dest, l: Layout, n: usize) -> (r: NetPktBox)
    requires l.size == (68 + n + 3) / 4 * 4, l.align == 4, d.at@ == d.mem@.len(), d.mem@.len() == l.size, l.size == 68 + n,
    ensures fmem(&r) == d.mem@, hd(r.pkt.pkt_header) == d.mem@.subrange(64, 68),
{ unimplemented!() }
impl NetPktPtr {
    /// contracts proved in unit point
    #[verifier::external_body] pub fn as_netpkt_bytes(&self) -> (r: &[u8]) requires laid(&self.point) ensures r@ == nmem(self).take(full(self.point.0) + 64) { unimplemented!() }
    #[verifier::external_body] pub fn check(&self, skip_hash: bool) -> (r: Result<(), Error>) requires hdr_ok(self.point.0) ==> laid(&self.point) ensures r is Ok <==> accept(nmem(self), self.point.0, skip_hash) { unimplemented!() }
}
impl NetPktFatPtr {
    /// ASSUMED: the cast of a fat pointer to the thin one
    #[verifier::external_body] pub fn thin_netpkt(&self) -> (r: &NetPktPtr) ensures r.net_header == self._net_header, r.hash == self.hash, r.point.0 == self.pkt.pkt_header, mem(&r.point) == hd(self.pkt.pkt_header) + self.pkt.content@ { unimplemented!() }
}
/// what unwrap gives; that it does not panic is to be proved
pub fn un<T, E>(r: Result<T, E>) -> (v: T) requires r is Ok ensures r == Ok::<T, E>(v) { match r { Ok(v) => v, Err(_) => vstd::pervasive::unreached() } }
pub proof fn fat_thin(b: &NetPktFatPtr, t: &NetPktPtr)
    requires t.net_header == b._net_header, t.hash == b.hash, t.point.0 == b.pkt.pkt_header, mem(&t.point) == hd(b.pkt.pkt_header) + b.pkt.content@,
    ensures nmem(t) == fmem(b), mem(&t.point).take(4) == hd(b.pkt.pkt_header),
{ assert(nmem(t) =~= fmem(b)); assert(mem(&t.point).take(4) =~= hd(b.pkt.pkt_header)); }
/// a packet: its routing header, hash, point header, the bytes of its point, and that they may be read
pub struct Pk { pub nh: NetPktHeader, pub hs: LkHash, pub ph: PointHeader, pub pb: Seq<u8>, pub ok: bool }
pub open spec fn nb(t: Pk) -> Seq<u8> { t.nh.0@ + t.hs.0@ + t.pb }
/// one that is accepted
pub open spec fn whole(t: Pk) -> bool { t.ok && hdr_ok(t.ph) && t.pb.len() == full(t.ph) && t.pb.take(4) == hd(t.ph) && accept(nb(t), t.ph, false) }
pub trait NetPkt {
    spec fn pk(&self) -> Pk;
    /// when it was received, if it says
    spec fn at(&self) -> Option<Stamp>;
    fn recv(&self) -> (r: Option<Stamp>) ensures r == self.at();
    fn hash_ref(&self) -> (r: &LkHash) ensures *r == self.pk().hs;
    fn net_header_ref(&self) -> (r: &NetPktHeader) ensures *r == self.pk().nh;
    /// of the point
    fn point_header_ref(&self) -> (r: &PointHeader) ensures *r == self.pk().ph;
    fn pkt_segments(&self) -> (r: ByteSegments) requires whole(self.pk()) ensures all(&r) == self.pk().pb, r.0@[0]@.len() >= 4;
    fn byte_segments(&self) -> (r: ByteSegments)
        requires whole(self.pk()),
        ensures all(&r) == nb(self.pk()), r.0@[0]@.len() >= 32, r.0@[0]@.len() == 32 || r.0@[7]@.len() == 0;
    //@fn crates/pkt/src/netpkt/mod.rs as_netbox in pub trait NetPkt
    //@pre use std::alloc; =>  ## path
    //@pre \bunsafe \{ => { ## what the pointer operations ask is to be proved
    //@pre self\.as_point\(\)\.point_header_ref\(\) => self.point_header_ref() ## of the point
    //@pre let ptr: \*mut u8 = alloc::alloc\((\w+)\);\s*if ptr\.is_null\(\) \{\s*alloc::handle_alloc_error\(\1\);\s*\}\s*let ptr: \*mut NetPktFatPtr =\s*std::ptr::from_raw_parts_mut::<NetPktFatPtr>\(ptr\.cast\(\), (\w+)\); => let ptr = alloc(\1); let ghost fresh = ptr.mem@; let (l_, n_) = (\1, \2); ## allocation
    //@pre \{\s*let s = std::slice::from_raw_parts_mut\(ptr\.cast::<u8>\(\), ([^;]*)\);\s*(\w+)\.write_segments_unchecked\(s\.as_mut_ptr\(\)\);\s*\} => let ptr = \2.write_segments_unchecked(bytes_at(ptr, \1)); ## writing to it
    //@pre Box::from_raw\(ptr\) => { proof { assert(put(fresh, 0, nb(self.pk())) =~= nb(self.pk())); assert(nb(self.pk()).subrange(64, 68) =~= self.pk().pb.take(4)); } from_raw(ptr, l_, n_) } ## likewise
    //@pre cfg!\(debug_assertions\) => true ## the assertions are checked
    //@pre b\.thin_netpkt\(\)\.check\((\w+)\)\.unwrap\(\) => { let t_ = b.thin_netpkt(); proof { fat_thin(&b, t_); hd_same(b.pkt.pkt_header, self.pk().ph); } un(t_.check(\1)) } ## panics unless it is accepted, to be proved
    //@ret r
    //@contract
        requires whole(self.pk()),
        ensures fmem(&r) == nb(self.pk()), hd(r.pkt.pkt_header) == hd(self.pk().ph),
    //@end
    //@fn crates/pkt/src/netpkt/mod.rs hash in pub trait NetPktExt
    //@ret r
    //@contract
        ensures r == self.pk().hs,
    //@end
    //@fn crates/pkt/src/netpkt/mod.rs net_header in pub trait NetPktExt
    //@ret r
    //@contract
        ensures r == self.pk().nh,
    //@end
    //@fn crates/pkt/src/lib.rs point_header
    //@ret r
    //@contract
        ensures r == self.pk().ph,
    //@end
    //@fn crates/pkt/src/netpkt/mod.rs as_netarc in pub trait NetPkt
    //@pre \bunsafe \{ => { ## what the pointer operations ask is to be proved
    //@pre self\.as_point\(\)\.(point_header|pkt_segments)\(\) => self.\1() ## of the point
    //@pre PointThinPtr\( => thin( ## a header by itself
    //@pre h\.into\(\) => PartialNetHeader::of(h) ## conversion
    //@pre \|o: &mut \[u8\]\| \{\s*segments\.write_segments_unchecked\(o\.as_mut_ptr\(\)\);\s*\} => |o: Dest| -> (r_: Dest) requires o.at@ == 0, o.mem@.len() == all(&sg).len() ensures r_.at@ == o.mem@.len(), r_.mem@ == all(&sg) { let r_ = segments.write_segments_unchecked(o); proof { assert(put(o.mem@, 0, all(&sg)) =~= all(&sg)); } r_ } ## a slice to write to, as raw memory
    //@pre arc\.expect\("[^"]*"\) => un(arc) ## panics unless it is accepted, to be proved
    //@ret r
    //@contract
        requires whole(self.pk()),
        ensures nmem(&r.0) == nb(self.pk()), hd(r.0.point.0) == hd(self.pk().ph),
    //@before let arc =
    let ghost sg = segments;
    proof {
        let (x, y) = (s0.0@, sg.0@); let t = self.pk();
        assert(y[0]@ =~= x[0]@.skip(4));
        assert(hd(t.ph) + all(&sg) =~= t.pb);
        assert(t.nh.0@ + t.hs.0@ + (hd(t.ph) + all(&sg)) =~= nb(t));
        assert((hd(t.ph) + all(&sg)).take(4) =~= hd(t.ph));
    }
    //@after let mut segments = [^;]*;
    let ghost s0 = segments;
    //@end
}
// ---------------------------------------------------------------- a shared packet
/// an allocation of a packet behind its count, as the packet
pub struct NetPktArc(pub NetPktPtr);
//@need crates/pkt/src/netpkt/netpkt_arc.rs pub struct NetPktArc\(pub\(crate\) Arc<HeaderSlice<NetPktPtr, \[u8\]>>\);
/// a header by itself: nothing but it may be read there
pub fn thin(h: PointHeader) -> (r: PointThinPtr) ensures r.0 == h, mem(&r) == hd(h) { PointThinPtr(h, Ghost(hd(h))) }
pub fn copy_all(s: &[u8], d: Dest) -> (r: Dest) requires d.at@ == 0, d.mem@.len() == s@.len() ensures r.at@ == s@.len(), r.mem@ == s@
{ let r = copy_to(s, s.len(), d).add(s.len()); proof { assert(s@.take(s@.len() as int) =~= s@); assert(put(d.mem@, 0, s@) =~= s@); } r }
/// ASSUMED: triomphe::Arc::from_header_and_fn: the header, followed by n bytes that the function writes; that it writes all of them is to be proved
#[verifier::external_body] pub fn from_header_and_fn<F: FnOnce(Dest) -> Dest>(h: NetPktPtr, n: usize, f: F) -> (r: NetPktPtr)
    requires
        forall|d: Dest| d.at@ == 0 && d.mem@.len() == n ==> f.requires((d,)),
        forall|d: Dest, o: Dest| d.at@ == 0 && d.mem@.len() == n && f.ensures((d,), o) ==> o.at@ == n && o.mem@.len() == n,
    ensures
        r.net_header == h.net_header, r.hash == h.hash, r.point.0 == h.point.0,
        exists|d: Dest, o: Dest| d.at@ == 0 && d.mem@.len() == n && f.ensures((d,), o) && mem(&r.point) == hd(h.point.0) + o.mem@,
{ unimplemented!() }
impl PartialNetHeader {
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs from in impl From<NetPktPtr> for PartialNetHeader
    //@pre fn from => fn of ## name
    //@ret r
    //@contract
        ensures r.net_header == val.net_header, r.hash == val.hash, r.point_header == val.point.0,
    //@end
}
impl NetPktArc {
    //@fn crates/pkt/src/netpkt/netpkt_arc.rs from_header_and_copy
    //@pre unsafe fn => fn ## what the pointer operations ask is to be proved
    //@pre impl FnOnce\(&mut \[u8\]\) => impl FnOnce(Dest) -> Dest ## a slice to write to, as raw memory
    //@pre crate::NetPktPtr \{ => NetPktPtr { ## path
    //@pre crate::PointThinPtr\( => thin( ## a header by itself
    //@pre triomphe::Arc::from_header_and_fn\( => from_header_and_fn( ## path
    //@pre byte_size: usize = (.*?)\.into\(\); => byte_size: usize = usize::from(\1); ## conversion
    //@pre pkt\.check\( => pkt.0.check( ## by Deref
    //@ret r
    //@contract
        requires
            hdr_ok(partial.point_header),
            forall|d: Dest| d.at@ == 0 && d.mem@.len() == full(partial.point_header) - 4 ==> copy_from.requires((d,)),
            forall|d: Dest, o: Dest| d.at@ == 0 && d.mem@.len() == full(partial.point_header) - 4 && copy_from.ensures((d,), o) ==> o.at@ == full(partial.point_header) - 4 && o.mem@.len() == full(partial.point_header) - 4,
        ensures
            exists|d: Dest, o: Dest| d.at@ == 0 && d.mem@.len() == full(partial.point_header) - 4 && copy_from.ensures((d,), o) && ({
                let b = partial.net_header.0@ + partial.hash.0@ + (hd(partial.point_header) + o.mem@);
                (r is Ok <==> accept(b, partial.point_header, skip_hash)) && (r matches Ok(a) ==> nmem(&a.0) == b && a.0.point.0 == partial.point_header) }),
    //@after let pkt = [^;]*;
    proof { let h = pkt.0.point.0; assert(mem(&pkt.0.point).take(4) =~= hd(h)); }
    //@end
}

impl PointThinPtr {
    //@fn crates/pkt/src/point_ptr.rs point_header_ref in impl Point for PointThinPtr
    //@ret r
    //@contract
        ensures *r == self.0,
    //@end
    /// contract proved in unit point
    #[verifier::external_body] pub fn pkt_segments(&self) -> (r: ByteSegments) requires laid(self) ensures all(&r) == mem(self).take(full(self.0)), r.0@[0]@.len() >= 4 { unimplemented!() }
}
pub open spec fn pk_ptr(p: &NetPktPtr) -> Pk { Pk { nh: p.net_header, hs: p.hash, ph: p.point.0, pb: mem(&p.point).take(full(p.point.0)), ok: laid(&p.point) } }
impl NetPkt for NetPktPtr {
    open spec fn at(&self) -> Option<Stamp> { None }
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs recv in impl NetPkt for NetPktPtr \{
    //@pre? crate::Stamp => Stamp ## path
    //@end
    open spec fn pk(&self) -> Pk { pk_ptr(self) }
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs hash_ref in impl NetPkt for NetPktPtr
    //@end
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs net_header_ref in impl NetPkt for NetPktPtr
    //@end
    //@need crates/pkt/src/netpkt/netpkt_ptr.rs fn as_point\(&self\) -> &dyn Point \{\s*&self\.point\s*\}
    fn point_header_ref(&self) -> &PointHeader { self.point.point_header_ref() }
    fn pkt_segments(&self) -> ByteSegments { self.point.pkt_segments() }
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs byte_segments in impl NetPkt for NetPktPtr
    //@ret r
    //@before ByteSegments::from_array
    proof { let h = self.point.0; assert(nmem(self).take(full(h) + 64) =~= nb(self.pk())); }
    //@end
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs as_netarc in impl NetPkt for NetPktPtr
    //@pre \bunsafe \{ => { ## what the pointer operations ask is to be proved
    //@pre PointThinPtr\( => thin( ## a header by itself
    //@pre size_of::<NetPktPtr>\(\) => 68 ## its header, hash and point header
    //@pre header\.into\(\) => PartialNetHeader::of(header) ## conversion
    //@pre \|d: &mut \[u8\]\| \{\s*d\.copy_from_slice\(bytes\)\s*\} => |d: Dest| -> (r_: Dest) requires d.at@ == 0, d.mem@.len() == bytes@.len() ensures r_.at@ == d.mem@.len(), r_.mem@ == bytes@ { copy_all(bytes, d) } ## a slice to write to, as raw memory
    //@pre (NetPktArc::from_header_and_copy\([^;]*?\))\s*\.unwrap\(\) => { let r_ = \1; un(r_) } ## panics unless it is accepted, to be proved
    //@ret r
    //@before \{\s*(let r_|NetPktArc::from)
    proof {
        let t = self.pk();
        assert(bytes@ =~= t.pb.skip(4)); assert(hd(t.ph) + bytes@ =~= t.pb);
        assert(t.nh.0@ + t.hs.0@ + (hd(t.ph) + bytes@) =~= nb(t));
        assert(nmem(self).take(full(t.ph) + 64) =~= nb(t));
    }
    //@end
}
impl NetPkt for NetPktFatPtr {
    open spec fn at(&self) -> Option<Stamp> { None }
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs recv in impl NetPkt for NetPktFatPtr \{
    //@pre? crate::Stamp => Stamp ## path
    //@end
    open spec fn pk(&self) -> Pk { Pk { nh: self._net_header, hs: self.hash, ph: self.pkt.pkt_header, pb: (hd(self.pkt.pkt_header) + self.pkt.content@).take(full(self.pkt.pkt_header)), ok: hdr_ok(self.pkt.pkt_header) && self.pkt.content@.len() + 4 >= full(self.pkt.pkt_header) } }
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs hash_ref in impl NetPkt for NetPktFatPtr
    //@end
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs net_header_ref in impl NetPkt for NetPktFatPtr
    //@end
    //@need crates/pkt/src/netpkt/netpkt_ptr.rs fn as_point\(&self\) -> &dyn Point \{\s*self\.thin_netpkt\(\)\.as_point\(\)\s*\}
    fn point_header_ref(&self) -> &PointHeader { self.thin_netpkt().point_header_ref() }
    fn pkt_segments(&self) -> ByteSegments { let t = self.thin_netpkt(); proof { fat_thin(self, t); } t.pkt_segments() }
    //@fn crates/pkt/src/netpkt/netpkt_ptr.rs byte_segments in impl NetPkt for NetPktFatPtr
    //@pre self\.thin_netpkt\(\)\.(\w+)\(\) => { let t_ = self.thin_netpkt(); proof { fat_thin(self, t_); } t_.\1() } ## ghost
    //@ret r
    //@end
}
impl NetPkt for NetPktArc {
    open spec fn at(&self) -> Option<Stamp> { None }
    //@fn crates/pkt/src/netpkt/netpkt_arc.rs recv in impl NetPkt for NetPktArc \{
    //@pre? crate::Stamp => Stamp ## path
    //@end
    open spec fn pk(&self) -> Pk { pk_ptr(&self.0) }
    //@fn crates/pkt/src/netpkt/netpkt_arc.rs hash_ref in impl NetPkt for NetPktArc \{
    //@pre self\.thin_arc\(\) => self.0 ## the packet shared
    //@end
    //@fn crates/pkt/src/netpkt/netpkt_arc.rs net_header_ref in impl NetPkt for NetPktArc \{
    //@pre self\.thin_arc\(\) => self.0 ## the packet shared
    //@end
    fn point_header_ref(&self) -> &PointHeader { self.0.point_header_ref() }
    fn pkt_segments(&self) -> ByteSegments { self.0.pkt_segments() }
    //@fn crates/pkt/src/netpkt/netpkt_arc.rs byte_segments in impl NetPkt for NetPktArc \{
    //@pre self\.thin_arc\(\) => self.0 ## the packet shared
    //@ret r
    //@end
    //@fn crates/pkt/src/netpkt/netpkt_arc.rs as_netbox in impl NetPkt for NetPktArc \{
    //@pre self\.thin_arc\(\)\.0 => self.0 ## the packet shared
    //@pre crate:: =>  ## path
    //@ret r
    //@end
}

/// a copy is the same packet: what can be said of the one can be said of the other
pub proof fn copy_box(t: Pk, b: NetPktBox)
    requires whole(t), fmem(&b) == nb(t), hd(b.pkt.pkt_header) == hd(t.ph),
    ensures whole(b.pk()), nb(b.pk()) == nb(t), b.pk().pb == t.pb, b.hash.0@ == t.hs.0@, b._net_header.0@ == t.nh.0@,
{
    hd_same(b.pkt.pkt_header, t.ph); let f = fmem(&b); let m = hd(b.pkt.pkt_header) + b.pkt.content@;
    assert(f.skip(64) =~= m); assert(nb(t).skip(64) =~= t.pb); assert(m.take(full(t.ph)) =~= m);
    assert(f.subrange(32, 64) =~= b.hash.0@); assert(nb(t).subrange(32, 64) =~= t.hs.0@);
    assert(f.take(32) =~= b._net_header.0@); assert(nb(t).take(32) =~= t.nh.0@);
}
pub proof fn copy_arc(t: Pk, a: NetPktArc)
    requires whole(t), nmem(&a.0) == nb(t), hd(a.0.point.0) == hd(t.ph),
    ensures whole(a.pk()), nb(a.pk()) == nb(t), a.pk().pb == t.pb, a.0.hash.0@ == t.hs.0@, a.0.net_header.0@ == t.nh.0@,
{
    hd_same(a.0.point.0, t.ph); let f = nmem(&a.0); let m = mem(&a.0.point);
    assert(f.skip(64) =~= m); assert(nb(t).skip(64) =~= t.pb); assert(m.take(full(t.ph)) =~= m);
    assert(f.subrange(32, 64) =~= a.0.hash.0@); assert(nb(t).subrange(32, 64) =~= t.hs.0@);
    assert(f.take(32) =~= a.0.net_header.0@); assert(nb(t).take(32) =~= t.nh.0@);
    assert(m.take(4) =~= hd(a.0.point.0)) by { assert(t.pb.take(4) == hd(t.ph)); }
}
