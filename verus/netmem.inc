// ---------------------------------------------------------------- a point in memory
/// a point's header, and the bytes that may be read from where it stands
pub struct PointThinPtr(pub PointHeader, pub Ghost<Seq<u8>>);
//@need crates/pkt/src/point_ptr.rs #\[repr\(C\)\]\s*pub struct PointThinPtr\(pub\(crate\) PointHeader\);
pub open spec fn mem(p: &PointThinPtr) -> Seq<u8> { p.1@ }
/// the header is the first of those bytes, and there are as many as it says
pub open spec fn laid(p: &PointThinPtr) -> bool { hdr_ok(p.0) && mem(p).len() >= full(p.0) && mem(p).take(4) == hd(p.0) }
pub open spec fn good(p: &PointThinPtr) -> bool { laid(p) && valid(mem(p), p.0) }
// ---------------------------------------------------------------- a packet in memory: routing header, hash, point
pub struct NetPktPtr { pub net_header: NetPktHeader, pub hash: LkHash, pub point: PointThinPtr }
//@need crates/pkt/src/netpkt/netpkt_ptr.rs #\[repr\(C, align\(4\)\)\]\s*pub struct NetPktPtr \{\s*pub net_header: NetPktHeader,\s*pub\(crate\) hash: LkHash,\s*pub\(crate\) point: PointThinPtr,\s*\}
pub struct PointPtr { pub pkt_header: PointHeader, pub content: Ghost<Seq<u8>> }
//@need crates/pkt/src/point_ptr.rs #\[repr\(C, align\(4\)\)\]\s*pub struct PointPtr \{\s*pub\(crate\) pkt_header: PointHeader,\s*content: \[u8\],\s*\}
pub struct NetPktFatPtr { pub _net_header: NetPktHeader, pub hash: LkHash, pub pkt: PointPtr }
//@need crates/pkt/src/netpkt/netpkt_ptr.rs #\[repr\(C, align\(4\)\)\]\s*pub struct NetPktFatPtr \{\s*pub _net_header: NetPktHeader,\s*pub\(crate\) hash: LkHash,\s*pub pkt: PointPtr,\s*\}
/// a box of one, as the one itself
pub type NetPktBox = NetPktFatPtr;
/// the bytes that may be read from where a packet stands
pub open spec fn nmem(p: &NetPktPtr) -> Seq<u8> { p.net_header.0@ + p.hash.0@ + mem(&p.point) }
pub open spec fn fmem(p: &NetPktFatPtr) -> Seq<u8> { p._net_header.0@ + p.hash.0@ + hd(p.pkt.pkt_header) + p.pkt.content@ }
/// std's Layout, by its documentation
#[derive(Copy, Clone)] pub struct Layout { pub size: usize, pub align: usize }
impl Layout {
    #[verifier::external_body] pub fn new<T>() -> (r: Layout) ensures r.size == vstd::layout::size_of::<T>(), r.align == vstd::layout::align_of::<T>() { unimplemented!() }
    pub fn array_u8(n: usize) -> (r: Result<Layout, ()>) ensures n <= 0x7fff_ffff_ffff_ffff ==> r == Ok::<Layout, ()>(Layout { size: n, align: 1 }) { if n <= 0x7fff_ffff_ffff_ffff { Ok(Layout { size: n, align: 1 }) } else { Err(()) } }
    /// of a field that needs no alignment
    pub fn extend(self, o: Layout) -> (r: Result<(Layout, usize), ()>) requires o.align == 1, self.align >= 1, self.size < 0x10000, o.size < 0x10000 ensures r == Ok::<(Layout, usize), ()>((Layout { size: (self.size + o.size) as usize, align: self.align }, self.size)) { Ok((Layout { size: self.size + o.size, align: self.align }, self.size)) }
    pub fn pad_to_align(self) -> (r: Layout) requires self.align == 4, self.size < 0x20000 ensures r.align == 4, r.size == (self.size + 3) / 4 * 4 { Layout { size: (self.size + 3) / 4 * 4, align: 4 } }
    pub fn size(&self) -> (r: usize) ensures r == self.size { self.size }
}
//@fn crates/pkt/src/netpkt/netpkt_ptr.rs netpktbox_layout
//@pre <NetPktFatPtr as ptr::Pointee>::Metadata => usize ## the length of a fat pointer
//@pre std::alloc::Layout => Layout ## path
//@pre use Layout; =>  ## path
//@pre Layout::array::<u8>\( => Layout::array_u8( ## the instance
//@ret r
//@contract
    requires hdr_ok(*pkt_header),
    ensures r.1 == full(*pkt_header) - 4, r.0.size == full(*pkt_header) + 64, r.0.align == 4,
//@end
impl PointThinPtr {
    //@fn crates/pkt/src/point_ptr.rs point_header
    //@ret r
    //@contract
        ensures *r == self.0,
    //@end
}
