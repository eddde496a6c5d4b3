global layout LkHash is size == 32, align == 1;
global layout NetPktHeader is size == 32, align == 1;
global layout PartialNetHeader is size == 68, align == 4;
global layout PointHeader is size == 4, align == 4;
global layout LinkPointHeader is size == 60, align == 4;
global layout Signed is size == 96, align == 4;
global layout Link is size == 48, align == 4;
// ---------------------------------------------------------------- types, as in the sources
#[derive(Copy, Clone)] #[repr(transparent)] pub struct U16(pub [u8; 2]);
#[derive(Copy, Clone)] #[repr(transparent)] pub struct U64(pub [u8; 8]);
#[derive(Copy, Clone)] #[repr(transparent)] pub struct B64<N>(pub N);
#[derive(Copy, Clone)] #[repr(transparent)] pub struct AB<N>(pub N);
pub type Stamp = U64;
pub type LkHash = B64<[u8; 32]>;
pub type GroupID = B64<[u8; 32]>;
pub type PubKey = B64<[u8; 32]>;
pub type Signature = B64<[u8; 64]>;
pub type Domain = AB<[u8; 16]>;
pub type Tag = AB<[u8; 16]>;
//@need crates/pkt/src/lib.rs pub type LkHash = B64<\[u8; 32\]>;
//@need crates/pkt/src/lib.rs pub type GroupID = B64<\[u8; 32\]>;
//@need crates/pkt/src/lib.rs pub type PubKey = B64<\[u8; 32\]>;
//@need crates/pkt/src/lib.rs pub type Signature = B64<\[u8; 64\]>;
//@need crates/pkt/src/lib.rs pub type Domain = AB<\[u8; 16\]>;
//@need crates/pkt/src/lib.rs pub type Tag = AB<\[u8; 16\]>;
//@need crates/pkt/src/lib.rs pub type Stamp = U64;
/// the routing header, opaque here: 32 bytes
#[derive(Copy, Clone)] #[repr(packed)] pub struct NetPktHeader(pub [u8; 32]);
//@need crates/pkt/src/netpkt/header.rs static_assertions::assert_eq_size!\(NetPktHeader, \[u8; 32\]\);
/// bitflags: a byte, with the operations of the macro
#[derive(Copy, Clone)] #[repr(transparent)] pub struct PointTypeFlags(pub u8);
impl PointTypeFlags {
    pub const LINK: PointTypeFlags = PointTypeFlags(2);
    pub const SIGNATURE: PointTypeFlags = PointTypeFlags(4);
    pub const DATA_POINT: PointTypeFlags = PointTypeFlags(1);
    pub const LINK_POINT: PointTypeFlags = PointTypeFlags(3);
    pub const KEY_POINT: PointTypeFlags = PointTypeFlags(7);
    pub const ERROR_POINT: PointTypeFlags = PointTypeFlags(128);
    pub const fn bits(self) -> (r: u8) ensures r == self.0 { self.0 }
    pub const fn is(self, o: PointTypeFlags) -> (r: bool) ensures r == (self.0 == o.0) { self.0 == o.0 }
    pub const fn contains(self, o: PointTypeFlags) -> (r: bool) ensures r == (self.0 & o.0 == o.0) { self.0 & o.0 == o.0 }
    pub const fn union(self, o: PointTypeFlags) -> (r: PointTypeFlags) ensures r.0 == self.0 | o.0 { PointTypeFlags(self.0 | o.0) }
}
//@need crates/pkt/src/lib.rs const DATA = 0b000_00001;\s*const LINK = 0b0000_0010;\s*const SIGNATURE = 0b0000_0100;\s*const ERROR = 0b1000_0000;\s*const DATA_POINT = Self::DATA\.bits\(\);\s*const LINK_POINT = Self::DATA\.bits\(\) \| Self::LINK\.bits\(\);\s*const KEY_POINT = Self::DATA\.bits\(\) \| Self::LINK\.bits\(\) \| Self::SIGNATURE\.bits\(\);\s*const ERROR_POINT = Self::ERROR\.bits\(\);
#[derive(Copy, Clone)]
//@item crates/pkt/src/lib.rs #\[repr\(C, align\(4\)\)\]\s*pub struct Link \{
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/point.rs #\[repr\(C, align\(4\)\)\]\s*pub struct PointHeader \{
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/point.rs #\[repr\(C, align\(4\)\)\]\s*pub struct LinkPointInfo \{
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/point.rs #\[repr\(C, align\(4\)\)\]\s*pub struct LinkPointHeader \{
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/point_parts.rs #\[repr\(C, align\(4\)\)\]\s*pub struct Signed \{
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/netpkt/partial.rs #\[repr\(C\)\]\s*pub struct PartialNetHeader \{
//@pre crate:: =>  ## path
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/point_parts.rs pub struct Tail<
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/point_parts.rs pub struct LinkPoint<
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/point_parts.rs pub enum PointFields<
//@end
#[derive(Copy, Clone)]
//@item crates/pkt/src/point_parts.rs pub struct PointParts<
//@end
//@item crates/pkt/src/lib.rs pub enum Error \{
//@pre #\[error\([^\n]*\)\] =>  ## messages
//@pre #\[from\]  =>  ## conversion, below
//@pre crate::space:: =>  ## path
//@end
//@item crates/pkt/src/consts.rs pub const MAX_POINT_SIZE: usize
//@pre u16::MAX as usize => 0xffff ## u16::MAX
//@end
//@item crates/pkt/src/consts.rs pub const MIN_POINT_SIZE: usize
//@pre (?s)pub const (\w+): usize =(.*); => pub exec const \1: usize ensures \1 == 36 { \2 } ## the value is proved
//@end
//@item crates/pkt/src/consts.rs pub const MIN_NETPKT_SIZE: usize
//@pre (?s)pub const (\w+): usize =(.*); => pub exec const \1: usize ensures \1 == 68 { \2 } ## the value is proved
//@end
//@item crates/pkt/src/consts.rs pub const MAX_CONTENT_SIZE: usize
//@pre (?s)pub const (\w+): usize =(.*); => pub exec const \1: usize ensures \1 == 65020 { \2 } ## the value is proved
//@end
//@item crates/pkt/src/consts.rs pub const MAX_DATA_SIZE: usize
//@pre (?s)pub const (\w+): usize =(.*); => pub exec const \1: usize ensures \1 == 65020 { \2 } ## the value is proved
//@end
//@item crates/pkt/src/consts.rs pub const MAX_LINKPOINT_DATA_SIZE: usize
//@pre (?s)pub const (\w+): usize =(.*); => pub exec const \1: usize ensures \1 == 64960 { \2 } ## the value is proved
//@end
//@item crates/pkt/src/consts.rs pub const MAX_KEYPOINT_DATA_SIZE: usize
//@pre (?s)pub const (\w+): usize =(.*); => pub exec const \1: usize ensures \1 == 64864 { \2 } ## the value is proved
//@end

// ---------------------------------------------------------------- specification: the bytes of a point
pub open spec fn be(b: Seq<u8>) -> int { b[0] as int * 256 + b[1] as int }
pub open spec fn hd(h: PointHeader) -> Seq<u8> { seq![h.reserved, h.point_type.0] + h.uset_bytes.0@ }
pub open spec fn hb(h: LinkPointHeader) -> Seq<u8> { h.info.offset_rspace.0@ + h.info.offset_data.0@ + h.create_stamp.0@ + h.group.0@ + h.domain.0@ }
pub open spec fn sb(s: Signed) -> Seq<u8> { s.pubkey.0@ + s.signature.0@ }
pub open spec fn lb1(l: Link) -> Seq<u8> { l.tag.0@ + l.ptr.0@ }
pub open spec fn lb(l: Seq<Link>) -> Seq<u8> decreases l.len() { if l.len() == 0 { seq![] } else { lb(l.drop_last()) + lb1(l.last()) } }
/// the size recorded in a header: of the whole point without padding
pub open spec fn us(h: PointHeader) -> int { be(h.uset_bytes.0@) }
pub open spec fn up8(n: int) -> int { (n + 7) / 8 * 8 }
pub open spec fn fill(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 255u8) }
pub open spec fn linked(t: u8) -> bool { t == 3 || t == 7 }
pub open spec fn sgn(t: u8) -> int { if t == 7 { 96 } else { 0 } }
pub open spec fn least(t: u8) -> int { 4 + (if linked(t) { 60int } else { 0 }) + sgn(t) }
/// the header of a point
pub open spec fn hdr_ok(h: PointHeader) -> bool {
    let t = h.point_type.0;
    h.reserved == 0 && (t == 1 || t == 3 || t == 7 || t == 128) && least(t) <= us(h) <= 65024
}
/// where the padding starts
pub open spec fn end(h: PointHeader) -> int { us(h) - sgn(h.point_type.0) }
pub open spec fn full(h: PointHeader) -> int { up8(us(h)) }
pub open spec fn npad(h: PointHeader) -> int { full(h) - us(h) }
pub open spec fn ro(m: Seq<u8>) -> int { be(m.subrange(4, 6)) }
pub open spec fn dof(m: Seq<u8>) -> int { be(m.subrange(6, 8)) }
pub open spec fn cuts(m: Seq<u8>, h: PointHeader) -> bool { 64 <= ro(m) <= dof(m) <= end(h) && (ro(m) - 64) % 48 == 0 }
/// bytes m that begin with a point with header h
pub open spec fn valid(m: Seq<u8>, h: PointHeader) -> bool {
    hdr_ok(h) && m.len() >= full(h) && m.subrange(end(h), end(h) + npad(h)) == fill(npad(h))
    && (linked(h.point_type.0) ==> cuts(m, h) && rsp(m.subrange(ro(m), dof(m))))
}
pub uninterp spec fn H(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn verifies(key: Seq<u8>, sig: Seq<u8>, hash: Seq<u8>) -> bool;
/// a keypoint is signed: over the hash of everything before the key
pub open spec fn sig_ok(m: Seq<u8>, h: PointHeader) -> bool {
    let p = full(h);
    h.point_type.0 == 7 ==> verifies(m.subrange(p - 96, p - 64), m.subrange(p - 64, p), H(m.take(p - 96)))
}
pub open spec fn tb(t: Tail) -> Seq<u8> { lb(t.links@) + ry(t.rspace) + t.data@ }
pub open spec fn body(f: PointFields) -> Seq<u8> {
    match f { PointFields::DataPoint(d) => d@, PointFields::Error(d) => d@, PointFields::Unknown(d) => d@, PointFields::LinkPoint(l) => hb(l.head) + tb(l.tail), PointFields::KeyPoint(l, _) => hb(l.head) + tb(l.tail) }
}
pub open spec fn data_of(f: PointFields) -> Seq<u8> { match f { PointFields::DataPoint(d) => d@, PointFields::Error(d) => d@, PointFields::Unknown(d) => d@, PointFields::LinkPoint(l) => l.tail.data@, PointFields::KeyPoint(l, _) => l.tail.data@ } }
pub open spec fn sign(f: PointFields) -> Seq<u8> { match f { PointFields::KeyPoint(_, s) => sb(s), _ => seq![] } }
/// the bytes of a point given by its fields
pub open spec fn pbytes(p: PointParts) -> Seq<u8> { hd(p.pkt_header) + body(p.fields) + fill(npad(p.pkt_header)) + sign(p.fields) }
pub open spec fn lp_ok(l: LinkPoint) -> bool {
    rsp(ry(l.tail.rspace)) && be(l.head.info.offset_rspace.0@) == 64 + 48 * l.tail.links@.len()
    && be(l.head.info.offset_data.0@) == 64 + 48 * l.tail.links@.len() + ry(l.tail.rspace).len()
}
/// a point: the header records the kind and size, the offsets where the parts start
pub open spec fn point_ok(p: PointParts) -> bool {
    hdr_ok(p.pkt_header) && us(p.pkt_header) == 4 + body(p.fields).len() + sign(p.fields).len()
    && match p.fields {
        PointFields::DataPoint(_) => p.pkt_header.point_type.0 == 1,
        PointFields::Error(_) => p.pkt_header.point_type.0 == 128,
        PointFields::LinkPoint(l) => p.pkt_header.point_type.0 == 3 && lp_ok(l),
        PointFields::KeyPoint(l, _) => p.pkt_header.point_type.0 == 7 && lp_ok(l),
        PointFields::Unknown(_) => false,
    }
}
pub open spec fn same_lp(a: LinkPoint, b: LinkPoint) -> bool {
    a.head.create_stamp.0@ == b.head.create_stamp.0@ && a.head.group.0@ == b.head.group.0@ && a.head.domain.0@ == b.head.domain.0@
    && ry(a.tail.rspace) == ry(b.tail.rspace) && a.tail.data@ == b.tail.data@ && a.tail.links@.len() == b.tail.links@.len()
    && forall|i: int| 0 <= i < a.tail.links@.len() ==> (#[trigger] a.tail.links@[i]).tag.0@ == b.tail.links@[i].tag.0@ && a.tail.links@[i].ptr.0@ == b.tail.links@[i].ptr.0@
}
/// the same kind with the same fields
pub open spec fn same_point(a: PointFields, b: PointFields) -> bool {
    match (a, b) {
        (PointFields::DataPoint(x), PointFields::DataPoint(y)) => x@ == y@,
        (PointFields::Error(x), PointFields::Error(y)) => x@ == y@,
        (PointFields::LinkPoint(x), PointFields::LinkPoint(y)) => same_lp(x, y),
        (PointFields::KeyPoint(x, s), PointFields::KeyPoint(y, t)) => same_lp(x, y) && s.pubkey.0@ == t.pubkey.0@ && s.signature.0@ == t.signature.0@,
        _ => false,
    }
}
pub proof fn lb_len(l: Seq<Link>) ensures lb(l).len() == 48 * l.len() decreases l.len() { if l.len() > 0 { lb_len(l.drop_last()); } }
pub proof fn offsets(k: LinkPointHeader, m: Seq<u8>)
    requires m.len() >= 64, hb(k) == m.subrange(4, 64),
    ensures be(k.info.offset_rspace.0@) == ro(m), be(k.info.offset_data.0@) == dof(m),
{
    assert(hb(k)[0] == m[4] && hb(k)[1] == m[5] && hb(k)[2] == m[6] && hb(k)[3] == m[7]);
    assert(hb(k).take(2) =~= k.info.offset_rspace.0@); assert(hb(k).subrange(2, 4) =~= k.info.offset_data.0@);
    assert(hb(k).take(2) =~= m.subrange(4, 6)); assert(hb(k).subrange(2, 4) =~= m.subrange(6, 8));
}
pub proof fn joined(l: LinkPoint, m: Seq<u8>, h: PointHeader)
    requires valid(m, h), linked(h.point_type.0), hb(l.head) == m.subrange(4, 64), lb(l.tail.links@) == m.subrange(64, ro(m)), l.tail.links@.len() == (ro(m) - 64) / 48, ry(l.tail.rspace) == m.subrange(ro(m), dof(m)), l.tail.data@ == m.subrange(dof(m), end(h)),
    ensures hb(l.head) + tb(l.tail) == m.subrange(4, end(h)), lp_ok(l),
{
    offsets(l.head, m);
    assert(hb(l.head) + tb(l.tail) =~= m.subrange(4, end(h)));
}
pub proof fn lp_placed(l: LinkPoint, m: Seq<u8>, h: PointHeader)
    requires lp_ok(l), 64 <= end(h) <= m.len(), hb(l.head) + tb(l.tail) == m.subrange(4, end(h)),
    ensures
        hb(l.head) == m.subrange(4, 64), cuts(m, h), lb(l.tail.links@) == m.subrange(64, ro(m)), ry(l.tail.rspace) == m.subrange(ro(m), dof(m)), l.tail.data@ == m.subrange(dof(m), end(h)),
        ro(m) == 64 + 48 * l.tail.links@.len(), dof(m) == ro(m) + ry(l.tail.rspace).len(), end(h) == dof(m) + l.tail.data@.len(),
{
    let b = hb(l.head) + tb(l.tail);
    lb_len(l.tail.links@);
    assert(b.take(60) =~= hb(l.head)); assert(b.take(60) =~= m.subrange(4, 64));
    offsets(l.head, m);
    let (r, d) = (ro(m), dof(m));
    assert(b.subrange(60, r - 4) =~= lb(l.tail.links@)); assert(b.subrange(r - 4, d - 4) =~= ry(l.tail.rspace)); assert(b.subrange(d - 4, b.len() as int) =~= l.tail.data@);
    assert(b.subrange(60, r - 4) =~= m.subrange(64, r)); assert(b.subrange(r - 4, d - 4) =~= m.subrange(r, d)); assert(b.subrange(d - 4, b.len() as int) =~= m.subrange(d, end(h)));
}
/// where the fields of a point are in its bytes
pub proof fn placed(p: PointParts, m: Seq<u8>)
    requires point_ok(p), m.len() >= full(p.pkt_header), pbytes(p) == m.take(full(p.pkt_header)),
    ensures
        ({ let h = p.pkt_header; let e = end(h);
        &&& body(p.fields) == m.subrange(4, e) && m.take(4) == hd(h) && m.subrange(e, e + npad(h)) == fill(npad(h)) && sign(p.fields) == m.subrange(full(h) - sgn(h.point_type.0), full(h))
        &&& valid(m, h)
        &&& !linked(h.point_type.0) ==> data_of(p.fields) == m.subrange(4, e)
        &&& match p.fields {
            PointFields::LinkPoint(l) => hb(l.head) == m.subrange(4, 64) && lb(l.tail.links@) == m.subrange(64, ro(m)) && ry(l.tail.rspace) == m.subrange(ro(m), dof(m)) && l.tail.data@ == m.subrange(dof(m), e) && l.tail.links@.len() == (ro(m) - 64) / 48,
            PointFields::KeyPoint(l, _) => hb(l.head) == m.subrange(4, 64) && lb(l.tail.links@) == m.subrange(64, ro(m)) && ry(l.tail.rspace) == m.subrange(ro(m), dof(m)) && l.tail.data@ == m.subrange(dof(m), e) && l.tail.links@.len() == (ro(m) - 64) / 48,
            _ => true } }),
{
    let h = p.pkt_header; let e = end(h); let b = pbytes(p); let n = npad(h); let w = full(h);
    assert(b.len() == w);
    assert(b.subrange(4, e) =~= body(p.fields)); assert(m.take(w).subrange(4, e) =~= m.subrange(4, e));
    assert(b.take(4) =~= hd(h)); assert(m.take(w).take(4) =~= m.take(4));
    assert(b.subrange(e, e + n) =~= fill(n)); assert(m.take(w).subrange(e, e + n) =~= m.subrange(e, e + n));
    assert(b.subrange(e + n, w) =~= sign(p.fields)); assert(m.take(w).subrange(e + n, w) =~= m.subrange(e + n, w));
    match p.fields { PointFields::LinkPoint(l) => { lp_placed(l, m, h); } PointFields::KeyPoint(l, _) => { lp_placed(l, m, h); } _ => {} }
}
pub proof fn links_same(a: Seq<Link>, b: Seq<Link>)
    requires lb(a) == lb(b),
    ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).tag.0@ == b[i].tag.0@ && a[i].ptr.0@ == b[i].ptr.0@,
    decreases a.len(),
{
    lb_len(a); lb_len(b);
    if a.len() > 0 {
        let (x, y) = (a.drop_last(), b.drop_last());
        lb_len(x);
        assert(lb(a).take(48 * x.len() as int) =~= lb(x)); assert(lb(b).take(48 * x.len() as int) =~= lb(y));
        assert(lb(a).skip(48 * x.len() as int) =~= lb1(a.last())); assert(lb(b).skip(48 * x.len() as int) =~= lb1(b.last()));
        assert(lb1(a.last()).take(16) =~= a.last().tag.0@); assert(lb1(b.last()).take(16) =~= b.last().tag.0@);
        assert(lb1(a.last()).skip(16) =~= a.last().ptr.0@); assert(lb1(b.last()).skip(16) =~= b.last().ptr.0@);
        links_same(x, y);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).tag.0@ == b[i].tag.0@ && a[i].ptr.0@ == b[i].ptr.0@ by { if i < x.len() { assert(x[i] == a[i] && y[i] == b[i]); } }
    }
}
pub proof fn heads_same(a: LinkPointHeader, b: LinkPointHeader)
    requires hb(a) == hb(b),
    ensures a.create_stamp.0@ == b.create_stamp.0@, a.group.0@ == b.group.0@, a.domain.0@ == b.domain.0@,
{
    assert(hb(a).subrange(4, 12) =~= a.create_stamp.0@); assert(hb(b).subrange(4, 12) =~= b.create_stamp.0@);
    assert(hb(a).subrange(12, 44) =~= a.group.0@); assert(hb(b).subrange(12, 44) =~= b.group.0@);
    assert(hb(a).subrange(44, 60) =~= a.domain.0@); assert(hb(b).subrange(44, 60) =~= b.domain.0@);
}
/// equal bytes are the same point: whatever reads a built point back has its fields
pub proof fn bytes_decide(a: PointParts, b: PointParts)
    requires point_ok(a), point_ok(b), pbytes(a) == pbytes(b),
    ensures same_point(a.fields, b.fields), hd(a.pkt_header) == hd(b.pkt_header),
{
    let m = pbytes(a);
    assert(m.take(4) =~= hd(a.pkt_header)); assert(pbytes(b).take(4) =~= hd(b.pkt_header));
    assert(hd(a.pkt_header)[1] == hd(b.pkt_header)[1]);
    assert(hd(a.pkt_header).skip(2) =~= a.pkt_header.uset_bytes.0@); assert(hd(b.pkt_header).skip(2) =~= b.pkt_header.uset_bytes.0@);
    assert(m.take(full(a.pkt_header)) =~= m);
    placed(a, m); placed(b, m);
    match (a.fields, b.fields) {
        (PointFields::LinkPoint(x), PointFields::LinkPoint(y)) => { links_same(x.tail.links@, y.tail.links@); heads_same(x.head, y.head); }
        (PointFields::KeyPoint(x, s), PointFields::KeyPoint(y, t)) => {
            links_same(x.tail.links@, y.tail.links@); heads_same(x.head, y.head);
            assert(sb(s) == sb(t)); assert(sb(s).take(32) =~= s.pubkey.0@); assert(sb(t).take(32) =~= t.pubkey.0@); assert(sb(s).skip(32) =~= s.signature.0@); assert(sb(t).skip(32) =~= t.signature.0@);
        }
        _ => {}
    }
}
/// whether bytes b, whose point header is h, begin with a packet
pub open spec fn accept(b: Seq<u8>, h: PointHeader, skip: bool) -> bool {
    hdr_ok(h) && b.len() >= full(h) + 64 && valid(b.skip(64), h) && (!skip ==> sig_ok(b.skip(64), h) && b.subrange(32, 64) == H(b.subrange(64, 64 + full(h))))
}
pub proof fn hd_same(a: PointHeader, b: PointHeader)
    requires hd(a) == hd(b),
    ensures hdr_ok(a) == hdr_ok(b), full(a) == full(b), forall|x: Seq<u8>, s: bool| accept(x, a, s) == accept(x, b, s),
{
    assert(hd(a)[0] == a.reserved && hd(b)[0] == b.reserved && hd(a)[1] == a.point_type.0 && hd(b)[1] == b.point_type.0);
    assert(hd(a).skip(2) =~= a.uset_bytes.0@); assert(hd(b).skip(2) =~= b.uset_bytes.0@);
}
/// only the bytes of the point decide
pub proof fn enough(m: Seq<u8>, h: PointHeader)
    requires m.len() >= full(h), hdr_ok(h),
    ensures valid(m, h) == valid(m.take(full(h)), h), sig_ok(m, h) == sig_ok(m.take(full(h)), h),
{
    let w = full(h); let t = m.take(w);
    assert(m.subrange(end(h), end(h) + npad(h)) =~= t.subrange(end(h), end(h) + npad(h)));
    if linked(h.point_type.0) {
        assert(m.subrange(4, 6) =~= t.subrange(4, 6)); assert(m.subrange(6, 8) =~= t.subrange(6, 8));
        if cuts(m, h) { assert(m.subrange(ro(m), dof(m)) =~= t.subrange(ro(m), dof(m))); }
    }
    if h.point_type.0 == 7 { assert(m.subrange(w - 96, w - 64) =~= t.subrange(w - 96, w - 64)); assert(m.subrange(w - 64, w) =~= t.subrange(w - 64, w)); assert(m.take(w - 96) =~= t.take(w - 96)); }
}
