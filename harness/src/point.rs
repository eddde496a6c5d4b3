//! C19..C22: points, reading them, routing headers, tree keys.
#![cfg(not(kani))]
use crate::nd::*;
use crate::space::{dec, good, index, root};
use linkspace_cryptography as lc;
use linkspace_pkt::netpkt::cmp::PktCmp;
use linkspace_pkt::read::read_pkt;
use linkspace_pkt::reroute::{RecvPkt, ReroutePkt, ShareArcPkt};
use linkspace_pkt::tree_order::*;
use linkspace_pkt::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

// every block is freed with the layout it was allocated with
struct Tracked;
static ON: AtomicBool = AtomicBool::new(false);
static BAD: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
const SLOTS: usize = 8192;
static mut TABLE: [(usize, usize, usize); SLOTS] = [(0, 0, 0); SLOTS];
fn locked<R>(f: impl FnOnce(&mut [(usize, usize, usize); SLOTS]) -> R) -> R {
    while LOCK.swap(true, SeqCst) {}
    let r = f(unsafe { &mut *std::ptr::addr_of_mut!(TABLE) });
    LOCK.store(false, SeqCst);
    r
}
unsafe impl GlobalAlloc for Tracked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(SeqCst) && !p.is_null() { locked(|t| if let Some(s) = t.iter_mut().find(|s| s.0 == 0) { *s = (p as usize, l.size(), l.align()) }) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) { locked(|t| if let Some(s) = t.iter_mut().find(|s| s.0 == p as usize) { if (s.1, s.2) != (l.size(), l.align()) { BAD.fetch_add(1, SeqCst); } s.0 = 0 }) }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Tracked = Tracked;
/// whether every block allocated and freed by `f` was freed as allocated
fn balanced(f: impl FnOnce()) -> bool {
    locked(|t| for s in t.iter_mut() { s.0 = 0 });
    BAD.store(0, SeqCst);
    ON.store(true, SeqCst);
    f();
    ON.store(false, SeqCst);
    BAD.load(SeqCst) == 0
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
/// a copy of the bytes that ends where readable memory ends
struct Guarded { base: *mut u8, size: usize, at: *const u8, n: usize }
impl Guarded {
    fn new(b: &[u8]) -> Guarded {
        let size = (b.len() + 4095) / 4096 * 4096 + 4096;
        unsafe {
            let base = mmap(std::ptr::null_mut(), size, 3, 0x22, -1, 0);
            assert!(base as isize != -1);
            mprotect(base.add(size - 4096), 4096, 0);
            let at = base.add(size - 4096 - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            Guarded { base, size, at, n: b.len() }
        }
    }
    fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.at, self.n) } }
}
impl Drop for Guarded { fn drop(&mut self) { unsafe { munmap(self.base, self.size); } } }

pub const MAX: usize = 65536 - 512;
/// the fields of a point
#[derive(Clone, Debug)]
pub struct P { pub kind: u8, pub group: [u8; 32], pub domain: [u8; 16], pub space: Vec<Vec<u8>>, pub links: Vec<Link>, pub data: Vec<u8>, pub stamp: u64, pub key: Option<lc::SigningKey>, pub head: [u8; 32] }
pub const DATA: u8 = 1; pub const LINK: u8 = 3; pub const KEY: u8 = 7; pub const ERR: u8 = 128;
fn arr<const N: usize>() -> [u8; N] { any() }
pub fn key(n: u8) -> lc::SigningKey { let mut s = lc::TEST_SECRET; s[31] = n % 4; lc::SigningKey::try_from(s).unwrap() }
pub fn gen(kind: u8, big: bool) -> P {
    let links: Vec<Link> = (0..upto(3)).map(|_| Link { tag: AB(arr()), ptr: B64(arr()) }).collect();
    let n = upto(20);
    let mut p = P { kind, group: if any() { arr() } else { [any::<u8>() % 2; 32] }, domain: if any() { arr() } else { [any::<u8>() % 2; 16] }, space: if any() { good() } else { vec![] }, links, data: (0..n).map(|_| any()).collect(), stamp: any(), key: (kind == KEY).then(|| key(any())), head: arr() };
    if kind == DATA || kind == ERR { p.links.clear(); p.space.clear() }
    if big {
        // around the size limit
        let extra = [0, 1, 7, 8][upto(3)];
        if kind != DATA && kind != ERR && any() { let l = Link { tag: AB(arr()), ptr: B64(arr()) }; p.links = vec![l; 1340 + upto(32)] }
        let have = p.size();
        let fill = (MAX + extra).saturating_sub(have + upto(3));
        p.data.extend(std::iter::repeat(any::<u8>()).take(fill));
    }
    p
}
impl P {
    pub fn has_links(&self) -> bool { self.kind & 2 != 0 }
    /// size of the point without hash, routing header and padding
    pub fn size(&self) -> usize { 4 + self.data.len() + if self.has_links() { 60 + 48 * self.links.len() + root(&self.space).len() } else { 0 } + if self.kind == KEY { 96 } else { 0 } }
    /// everything up to the signature
    fn unsigned(&self) -> Vec<u8> {
        let n = self.size();
        let mut o = vec![0, self.kind];
        o.extend((n as u16).to_be_bytes());
        if self.has_links() {
            let r = root(&self.space);
            let a = 64 + 48 * self.links.len();
            o.extend((a as u16).to_be_bytes());
            o.extend(((a + r.len()) as u16).to_be_bytes());
            o.extend(self.stamp.to_be_bytes());
            o.extend(self.group);
            o.extend(self.domain);
            for l in &self.links { o.extend(l.tag.0); o.extend(l.ptr.0) }
            o.extend(r);
        }
        o.extend(&self.data);
        o.extend(std::iter::repeat(255).take((8 - n % 8) % 8));
        o
    }
    pub fn point_bytes(&self) -> Vec<u8> {
        let mut o = self.unsigned();
        if let Some(k) = &self.key {
            let h = *lc::blake3_hash(&o).as_bytes();
            o.extend(k.pubkey_bytes());
            o.extend(lc::sign_hash(k, &h));
        }
        o
    }
    pub fn hash(&self) -> [u8; 32] { *lc::blake3_hash(&self.point_bytes()).as_bytes() }
    pub fn bytes(&self) -> Vec<u8> { [&self.head[..], &self.hash(), &self.point_bytes()].concat() }
    pub fn rspace(&self) -> RootedSpaceBuf { if self.space.is_empty() { RootedSpaceBuf::new() } else { RootedSpaceBuf::try_from_iter(self.space.iter()).unwrap() } }
    pub fn build<'a>(&'a self, r: &'a RootedSpace) -> Result<NetPktParts<'a>, Error> {
        let h = NetPktHeader::cfrom(self.head);
        match self.kind {
            DATA => try_datapoint_ref(&self.data, h.into()),
            ERR => if self.size() > MAX { Err(Error::ContentLen) } else { Ok(errorpoint(&self.data, h)) },
            LINK if any() => try_linkpoint_ref(B64(self.group), AB(self.domain), r, &self.links, &self.data, Stamp::new(self.stamp), h.into()),
            KEY if any() => try_keypoint_ref(B64(self.group), AB(self.domain), r, &self.links, &self.data, Stamp::new(self.stamp), self.key.as_ref().unwrap(), h.into()),
            _ => try_point(B64(self.group), AB(self.domain), r, &self.links, &self.data, Stamp::new(self.stamp), self.key.as_ref(), h),
        }
    }
}
/// every field of a point is the one given
pub fn same(p: &P, q: &dyn NetPkt) {
    ensures!(q.hash_ref().0 == p.hash(), "the hash is the hash of the point's bytes");
    same_point(p, q.as_point());
}
fn same_point(p: &P, q: &dyn Point) {
    let n = p.size();
    let h = q.point_header();
    ensures!(h.reserved == 0 && h.point_type.bits() == p.kind && h.uset_bytes.get() as usize == n, "the point header records type and size");
    ensures!(h.size() as usize == 64 + (n + 7) / 8 * 8, "the packet size counts headers, hash and padding");
    ensures!(q.padding() == &[255u8; 8][..(8 - n % 8) % 8], "padding is the fewest 255 bytes that make the size a multiple of 8");
    ensures!(q.data() == p.data, "data reads back");
    ensures!(q.is_datapoint() == (p.kind == DATA) && q.is_linkpoint() == (p.kind == LINK) && q.is_keypoint() == (p.kind == KEY), "the kind reads back");
    match q.tail() {
        Some(t) => {
            ensures!(p.has_links() && t.links == p.links && t.data == p.data && t.rspace.rooted_bytes() == root(&p.space), "links, data and space read back");
            let lh = q.linkpoint_header().unwrap();
            ensures!(lh.group.0 == p.group && lh.domain.0 == p.domain && lh.create_stamp.get() == p.stamp, "group, domain and stamp read back");
        }
        None => { ensures!(!p.has_links() && q.linkpoint_header().is_none(), "a point without links has no tail"); }
    }
    ensures!(q.get_links() == if p.has_links() { &p.links[..] } else { &[] }, "links");
    ensures!(*q.get_depth() as usize == p.space.len(), "depth");
    ensures!(q.get_group().0 == if p.has_links() { p.group } else { [0; 32] } && q.get_domain().0 == if p.has_links() { p.domain } else { [0; 16] } && q.get_create_stamp().get() == if p.has_links() { p.stamp } else { 0 }, "fields with a default");
    match q.signed() {
        Some(s) => {
            let k = p.key.as_ref().unwrap();
            ensures!(p.kind == KEY && s.pubkey.0 == k.pubkey_bytes(), "the key reads back");
            ensures!(lc::validate_signature(&s.pubkey.0, &s.signature.0, lc::blake3_hash(&p.unsigned()).as_bytes()).is_ok(), "the signature verifies over everything before it");
        }
        None => { ensures!(p.kind != KEY && q.pubkey().is_none() && q.get_pubkey().0 == [0; 32], "only a keypoint is signed"); }
    }
    match q.fields() {
        PointFields::DataPoint(d) => { ensures!(p.kind == DATA && d == p.data, "datapoint fields"); }
        PointFields::Error(d) => { ensures!(p.kind == ERR && d == p.data, "error fields"); }
        PointFields::LinkPoint(l) => { ensures!(p.kind == LINK && l.tail.data == p.data && l.head.group.0 == p.group, "linkpoint fields"); }
        PointFields::KeyPoint(l, s) => { ensures!(p.kind == KEY && l.tail.links == p.links && q.signed() == Some(&s), "keypoint fields"); }
        _ => { ensures!(false, "a known kind"); }
    }
}
fn kind() -> u8 { [DATA, LINK, KEY, ERR][upto(3)] }
/// the bytes at an address that is `off` past a multiple of 8
fn at<R>(b: &[u8], off: usize, f: impl FnOnce(&[u8]) -> R) -> R {
    let mut v = vec![0u8; b.len() + 16];
    let s = v.as_ptr().align_offset(8) + off;
    v[s..s + b.len()].copy_from_slice(b);
    f(&v[s..s + b.len()])
}
fn built(big: bool) {
    let p = gen(kind(), big);
    let r = p.rspace();
    let b = p.build(&r);
    ensures!(b.is_ok() == (p.size() <= MAX), "building refuses exactly what is too large");
    if p.has_links() {
        let free = calc_free_space(r.space(), &p.links, &p.data, p.kind == KEY);
        ensures!(free == MAX as isize - p.size() as isize, "the free space is what is left up to the limit");
    }
    let Ok(b) = b else { return };
    let want = p.bytes();
    same(&p, &b);
    ensures!(b.byte_segments().to_bytes()[..] == want[..], "the bytes are the documented layout of the fields");
    ensures!(b.size() as usize == want.len() && b.byte_segments().len() == want.len(), "the size is the number of bytes");
    ensures!(b.net_header().cinto() == p.head, "the routing header is the one given");
    ensures!(p.build(&r).map(|c| c == b).unwrap_or(false), "equal fields give an equal point");
    let off = upto(7);
    at(&want, off, |w| {
        let q = read_pkt(w, any());
        ensures!(q.is_ok(), "a built point is accepted");
        let q = q.unwrap();
        ensures!(matches!(q, Cow::Borrowed(_)) == (off == 0), "an aligned packet is read in place");
        same(&p, &*q);
        ensures!(q.as_netpkt_bytes() == want, "and reads back as the same bytes");
    });
    cover!(p.kind == KEY && !p.space.is_empty() && !p.links.is_empty() && p.size() % 8 != 0, "a full keypoint");
}
/// what the format says about the bytes of a packet
fn valid(b: &[u8], hash: bool) -> Result<usize, bool> {
    if b.len() < 68 { return Err(true) }
    let (res, kind, n) = (b[64], b[65], u16::from_be_bytes([b[66], b[67]]) as usize);
    let min = match kind { 1 | 128 => 4, 3 => 64, 7 => 160, _ => return Err(false) };
    if res != 0 || n < min || n > MAX { return Err(false) }
    let size = 64 + (n + 7) / 8 * 8;
    if b.len() < size { return Err(true) }
    let p = &b[64..size];
    let end = if kind == 7 { n - 96 } else { n };
    if !p[end..end + size - 64 - n].iter().all(|x| *x == 255) { return Err(false) }
    if kind & 2 != 0 {
        let (r, d) = (u16::from_be_bytes([p[4], p[5]]) as usize, u16::from_be_bytes([p[6], p[7]]) as usize);
        if r < 64 || d < r || d > end || (r - 64) % 48 != 0 { return Err(false) }
        let s = &p[r..d];
        if !s.is_empty() {
            if s.len() < 8 { return Err(false) }
            match dec(&s[8..]) { Some(l) if !l.is_empty() && index(&l) == s[..8] => {} _ => return Err(false) }
        }
    }
    if hash {
        if kind == 7 {
            let h = *lc::blake3_hash(&p[..p.len() - 96]).as_bytes();
            let s = &p[p.len() - 96..];
            if lc::validate_signature(s[..32].try_into().unwrap(), s[32..].try_into().unwrap(), &h).is_err() { return Err(false) }
        }
        if *lc::blake3_hash(p).as_bytes() != b[32..64] { return Err(false) }
    }
    Ok(size)
}
/// bytes near a valid packet
fn mangled() -> Vec<u8> {
    let p = gen(kind(), false);
    let mut b = p.bytes();
    let n = b.len();
    let put = |b: &mut Vec<u8>, i: usize, v: u16| if i + 1 < b.len() { b[i..i + 2].copy_from_slice(&v.to_be_bytes()) };
    let get = |b: &Vec<u8>, i: usize| if i + 1 < b.len() { u16::from_be_bytes([b[i], b[i + 1]]) } else { 0 };
    for _ in 0..upto(2) {
        match upto(11) {
            0 => b[65] = [0, 1, 2, 3, 4, 5, 6, 7, 128, 129, 131, 255][upto(11)],
            1 => { let v = match upto(4) { 0 => upto(8) as u16, 1 => 60 + upto(8) as u16, 2 => 156 + upto(8) as u16, 3 => get(&b, 66).wrapping_add(upto(16) as u16).wrapping_sub(8), _ => any() }; put(&mut b, 66, v) }
            2 => { let v = get(&b, 68).wrapping_add([48u16, 65488, 1, 8, 65528, 16][upto(5)]); put(&mut b, 68, v) }
            3 => { let v = get(&b, 70).wrapping_add([8u16, 65528, 1, 65535, 96, 65440, 16][upto(6)]); put(&mut b, 70, v) }
            4 => { let (x, y) = (any(), any()); put(&mut b, 68, x); put(&mut b, 70, y) }
            5 => { let k = upto(n - 1); b[k] ^= 1 << upto(7) }
            6 => { let e = b.len(); if e > 0 { let k = e - 1 - upto(7.min(e - 1)); b[k] = 254 } }
            7 => b.truncate(upto(n)),
            8 => { let r = get(&b, 68) as usize + 64; if r + 8 < b.len() { b[r + upto(8)] = any::<u8>() % 12 } }
            9 => { for _ in 0..upto(40) { b.push(any()) } }
            10 => b[64] = any::<u8>() % 2,
            _ => { let v = b.len() as u16; put(&mut b, 66, v.wrapping_sub(64)) }
        }
        if b.len() < 80 { break }
    }
    // make the hash right, often, so that what is inside is looked at
    if any::<u8>() % 3 > 0 && b.len() >= 68 {
        let n = u16::from_be_bytes([b[66], b[67]]) as usize;
        let size = 64 + (n + 7) / 8 * 8;
        if size <= b.len() && size > 64 {
            if b[65] == 7 && n >= 160 {
                let k = key(any());
                let h = *lc::blake3_hash(&b[64..size - 96]).as_bytes();
                b[size - 96..size - 64].copy_from_slice(&k.pubkey_bytes());
                b[size - 64..size].copy_from_slice(&lc::sign_hash(&k, &h));
            }
            let h = *lc::blake3_hash(&b[64..size]).as_bytes();
            b[32..64].copy_from_slice(&h);
        }
    }
    b
}
/// the fields of a point as one value
pub fn all(q: &dyn Point) -> (Vec<u8>, Option<(Vec<Link>, Vec<u8>, Vec<u8>)>, Option<Vec<u8>>, Vec<u8>, [u8; 4]) {
    (q.data().to_vec(), q.tail().map(|t| (t.links.to_vec(), t.rspace.rooted_bytes().to_vec(), t.data.to_vec())), q.signed().map(|s| [&s.pubkey.0[..], &s.signature.0].concat()), q.padding().to_vec(), *q.point_header_ref().as_bytes())
}
fn reads(b: &[u8]) {
    let skip: bool = any();
    let want = valid(b, !skip);
    let g = Guarded::new(b);
    let mut buf = vec![0u64; b.len() / 8 + 2];
    let aligned: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr().cast(), b.len()) };
    aligned.copy_from_slice(b);
    for w in [g.get(), &*aligned] {
        let got = read_pkt(w, skip);
        match &got {
            Ok(q) => {
                ensures!(want.is_ok(), "only a valid packet is accepted");
                let n = want.unwrap();
                ensures!(q.size() as usize == n && q.as_netpkt_bytes() == &b[..n], "an accepted packet is the bytes read");
                ensures!(q.net_header_ref().as_bytes()[..] == b[..32] && q.hash_ref().0[..] == b[32..64], "its routing header and hash are the bytes read");
                let (data, tail, sig, pad, head) = all(q.as_point());
                let p = &b[64..n];
                ensures!(head[..] == p[..4], "its point header is the bytes read");
                let u = u16::from_be_bytes([p[2], p[3]]) as usize;
                let end = if p[1] == 7 { u - 96 } else { u };
                let npad = p.len() - u;
                ensures!(pad[..] == p[end..end + npad], "its padding is the bytes read");
                if p[1] & 2 != 0 {
                    let (r, d) = (u16::from_be_bytes([p[4], p[5]]) as usize, u16::from_be_bytes([p[6], p[7]]) as usize);
                    let (l, s, d2) = tail.unwrap();
                    ensures!(d2[..] == p[d..end] && data == d2 && s[..] == p[r..d], "data and space are the bytes read");
                    ensures!(l.iter().flat_map(|l| [&l.tag.0[..], &l.ptr.0].concat()).collect::<Vec<_>>()[..] == p[64..r], "links are the bytes read");
                    let h = q.linkpoint_header().unwrap();
                    ensures!([&h.create_stamp.0[..], &h.group.0, &h.domain.0].concat()[..] == p[8..64], "stamp, group and domain are the bytes read");
                } else {
                    ensures!(tail.is_none() && data[..] == p[4..end], "data is the bytes read");
                }
                ensures!(if p[1] == 7 { sig.unwrap()[..] == p[end + npad..] } else { sig.is_none() }, "key and signature are the bytes read");
                if !skip { ensures!(q.hash_ref() == &q.compute_hash(), "an accepted hash is the hash of the point"); }
            }
            Err(e) => {
                ensures!(want.is_err(), "a valid packet is accepted");
                let short = e.clone().requires_more();
                ensures!(short.is_some() == (want == Err(true)), "more bytes are asked for exactly when they are missing");
                if let Some(n) = short { ensures!(n > b.len() && n >= 68 && (b.len() < 68 || n == 64 + (u16::from_be_bytes([b[66], b[67]]) as usize + 7) / 8 * 8), "the number of bytes asked for is the packet's size"); }
            }
        }
    }
}
fn head(h: &[u8; 32]) -> NetPktHeader { NetPktHeader::cfrom(*h) }
/// the packet keeps its point under another routing header
fn rerouted(p: &P, h: &[u8; 32], q: &dyn NetPkt) {
    same(p, q);
    ensures!(q.net_header().cinto() == *h && q.net_header_ref().as_bytes() == h, "the routing header is the one set");
    let want = [&h[..], &p.hash(), &p.point_bytes()].concat();
    ensures!(q.byte_segments().to_bytes()[..] == want[..] && q.byte_segments().len() == want.len() && q.byte_segments().collect::<Vec<u8>>() == want, "its bytes are the new routing header and the same rest");
    let (b, a) = (q.as_netbox(), q.as_netarc());
    ensures!(b.as_netpkt_bytes() == want, "so are the bytes of a copy");
    ensures!(b.thin_netpkt().check(false).is_ok(), "which stays valid");
    // a shared copy may be one made before the routing header was set
    ensures!(a.hash() == q.hash() && all(a.as_point()) == all(q.as_point()) && a.check(false).is_ok(), "and of a shared copy, except for its routing header");
    ensures!(q.get_recv() >= Stamp::ZERO, "a receive stamp");
}
fn ordered() -> (P, P) {
    let mut a = gen([LINK, KEY, LINK, DATA][upto(3)], false);
    let mut b = if any() { a.clone() } else { gen([LINK, KEY][upto(1)], false) };
    a.data.truncate(upto(3));
    for _ in 0..upto(2) {
        match upto(7) {
            0 => { let i = upto(31); b.group = a.group; b.group[i] ^= 1 << upto(7) }
            1 => { let i = upto(15); b.group = a.group; b.domain = a.domain; b.domain[i] ^= 1 << upto(7) }
            2 => { b.group = a.group; b.domain = a.domain; b.space = a.space.clone(); if let Some(s) = b.space.last_mut() { if any() && s.len() < 100 { s.push(any()) } else { s[0] ^= 1 } } }
            3 => { b.group = a.group; b.domain = a.domain; b.space = a.space.clone(); if any() { b.space.pop(); } else if b.space.len() < 7 { b.space.push(vec![any()]) } }
            4 => { b.group = a.group; b.domain = a.domain; b.space = a.space.clone(); b.stamp = a.stamp ^ (1 << upto(63)) }
            5 => { b.group = a.group; b.domain = a.domain; b.space = a.space.clone(); if b.kind == KEY { b.key = Some(key(any())) } }
            6 => { b.data.push(any()) }
            _ => b.head = arr(),
        }
    }
    while !crate::space::fits(&b.space) { b.space.pop(); }
    if b.kind == DATA { b.space.clear(); b.links.clear() }
    (a, b)
}
pub fn pubkey(p: &P) -> [u8; 32] { p.key.as_ref().map(|k| k.pubkey_bytes()).unwrap_or([0; 32]) }
pub fn enc(s: &[Vec<u8>]) -> Vec<u8> { s.iter().flat_map(|s| std::iter::once(s.len() as u8).chain(s.iter().copied())).collect() }
fn lists(a: &[Vec<u8>], b: &[Vec<u8>]) -> Ordering { enc(a).cmp(&enc(b)) }

contracts! {
    native build, unwind 1, bias 0 { built(false) }
    native limits, unwind 1, bias 0 { built(true) }
    native copies, unwind 1, bias 0 {
        let p = gen(kind(), false);
        let want = p.bytes();
        let ok = balanced(|| {
            let r = p.rspace();
            let parts = p.build(&r).unwrap();
            let boxed = parts.as_netbox();
            let arced = parts.as_netarc();
            let list: Vec<Box<dyn NetPkt>> = vec![Box::new(boxed.clone()), Box::new(arced.clone()), Box::new(boxed.as_netarc().as_netbox()), Box::new(boxed.thin_netpkt().as_netarc()), Box::new(arced.as_netbox())];
            for q in &list {
                same(&p, &**q);
                ensures!(q.byte_segments().to_bytes()[..] == want[..], "a copy has the same bytes");
            }
            ensures!(arced.refcount() == 2, "a shared packet counts its holders");
            for q in [boxed.as_netparts(), arced.as_netparts()] { ensures!(q == parts, "the parts of a copy are the parts"); }
            ensures!(std::mem::size_of_val(&*boxed) >= want.len(), "a boxed packet is as large as its bytes");
            let raw = NetPktFatPtr::into_raw_box(boxed);
            ensures!(unsafe { &*raw }.as_netpkt_bytes() == want, "through a thin pointer too");
            drop(unsafe { NetPktFatPtr::from_raw_box(raw) });
            let raw = arced.into_raw_arc();
            let c = unsafe { &*raw }.with_arc(|a| a.clone());
            ensures!(c.as_netpkt_bytes() == want && c.refcount() == 3, "and through a thin shared one");
            let back = unsafe { NetPktArc::from_raw_arc(raw) };
            ensures!(back.as_netpkt_bytes() == want, "and back");
            drop(list);
            drop(c);
            ensures!(back.refcount() == 1, "dropping gives up what was held");
            at(&want, upto(7), |w| drop(read_pkt(w, true).map(|c| c.into_owned())));
        });
        ensures!(ok, "memory of a copied packet is freed as it was allocated");
    }
    native segments, unwind 1, bias 0 {
        let l: Vec<Vec<u8>> = (0..7).map(|_| (0..upto(4)).map(|_| any()).collect()).collect();
        let s = ByteSegments::from_array([&l[0][..], &l[1], &l[2], &l[3], &l[4], &l[5], &l[6]]);
        let want = l.concat();
        ensures!(s.len() == want.len() && s.is_empty() == want.is_empty() && s.size_hint() == (want.len(), Some(want.len())), "the number of bytes");
        ensures!(s.clone().collect::<Vec<u8>>() == want && s.clone().to_bytes()[..] == want[..], "the bytes in order");
        let mut o = vec![0xaau8; want.len() + 8];
        let e = unsafe { s.clone().write_segments_unchecked(o.as_mut_ptr()) };
        ensures!(e as usize == o.as_ptr() as usize + want.len() && o[..want.len()] == want[..] && o[want.len()..].iter().all(|b| *b == 0xaa), "written to memory");
        let mut o = vec![];
        ensures!(s.write_into(&mut o).is_ok() && o == want, "written to a file");
    }
    native read, unwind 1, bias 0 {
        let b = mangled();
        reads(&b);
        cover!(valid(&b, true).is_ok(), "a valid packet");
        cover!(valid(&b, false).is_ok() && valid(&b, true).is_err(), "a wrong hash");
    }
    native read_raw, unwind 1, bias 0 {
        let n = upto(400);
        let mut b: Vec<u8> = (0..n).map(|_| any()).collect();
        if n > 68 { b[64] = 0; b[65] = [1, 3, 7, 128][upto(3)]; b[66] = 0 }
        reads(&b);
    }
    native route, unwind 1, bias 0 {
        let p = gen(kind(), false);
        let r = p.rspace();
        let parts = p.build(&r).unwrap();
        let boxed = parts.as_netbox();
        let arced = parts.as_netarc();
        let (h, h2): ([u8; 32], [u8; 32]) = (any(), any());
        let mut a = ReroutePkt::new(parts);
        rerouted(&p, &p.head, &a);
        a.net_header = head(&h);
        rerouted(&p, &h, &a);
        rerouted(&p, &h2, &ReroutePkt { net_header: head(&h2), pkt: &a });
        rerouted(&p, &h, &ReroutePkt { net_header: head(&h), pkt: ReroutePkt { net_header: head(&h2), pkt: ReroutePkt::new(&a) } });
        rerouted(&p, &h, &boxed.thin_netpkt().reroute(head(&h)));
        rerouted(&p, &h, &ReroutePkt { net_header: head(&h), pkt: arced.clone() });
        rerouted(&p, &p.head, &arced);
        let mut c = boxed.clone();
        *c.net_header_mut().unwrap() = head(&h2);
        rerouted(&p, &h2, &c);
        ensures!(NetPktArc::from(&c as &dyn NetPkt).net_header().cinto() == h2, "a shared copy of it too");
        let st = Stamp::new(any());
        let v = RecvPkt { recv: st, pkt: &c };
        rerouted(&p, &h2, &v);
        ensures!(v.recv() == Some(st) && v.get_recv() == st, "the receive stamp is the one set");
        let o = RecvPkt { recv: st, pkt: &c }.owned();
        rerouted(&p, &h2, &o);
        ensures!(o.recv() == Some(st), "and kept by a copy");
        let s = ShareArcPkt::new(&boxed);
        rerouted(&p, &p.head, &s);
        let (x, y) = (s.as_netarc(), s.as_netarc());
        ensures!(std::ptr::eq(x.hash_ref(), y.hash_ref()) && std::ptr::eq(s.borrow_arc().hash_ref(), x.hash_ref()), "one point is shared");
        let q = ReroutePkt { net_header: head(&h), pkt: arced.clone() };
        ensures!(std::ptr::eq(q.hash_ref(), arced.hash_ref()), "rerouting shares the point");
        cover!(p.kind == KEY, "a keypoint");
    }
    native tree, unwind 1, bias 0 {
        let (a, b) = ordered();
        let mut es = vec![];
        let at: u64 = any();
        for p in [&a, &b] {
            let r = p.rspace();
            let q = p.build(&r).unwrap();
            let e = TreeEntry::from_pkt(Stamp::new(at), &q);
            ensures!(e.is_some() == p.has_links(), "exactly the points with a space have a tree key");
            if let Some(e) = &e {
                let k = &e.btree_key;
                ensures!(k.as_bytes() == [&p.group[..], &p.domain, &[p.space.len() as u8], &enc(&p.space), &pubkey(p)].concat(), "a tree key is group, domain, depth, space and key");
                let f = k.fields();
                ensures!(f.0 .0 == p.group && f.1 .0 == p.domain && f.2 as usize == p.space.len() && f.3.space_bytes() == enc(&p.space) && f.4 .0 == pubkey(p), "a tree key decodes to the packet's fields");
                ensures!(k.group().0 == p.group && k.domain().0 == p.domain && k.space_segments() as usize == p.space.len() && k.space().space_bytes() == enc(&p.space) && k.pubkey().0 == pubkey(p), "one by one");
                ensures!(e.hash().0 == p.hash() && e.create().get() == p.stamp && e.local_log_ptr().get() == at && e.data_size().get() as usize == p.data.len() && e.links_len().get() as usize == p.links.len(), "a tree entry decodes to the packet's fields");
                ensures!(TreeEntryRef::from_db((k.as_bytes(), &e.val)).to_owned() == *e, "read from the database it is the same");
                ensures!(TreeKey::new(k.as_bytes()).take() == k.as_bytes() && TreeKey::from(k.as_bytes()).map(|k| k.take()) == Some(k.as_bytes().to_vec()), "so is its key");
                let t = k.as_bytes().len() - upto(40);
                if let Some(short) = TreeKey::from(&k.as_bytes()[..t]) { let _ = short.fields(); }
            }
            es.push(e);
        }
        let key = |p: &P| (p.group, p.domain, p.space.len());
        let want = key(&a).cmp(&key(&b)).then(lists(&a.space, &b.space)).then(pubkey(&a).cmp(&pubkey(&b)));
        if let (Some(x), Some(y)) = (&es[0], &es[1]) {
            ensures!(x.btree_key.cmp(&y.btree_key) == want, "tree keys order by group, domain, depth, space and key");
        }
        let (ra, rb) = (a.rspace(), b.rspace());
        let (x, y) = (PktCmp(a.build(&ra).unwrap()), PktCmp(b.build(&rb).unwrap()));
        let full = match (a.has_links(), b.has_links()) {
            (true, true) => want.then(a.stamp.cmp(&b.stamp)).then(a.hash().cmp(&b.hash())),
            (false, false) => a.hash().cmp(&b.hash()),
            (l, _) => if l { Ordering::Less } else { Ordering::Greater },
        };
        ensures!(x.cmp(&y) == full && x.partial_cmp(&y) == Some(full) && y.cmp(&x) == full.reverse(), "packets order by tree key, then stamp, then hash; packets without one last");
        ensures!((x == y) == (a.hash() == b.hash()), "packets are equal when their hashes are");
        cover!(want == Ordering::Equal && a.has_links() && a.stamp != b.stamp, "one place in the tree");
    }
}
