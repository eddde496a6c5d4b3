//@include space_types.inc
// ASSUMED: the pointer casts between a byte slice and the transparent structs around one keep its bytes
#[verifier::external_body] pub const fn cast_space(b: &[u8]) -> (r: &Space) ensures by(r) == b@ { unimplemented!() }
#[verifier::external_body] pub fn cast_iter(b: &Space) -> (r: &SpaceIter) ensures by(&r.space) == by(b) { unimplemented!() }
#[verifier::external_body] pub const fn cast_checked(b: &Space) -> (r: &CheckedSpaceIter) ensures by(&r.space) == by(b) { unimplemented!() }
#[verifier::external_body] pub const fn cast_rest(b: &[u8]) -> (r: &CheckedSpaceIter) ensures by(&r.space) == b@ { unimplemented!() }
#[verifier::external_body] pub fn cast_none() -> (r: &'static CheckedSpaceIter) ensures by(&r.space) == Seq::<u8>::empty() { unimplemented!() }
/// ASSUMED: slice.get(1..=n), slice.get(n..): std, None when out of range
#[verifier::external_body] pub fn get_from_to(b: &[u8], n: usize) -> (r: Option<&[u8]>) requires n < usize::MAX ensures r is Some <==> n < b@.len(), r matches Some(x) ==> x@ == b@.subrange(1, n + 1) { unimplemented!() }
#[verifier::external_body] pub fn get_from(b: &[u8], n: usize) -> (r: Option<&[u8]>) ensures r is Some <==> n <= b@.len(), r matches Some(x) ==> x@ == b@.skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn to_u8(n: usize) -> (r: u8) requires n < 256 ensures r == n { unimplemented!() }
#[verifier::external_body] pub fn bytes_start_with(b: &[u8], p: &[u8]) -> (r: bool) ensures r == starts(b@, p@) { unimplemented!() }

pub trait Step<'a>: Sized {
    spec fn rest(&self) -> Seq<u8>;
    spec fn able(&self) -> bool;
    type Item;
    spec fn gives(&self, r: Option<Self::Item>, next: Seq<u8>) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).able(),
        ensures old(self).gives(r, final(self).rest());
}
impl<'a> Step<'a> for &'a SpaceIter {
    type Item = &'a [u8];
    open spec fn rest(&self) -> Seq<u8> { by(&self.space) }
    open spec fn able(&self) -> bool { wf(self.rest()) }
    /// the first segment, leaving the others
    open spec fn gives(&self, r: Option<&'a [u8]>, next: Seq<u8>) -> bool {
        match r {
            None => self.rest().len() == 0 && next == self.rest(),
            Some(x) => self.rest().len() > 0 && x@ == li(self.rest())[0] && wf(next) && li(next) == li(self.rest()).skip(1) && next == self.rest().skip(x@.len() as int + 1)
                && self.rest().len() > x@.len() && x@ == self.rest().subrange(1, x@.len() as int + 1),
        }
    }
    //@fn crates/pkt/src/space.rs next in impl<'a> Iterator for &'a SpaceIter
    //@pre &self\.space\.inner_bytes\.get\(1\.\.=len\)\? => get_from_to(&self.space.inner_bytes, len)? ## get of an inclusive range
    //@pre self\.space\.inner_bytes\.get\(len \+ 1\.\.\) => get_from(&self.space.inner_bytes, len + 1) ## get of a range
    //@pre usize::from\(self\.space\.inner_bytes\[0\]\) => (self.space.inner_bytes[0] as usize) ## usize::from(u8)
    //@pre panic!\("Invalid space"\) => vstd::pervasive::unreached::<()>() ## a panic, to be proved unreachable
    //@ret r
    //@contract
    //@before if self\.space
    proof { reveal_with_fuel(segs, 2); if self.rest().len() > 0 { head_tail(self.rest()); } }
    let ghost b0 = by(&self.space);
    //@end
}
impl Space {
    //@fn crates/pkt/src/space.rs from_unchecked in impl Space \{
    //@pre unsafe \{ &\*ptr::from_raw_parts\((\w+)\.as_ptr\(\)\.cast\(\), \1\.len\(\)\) \} => cast_space(\1) ## pointer cast of a byte slice (same bytes)
    //@ret r
    //@contract
        ensures by(r) == b@,
    //@end
    //@fn crates/pkt/src/space.rs space_bytes
    //@ret r
    //@contract
        ensures r@ == by(self),
    //@end
    //@fn crates/pkt/src/space.rs empty in impl Space \{
    //@ret r
    //@contract
        ensures by(r) == Seq::<u8>::empty(), wf(by(r)), li(by(r)).len() == 0, sp(by(r)),
    //@end
    //@fn crates/pkt/src/space.rs iter
    //@pre unsafe \{ &\*ptr::from_raw_parts\(ptr::from_ref\(self\)\.cast\(\), self\.inner_bytes\.len\(\)\) \} => cast_iter(self) ## pointer cast to the transparent iterator (same bytes)
    //@ret r
    //@contract
        ensures by(&r.space) == by(self), r.rest() == by(self), r.able() == wf(by(self)),
    //@end
    //@fn crates/pkt/src/space.rs is_empty
    //@ret r
    //@contract
        ensures r == (by(self).len() == 0), wf(by(self)) ==> r == (li(by(self)).len() == 0),
    //@before self\.inner
    proof { if wf(by(self)) { segs_flat(by(self)); } }
    //@end
    //@fn crates/pkt/src/space.rs size
    //@ret r
    //@contract
        ensures r == by(self).len(), wf(by(self)) ==> r == flat(li(by(self))).len(),
    //@before self\.inner
    proof { if wf(by(self)) { segs_flat(by(self)); } }
    //@end
    //@fn crates/pkt/src/space.rs checked_iter
    //@pre unsafe \{ &\*ptr::from_raw_parts\(ptr::from_ref\(self\)\.cast\(\), self\.inner_bytes\.len\(\)\) \} => cast_checked(self) ## pointer cast to the transparent iterator (same bytes)
    //@ret r
    //@contract
        ensures r is Ok <==> by(self).len() <= 242, r matches Ok(i) ==> by(&i.space) == by(self),
    //@end
    //@fn crates/pkt/src/space.rs check_components
    //@ret r
    //@contract
        ensures
            // accepted exactly when the bytes encode a list within the limits; the result is its length
            r is Ok <==> sp(by(self)),
            r matches Ok(n) ==> n == li(by(self)).len(),
    //@loop 1
        invariant
            by(self).len() <= 242, i <= 8, by(&iter.space).len() <= by(self).len(),
            wf(by(self)) == wf(by(&iter.space)),
            wf(by(self)) ==> li(by(self)).len() == i + li(by(&iter.space)).len(),
        ensures by(&iter.space).len() == 0,
        decreases by(&iter.space).len(),
    //@before i \+= 1
    proof { reveal_with_fuel(segs, 2); }
    //@after i \+= 1;
    proof { assert(wf(by(self)) ==> li(by(self)).len() == i + li(by(&iter.space)).len()); }
    //@end
    //@fn crates/pkt/src/space.rs byte_split_at
    //@ret r
    //@contract
        requires mid <= by(self).len(),
        ensures by(r.0) == by(self).take(mid as int), by(r.1) == by(self).skip(mid as int),
    //@end
    //@fn crates/pkt/src/space.rs byte_slice
    //@ret r
    //@contract
        requires i <= by(self).len(),
        ensures by(r) == by(self).skip(i as int),
    //@end
}
/// what the checked iterator's step gives
pub open spec fn stepped<T>(b: Seq<u8>, r: Option<Result<T, SpaceError>>) -> bool {
    &&& (r is None) == (b.len() == 0)
    &&& b.len() > 0 ==> (r->Some_0 is Ok) == (1 <= b[0] <= 200 && b[0] < b.len())
}
impl CheckedSpaceIter {
    //@fn crates/pkt/src/space.rs next_sp_c
    //@pre let rest: \*const Self = std::ptr::from_raw_parts\(rest\.as_ptr\(\)\.cast\(\), rest\.len\(\)\); => let rest = cast_rest(rest); ## pointer cast to the transparent iterator (same bytes)
    //@pre unsafe \{ &\*rest \} => rest ## likewise
    //@ret r
    //@contract
        ensures
            stepped(by(&self.space), r),
            r matches Some(Ok((s, t))) ==> by(s) == by(&self.space).take(by(&self.space)[0] + 1) && by(&t.space) == by(&self.space).skip(by(&self.space)[0] + 1),
    //@end
    //@fn crates/pkt/src/space.rs next_c
    //@ret r
    //@contract
        ensures
            stepped(by(&self.space), r),
            r matches Some(Ok((s, t))) ==> s@ == by(&self.space).subrange(1, by(&self.space)[0] + 1) && by(&t.space) == by(&self.space).skip(by(&self.space)[0] + 1),
    //@before match self
    proof { let b = by(&self.space); if b.len() > 0 && b[0] < b.len() { assert(b.take(b[0] + 1).skip(1) =~= b.subrange(1, b[0] + 1)); } }
    //@end
}
impl<'a> Step<'a> for &'a CheckedSpaceIter {
    type Item = Result<&'a [u8], SpaceError>;
    open spec fn rest(&self) -> Seq<u8> { by(&self.space) }
    open spec fn able(&self) -> bool { true }
    /// the first segment, leaving the others; an error ends the iteration
    open spec fn gives(&self, r: Option<Result<&'a [u8], SpaceError>>, next: Seq<u8>) -> bool {
        let b = self.rest();
        &&& stepped(b, r)
        &&& match r {
            None => next == b,
            Some(Err(_)) => next.len() == 0,
            Some(Ok(x)) => x@ == b.subrange(1, b[0] + 1) && next == b.skip(b[0] + 1) && (wf(b) == wf(next)) && (wf(b) ==> li(b) == seq![x@] + li(next)),
        }
    }
    //@fn crates/pkt/src/space.rs next in impl<'a> Iterator for &'a CheckedSpaceIter
    //@pre CheckedSpaceIter::EMPTY => cast_none() ## the constant empty iterator
    //@pre Option<Self::Item> => Option<Result<&'a [u8], SpaceError>> ## the associated type written out
    //@ret r
    //@contract
    //@before match self\.next_c
    proof { reveal_with_fuel(segs, 2); }
    //@end
}
//@need crates/pkt/src/space.rs pub const EMPTY: &'static Self =\s*unsafe \{ &\*ptr::from_raw_parts\(ptr::from_ref\(Space::empty\(\)\)\.cast\(\), 0\) \};
impl SpaceIter {
    //@fn crates/pkt/src/space.rs space in impl SpaceIter
    //@ret r
    //@contract
        ensures by(r) == by(&self.space),
    //@end
}
/// ASSUMED std: slice.split_first()
#[verifier::external_body] pub const fn split_first(b: &[u8]) -> (r: Option<(&u8, &[u8])>) ensures r is None <==> b@.len() == 0, r matches Some((x, t)) ==> *x == b@[0] && t@ == b@.skip(1) { unimplemented!() }
impl Space {
    //@fn crates/pkt/src/space.rs first
    //@pre self\.inner_bytes\.split_first\(\) => split_first(&self.inner_bytes) ## std
    //@ret r
    //@contract
        requires wf(by(self)),
        ensures li(by(self)).len() == 0 ==> r@.len() == 0, li(by(self)).len() > 0 ==> r@ == li(by(self))[0],
    //@before match
    proof { segs_flat(by(self)); let b = by(self); if b.len() > 0 { head_tail(b); assert(b.skip(1).take(b[0] as int) =~= b.subrange(1, b[0] + 1)); } }
    //@end
}
pub open spec fn vs(v: Seq<&[u8]>) -> L { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn vo(v: Seq<Vec<u8>>) -> L { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn front(l: L) -> L { l.take(if l.len() > 0 { l.len() - 1 } else { 0 }) }
// ---------------------------------------------------------------- the provided methods of Iterator, by their defining loops over next
/// count: the number of calls of next that give an item
pub fn count(it: &SpaceIter) -> (r: usize)
    requires it.able(),
    ensures r == li(it.rest()).len(),
{
    let mut it = it; let mut n = 0usize;
    let ghost b0 = it.rest();
    let _size = it.space.size();
    proof { segs_flat(b0); }
    while let Some(x) = it.next()
        invariant wf(it.rest()), n + li(it.rest()).len() == li(b0).len(), it.rest().len() <= b0.len(), b0.len() <= usize::MAX, li(b0).len() <= b0.len(),
        ensures li(it.rest()).len() == 0,
        decreases it.rest().len(),
    { n = n + 1; }
    n
}
/// last: the item of the last such call
pub fn last<'a>(it: &'a SpaceIter) -> (r: Option<&'a [u8]>)
    requires it.able(),
    ensures li(it.rest()).len() == 0 ==> r is None, li(it.rest()).len() > 0 ==> r is Some && r->Some_0@ == li(it.rest()).last(),
{
    let mut it = it; let mut o: Option<&'a [u8]> = None;
    let ghost b0 = it.rest();
    let ghost mut k = 0int;
    while let Some(x) = it.next()
        invariant wf(it.rest()), 0 <= k <= li(b0).len(), li(it.rest()) == li(b0).skip(k), k > 0 ==> o is Some && o->Some_0@ == li(b0)[k - 1], k == 0 ==> o is None,
        ensures li(it.rest()).len() == 0,
        decreases it.rest().len(),
    { proof { assert(li(b0).skip(k).skip(1) =~= li(b0).skip(k + 1)); k = k + 1; } o = Some(x); }
    o
}
/// collecting every item
pub fn collected<'a>(it: &'a SpaceIter) -> (r: Vec<&'a [u8]>)
    requires it.able(),
    ensures vs(r@) == li(it.rest()),
{
    let mut it = it;
    let mut o: Vec<&'a [u8]> = Vec::new();
    let ghost b0 = it.rest();
    proof { assert(li(b0).skip(0) =~= li(b0)); }
    while let Some(x) = it.next()
        invariant wf(it.rest()), o@.len() <= li(b0).len(), li(it.rest()) == li(b0).skip(o@.len() as int), forall|i: int| 0 <= i < o@.len() ==> (#[trigger] o@[i])@ == li(b0)[i],
        ensures li(it.rest()).len() == 0,
        decreases it.rest().len(),
    { proof { assert(li(b0).skip(o@.len() as int).skip(1) =~= li(b0).skip(o@.len() as int + 1)); assert(x@ == li(b0)[o@.len() as int]); } o.push(x); }
    proof { assert(vs(o@) =~= li(b0)); }
    o
}
