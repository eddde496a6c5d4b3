// ---------------------------------------------------------------- text as its bytes (stand-in for String, str and Cow<str>)
pub struct Text { pub v: Vec<u8> }
impl View for Text { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.v@ } }
pub trait Shown { spec fn shown(&self) -> Seq<u8>; fn put(&self, out: &mut Vec<u8>) ensures final(out)@ == old(out)@ + self.shown(); }
impl Shown for Text { open spec fn shown(&self) -> Seq<u8> { self@ } fn put(&self, out: &mut Vec<u8>) { out.extend_from_slice(self.v.as_slice()); } }
impl Shown for &[u8] { open spec fn shown(&self) -> Seq<u8> { self@ } fn put(&self, out: &mut Vec<u8>) { out.extend_from_slice(self); } }
/// ASSUMED: unsigned integers print as their shortest decimal form
impl Shown for usize { open spec fn shown(&self) -> Seq<u8> { dec(*self as int) } #[verifier::external_body] fn put(&self, out: &mut Vec<u8>) { unimplemented!() } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<u8> { dec(*self as int) } #[verifier::external_body] fn put(&self, out: &mut Vec<u8>) { unimplemented!() } }
pub fn fmt_new() -> (r: Text) ensures r@ == Seq::<u8>::empty() { Text { v: Vec::new() } }
impl Text {
    pub fn new() -> (r: Text) ensures r@ == Seq::<u8>::empty() { Text { v: Vec::new() } }
    pub fn with_capacity(_n: usize) -> (r: Text) ensures r@ == Seq::<u8>::empty() { Text { v: Vec::new() } }
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { self.v }
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { self.v.as_slice() }
    pub fn into_owned(self) -> (r: Text) ensures r@ == self@ { self }
    pub fn append_(&mut self, t: Text) ensures final(self)@ == old(self)@ + t@ { self.v.extend_from_slice(t.v.as_slice()); }
    pub fn lit(self, b: &[u8]) -> (r: Text) ensures r@ == self@ + b@ { let mut t = self; t.v.extend_from_slice(b); t }
    pub fn arg<S: Shown>(self, s: &S) -> (r: Text) ensures r@ == self@ + s.shown() { let mut t = self; s.put(&mut t.v); t }
    /// ASSUMED: {:08b} prints a byte as eight binary digits, {:02X} as two hex digits
    #[verifier::external_body]
    pub fn arg_08b(self, s: &&u8) -> (r: Text) ensures r@ == self@ + bits(**s) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg_02X(self, s: &&u8) -> (r: Text) ensures r@ == self@ + hex2(**s) { unimplemented!() }
    /// ASSUMED: {:0>8b} does too
    #[verifier::external_body]
    pub fn arg_0_3e_8b(self, s: &u8) -> (r: Text) ensures r@ == self@ + bits(*s) { unimplemented!() }
}
