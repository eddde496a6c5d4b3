//! Nondeterministic values for contract harnesses.
//!
//! Under the verifier (`cfg(kani)`) `any` is a symbolic value of the whole type and `assume` is the contract's
//! precondition. Natively the same harness runs on the unmodified sources: the values come from a recorded
//! counterexample (replay) or from a seeded generator.
pub trait Nd: Sized { fn any() -> Self; }

#[cfg(kani)]
mod imp {
    use super::Nd;
    macro_rules! prim { ($($t:ty),*) => { $(impl Nd for $t { #[inline(always)] fn any() -> Self { kani::any() } })* } }
    prim!(u8, u16, u32, u64, u128, usize, i64, bool);
    impl<const N: usize> Nd for [u8; N] { #[inline(always)] fn any() -> Self { kani::any() } }
    #[inline(always)] pub fn assume(b: bool) { kani::assume(b) }
}

#[cfg(not(kani))]
mod imp {
    use super::Nd;
    use std::cell::RefCell;
    pub struct Discard;
    pub enum Src { Rng(u64), Replay(Vec<Vec<u8>>, usize) }
    pub struct St { pub src: Src, pub log: Vec<Vec<u8>>, pub covers: Vec<String>, pub checks: u64, pub bias: u8 }
    thread_local! { pub static ST: RefCell<St> = const { RefCell::new(St { src: Src::Rng(1), log: Vec::new(), covers: Vec::new(), checks: 0, bias: 0 }) }; }
    fn rnd(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn raw(n: usize, arr: bool) -> Vec<u8> {
        ST.with(|st| {
            let st = &mut *st.borrow_mut();
            let v = match &mut st.src {
                // the verifier records an array as one value per element
                Src::Replay(v, i) => { let mut x = v.get(*i).cloned().unwrap_or_default(); *i += 1; while arr && x.len() < n && *i < v.len() { x.extend_from_slice(&v[*i]); *i += 1 } x.resize(n, 0); x }
                Src::Rng(s) => {
                    let bias = st.bias;
                    let mut v = vec![0u8; n];
                    if arr {
                        for b in v.iter_mut() { *b = byte(s, bias) }
                        if rnd(s) % 6 == 0 { let k = rnd(s) as usize % (n + 1); let z = [0u8, 255][rnd(s) as usize % 2]; for b in v[..k].iter_mut() { *b = z } }
                    } else {
                        // little endian machine integer: biased to small, to powers of two, and to the extremes
                        match rnd(s) % 8 {
                            0 => { v[0] = (rnd(s) % 4) as u8 }
                            1 => { v.fill(255); v[0] = 255 - (rnd(s) % 4) as u8 }
                            2 => { let b = rnd(s) as usize % (n * 8); v[b / 8] |= 1 << (b % 8); if rnd(s) % 2 == 0 { for x in v[..b / 8].iter_mut() { *x = 255 } } }
                            3 | 4 => { v[0] = (rnd(s) % 24) as u8 }
                            5 if n > 1 => { v[0] = rnd(s) as u8; v[1] = (rnd(s) % 3) as u8 }
                            _ => { let k = rnd(s) as usize % n + 1; for x in v[..k].iter_mut() { *x = rnd(s) as u8 } }
                        }
                    }
                    v
                }
            };
            st.log.push(v.clone());
            v
        })
    }
    fn byte(s: &mut u64, bias: u8) -> u8 {
        const TXT: &[u8] = b"[]:/\\,xnrt0f012789aAbBfFgGzZ -_=@#u{}\n\t\r";
        match bias {
            0 => match rnd(s) % 4 { 0 => 0, 1 => [255u8, 254, 1, 2, 127, 128, b'\\', b'f'][rnd(s) as usize % 8], _ => rnd(s) as u8 },
            1 => TXT[rnd(s) as usize % TXT.len()],
            2 => b"[]:/\\a"[rnd(s) as usize % 6],
            _ => if rnd(s) % 3 == 0 { rnd(s) as u8 } else { TXT[rnd(s) as usize % TXT.len()] },
        }
    }
    macro_rules! prim { ($($t:ty),*) => { $(impl Nd for $t { fn any() -> Self { <$t>::from_le_bytes(raw(std::mem::size_of::<$t>(), std::mem::size_of::<$t>() == 1).try_into().unwrap()) } })* } }
    prim!(u8, u16, u32, u64, u128, usize, i64);
    impl Nd for bool { fn any() -> Self { raw(1, true)[0] & 1 == 1 } }
    impl<const N: usize> Nd for [u8; N] { fn any() -> Self { raw(N, true).try_into().unwrap() } }
    #[track_caller] pub fn assume(b: bool) { if !b { std::panic::panic_any(Discard) } }
}
pub use imp::*;

#[inline(always)] pub fn any<T: Nd>() -> T { T::any() }
/// An integer in 0..=hi (inclusive). Natively it is reduced modulo the range, which is the identity on a replayed
/// counterexample.
#[inline(always)]
pub fn upto(hi: usize) -> usize {
    let x: usize = any();
    #[cfg(kani)] { kani::assume(x <= hi); x }
    #[cfg(not(kani))] { if x <= hi { x } else { x % (hi + 1) } }
}
#[inline(always)]
pub fn below(hi: u64) -> u64 {
    let x: u64 = any();
    #[cfg(kani)] { kani::assume(x < hi); x }
    #[cfg(not(kani))] { if x < hi { x } else { x % hi } }
}
/// A byte string of symbolic length <= N (and symbolic content).
pub struct Buf<const N: usize> { pub arr: [u8; N], pub len: usize }
impl<const N: usize> Buf<N> { pub fn get(&self) -> &[u8] { &self.arr[..self.len] } }
#[inline(always)] pub fn buf<const N: usize>() -> Buf<N> { let arr = any(); let len = upto(N); Buf { arr, len } }

/// Reachability guard: the verifier must find a run that gets here with the condition true.
#[macro_export]
macro_rules! cover { ($c:expr, $m:literal) => {{
    #[cfg(kani)] { kani::cover!($c, $m); }
    #[cfg(not(kani))] { if $c { $crate::nd::ST.with(|s| { let s = &mut *s.borrow_mut(); if !s.covers.iter().any(|x| x == $m) { s.covers.push($m.to_string()) } }) } }
}} }
/// Postcondition.
#[macro_export]
macro_rules! ensures { ($c:expr, $m:literal) => {{
    #[cfg(kani)] { kani::assert($c, concat!("ensures: ", $m)); }
    #[cfg(not(kani))] { let c = $c; $crate::nd::ST.with(|s| s.borrow_mut().checks += 1); if !c { panic!(concat!("ensures: ", $m)) } }
}} }
#[macro_export]
macro_rules! requires { ($c:expr) => { $crate::nd::assume($c) } }
/// Declares contract harnesses.
///   full    : decided by the verifier for every input of the stated types (loop-free or constant-bounded loops with
///             unwinding assertions on)
///   bounded : decided by the verifier up to the length bound written in the harness
///   native  : executed contract only (bounded stand-in, never counted as proved)
#[macro_export]
macro_rules! contracts {
    ($($(#[$a:meta])* $kind:ident $name:ident, unwind $n:literal, bias $b:literal $body:block)*) => {
        $( $crate::contract_fn!{ $kind $(#[$a])* $name $n $body } )*
        #[cfg(not(kani))]
        pub const ALL: &[(&str, &str, u8, fn())] = &[$((stringify!($name), stringify!($kind), $b, $name)),*];
    };
}
#[macro_export]
macro_rules! contract_fn {
    (native $(#[$a:meta])* $name:ident $n:literal $body:block) => { #[cfg(not(kani))] pub fn $name() $body };
    ($kind:ident $(#[$a:meta])* $name:ident $n:literal $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($n))] $(#[cfg_attr(kani, $a)])* pub fn $name() $body
    };
}
