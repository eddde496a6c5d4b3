//! Stand-in for the (unavailable offline) triomphe fork: only what linkspace-pkt names.
#![feature(ptr_metadata)]
use std::sync::atomic::{AtomicUsize, Ordering};
use std::alloc::{alloc, dealloc, Layout};
#[repr(C)] pub struct HeaderSlice<H, T: ?Sized> { pub header: H, pub slice: T }
#[repr(C)] struct Inner<T: ?Sized> { count: AtomicUsize, data: T }
pub struct Arc<T: ?Sized> { p: std::ptr::NonNull<Inner<T>> }
unsafe impl<T: ?Sized + Send + Sync> Send for Arc<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for Arc<T> {}
impl<T: ?Sized> Arc<T> {
    pub fn count(this: &Self) -> usize { unsafe { this.p.as_ref().count.load(Ordering::SeqCst) } }
    pub fn heap_ptr(&self) -> *const () { self.p.as_ptr() as *const () }
    pub fn into_raw(this: Self) -> *const T { let r: *const T = unsafe { &this.p.as_ref().data }; std::mem::forget(this); r }
}
impl<H> Arc<HeaderSlice<H, [u8]>> {
    pub fn from_header_and_fn(h: H, n: usize, f: impl FnOnce(&mut [u8])) -> Self {
        unsafe {
            let (l, o1) = Layout::new::<AtomicUsize>().extend(Layout::new::<H>()).unwrap();
            let (l, o2) = l.extend(Layout::array::<u8>(n).unwrap()).unwrap();
            let l = l.pad_to_align();
            let p = alloc(l);
            (p as *mut AtomicUsize).write(AtomicUsize::new(1));
            (p.add(o1) as *mut H).write(h);
            std::ptr::write_bytes(p.add(o2), 0, n);
            f(std::slice::from_raw_parts_mut(p.add(o2), n));
            let fat: *mut Inner<HeaderSlice<H, [u8]>> = std::ptr::from_raw_parts_mut(p as *mut (), n);
            Arc { p: std::ptr::NonNull::new_unchecked(fat) }
        }
    }
}
impl<T: ?Sized> Clone for Arc<T> { fn clone(&self) -> Self { unsafe { self.p.as_ref().count.fetch_add(1, Ordering::SeqCst); } Arc { p: self.p } } }
impl<T: ?Sized> Drop for Arc<T> { fn drop(&mut self) { unsafe {
    if self.p.as_ref().count.fetch_sub(1, Ordering::SeqCst) == 1 {
        let l = Layout::for_value(self.p.as_ref()); std::ptr::drop_in_place(self.p.as_ptr()); dealloc(self.p.as_ptr() as *mut u8, l);
    } } } }
impl<T: ?Sized> std::ops::Deref for Arc<T> { type Target = T; fn deref(&self) -> &T { unsafe { &self.p.as_ref().data } } }
impl<T: ?Sized> std::fmt::Pointer for Arc<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Pointer::fmt(&(self.p.as_ptr() as *const ()), f) } }
