//! Stand-in for LMDB: an ordered multimap in memory with the documented behaviour of the calls linkspace makes.
//! One writer at a time; a transaction's changes are seen by others all at once when it is committed, or never.
//! `fault` makes the n-th call that can fail do so, as when the process is killed there or the disk is full.
#![allow(non_camel_case_types, clippy::all)]
use std::cell::{Cell, UnsafeCell};
use std::os::raw::{c_int, c_uint, c_void};
use std::sync::{Arc, Mutex};

pub const MDB_SUCCESS: c_int = 0;
pub const MDB_KEYEXIST: c_int = -30799;
pub const MDB_NOTFOUND: c_int = -30798;
pub const EINVAL: c_int = 22;
pub const ENOSPC: c_int = 28;
pub const MDB_INTEGERKEY: c_uint = 0x08;
pub const MDB_DUPSORT: c_uint = 0x04;
pub const MDB_DUPFIXED: c_uint = 0x10;
pub const MDB_NOOVERWRITE: c_uint = 0x10;
pub const MDB_NODUPDATA: c_uint = 0x20;
pub const MDB_RESERVE: c_uint = 0x10000;
pub const MDB_APPEND: c_uint = 0x20000;
pub type MDB_cursor_op = c_uint;
pub const MDB_FIRST: c_uint = 0;
pub const MDB_GET_BOTH: c_uint = 2;
pub const MDB_GET_CURRENT: c_uint = 4;
pub const MDB_LAST: c_uint = 6;
pub const MDB_LAST_DUP: c_uint = 7;
pub const MDB_NEXT: c_uint = 8;
pub const MDB_NEXT_DUP: c_uint = 9;
pub const MDB_NEXT_NODUP: c_uint = 11;
pub const MDB_PREV: c_uint = 12;
pub const MDB_PREV_DUP: c_uint = 13;
pub const MDB_PREV_NODUP: c_uint = 14;
pub const MDB_SET: c_uint = 15;
pub const MDB_SET_KEY: c_uint = 16;
pub const MDB_SET_RANGE: c_uint = 17;
#[repr(C)] #[derive(Clone, Copy)] pub struct MDB_val { pub mv_size: usize, pub mv_data: *mut c_void }
#[repr(C)] #[derive(Debug, Clone, Copy, Default)] pub struct MDB_stat { pub ms_psize: c_uint, pub ms_depth: c_uint, pub ms_branch_pages: usize, pub ms_leaf_pages: usize, pub ms_overflow_pages: usize, pub ms_entries: usize }
#[repr(C)] #[derive(Debug, Clone, Copy)] pub struct MDB_envinfo { pub me_mapaddr: *mut c_void, pub me_mapsize: usize, pub me_last_pgno: usize, pub me_last_txnid: usize, pub me_maxreaders: c_uint, pub me_numreaders: c_uint }

thread_local! { static FAULT: Cell<i64> = Cell::new(-1); static CALLS: Cell<u64> = Cell::new(0); }
/// the call after n more ones fails (none when negative)
pub fn fault(n: i64) { FAULT.with(|f| f.set(n)); CALLS.with(|c| c.set(0)) }
/// calls since then that could fail
pub fn calls() -> u64 { CALLS.with(|c| c.get()) }
fn fails() -> bool {
    CALLS.with(|c| c.set(c.get() + 1));
    FAULT.with(|f| { let n = f.get(); if n == 0 { f.set(-1); true } else { if n > 0 { f.set(n - 1) } false } })
}
/// bytes at an address that is a multiple of 8 and stays
#[derive(Clone)]
pub struct Bytes { words: Arc<UnsafeCell<Vec<u64>>>, len: usize }
unsafe impl Send for Bytes {}
unsafe impl Sync for Bytes {}
impl Bytes {
    pub fn zeros(len: usize) -> Bytes { Bytes { words: Arc::new(UnsafeCell::new(vec![0u64; len / 8 + 1])), len } }
    pub fn of(b: &[u8]) -> Bytes { let r = Bytes::zeros(b.len()); unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), r.ptr(), b.len()) } r }
    pub fn ptr(&self) -> *mut u8 { unsafe { (*self.words.get()).as_mut_ptr().cast() } }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.ptr(), self.len) } }
}
#[derive(Clone, Default)]
pub struct Db { pub name: String, pub flags: c_uint, pub rows: Vec<(Bytes, Bytes)> }
impl Db {
    pub fn cmp(&self, a: &[u8], b: &[u8]) -> std::cmp::Ordering {
        if self.flags & MDB_INTEGERKEY != 0 { let f = |x: &[u8]| u64::from_ne_bytes(x.try_into().expect("an integer key has 8 bytes")); f(a).cmp(&f(b)) } else { a.cmp(b) }
    }
    fn lower(&self, k: &[u8]) -> usize { self.rows.partition_point(|r| self.cmp(r.0.get(), k).is_lt()) }
    fn key(&self, i: usize) -> &[u8] { self.rows[i].0.get() }
    fn same(&self, i: usize, j: usize) -> bool { j < self.rows.len() && self.key(i) == self.key(j) }
}
#[derive(Default)] pub struct MDB_env { pub state: Mutex<Arc<Vec<Db>>>, pub writer: Mutex<bool> }
pub struct MDB_txn { pub env: Arc<MDB_env>, pub state: UnsafeCell<Arc<Vec<Db>>>, pub write: bool }
pub struct MDB_cursor { pub txn: *const MDB_txn, pub dbi: usize, pub at: Cell<Option<usize>>, pub end: Cell<bool> }
impl MDB_txn {
    pub fn dbs(&self) -> &Vec<Db> { unsafe { &*self.state.get() } }
    fn dbs_mut(&self) -> &mut Vec<Db> { unsafe { Arc::make_mut(&mut *self.state.get()) } }
    pub fn begin(env: &Arc<MDB_env>, write: bool) -> Result<MDB_txn, c_int> {
        if fails() { return Err(ENOSPC) }
        if write { let mut w = env.writer.lock().unwrap(); assert!(!*w, "a second write transaction of one thread would wait for ever"); *w = true; }
        let s = env.state.lock().unwrap().clone();
        Ok(MDB_txn { env: env.clone(), state: UnsafeCell::new(s), write })
    }
    pub fn commit(self) -> c_int {
        if self.write { if fails() { return ENOSPC } *self.env.state.lock().unwrap() = unsafe { (*self.state.get()).clone() }; }
        MDB_SUCCESS
    }
}
impl Drop for MDB_txn { fn drop(&mut self) { if self.write { *self.env.writer.lock().unwrap() = false } } }
impl MDB_cursor {
    pub fn db(&self) -> &Db { unsafe { &(&(*self.txn).dbs())[self.dbi] } }
    /// moves as asked: the row then under the cursor
    pub fn go(&self, key: Option<&[u8]>, op: c_uint) -> Result<usize, c_int> {
        if fails() { return Err(ENOSPC) }
        let d = self.db(); let n = d.rows.len();
        let none = |end: bool| { if end { self.at.set(None) } Err(MDB_NOTFOUND) };
        let set = |i: usize| { self.at.set(Some(i)); self.end.set(false); Ok(i) };
        let key = || key.expect("this operation needs a key");
        match (op, self.at.get()) {
            (MDB_FIRST, _) | (MDB_NEXT | MDB_NEXT_DUP | MDB_NEXT_NODUP, None) => if n == 0 { none(true) } else { set(0) },
            (MDB_LAST, _) | (MDB_PREV | MDB_PREV_DUP | MDB_PREV_NODUP, None) => if n == 0 { none(true) } else { set(n - 1) },
            (MDB_SET | MDB_SET_KEY, _) => { let i = d.lower(key()); if i < n && d.cmp(d.key(i), key()).is_eq() { set(i) } else { none(true) } }
            (MDB_SET_RANGE, _) => { let i = d.lower(key()); if i < n { set(i) } else { none(true) } }
            (MDB_GET_CURRENT, Some(i)) => if i < n { Ok(i) } else { Err(EINVAL) },
            (MDB_GET_CURRENT, None) => Err(EINVAL),
            (MDB_NEXT, Some(i)) => if i + 1 < n { set(i + 1) } else { none(false) },
            (MDB_PREV, Some(i)) => if i > 0 { set(i - 1) } else { none(false) },
            (MDB_NEXT_DUP, Some(i)) => if d.same(i, i + 1) { set(i + 1) } else { none(false) },
            (MDB_PREV_DUP, Some(i)) => if i > 0 && d.same(i, i - 1) { set(i - 1) } else { none(false) },
            (MDB_NEXT_NODUP, Some(mut i)) => { while d.same(i, i + 1) { i += 1 } if i + 1 < n { set(i + 1) } else { none(false) } }
            (MDB_LAST_DUP, Some(mut i)) => { while d.same(i, i + 1) { i += 1 } set(i) }
            (o, a) => panic!("operation {o} at {a:?} has no stand-in"),
        }
    }
    pub fn put(&self, key: &[u8], data: &[u8], flags: c_uint) -> Result<Bytes, c_int> {
        if fails() { return Err(ENOSPC) }
        let t = unsafe { &*self.txn }; assert!(t.write);
        let d = self.db(); let dup = d.flags & MDB_DUPSORT != 0; let n = d.rows.len();
        let i = d.lower(key); let here = i < n && d.cmp(d.key(i), key).is_eq();
        if flags & MDB_NOOVERWRITE != 0 && here { return Err(MDB_KEYEXIST) }
        if flags & MDB_APPEND != 0 && n > 0 && !d.cmp(d.key(n - 1), key).is_lt() { return Err(MDB_KEYEXIST) }
        let v = Bytes::of(data); let row = (Bytes::of(key), v.clone());
        let d = &mut t.dbs_mut()[self.dbi];
        if dup {
            let mut j = i; while j < d.rows.len() && d.rows[j].0.get() == key && d.rows[j].1.get() < data { j += 1 }
            if !(j < d.rows.len() && d.rows[j].0.get() == key && d.rows[j].1.get() == data) { d.rows.insert(j, row) }
            self.at.set(Some(j));
        } else { if here { d.rows[i] = row } else { d.rows.insert(i, row) } self.at.set(Some(i)); }
        Ok(v)
    }
}
pub unsafe fn mdb_cursor_put(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, flags: c_uint) -> c_int {
    let k = std::slice::from_raw_parts((*key).mv_data as *const u8, (*key).mv_size);
    let zeros; let d: &[u8] = if flags & MDB_RESERVE != 0 { zeros = vec![0u8; (*data).mv_size]; &zeros } else { std::slice::from_raw_parts((*data).mv_data as *const u8, (*data).mv_size) };
    match (*c).put(k, d, flags) { Ok(v) => { (*data).mv_data = v.ptr().cast(); MDB_SUCCESS } Err(e) => e }
}
pub unsafe fn mdb_txn_reset(_: *mut MDB_txn) {}
pub unsafe fn mdb_txn_renew(t: *mut MDB_txn) -> c_int { let s = (*t).env.state.lock().unwrap().clone(); *(*t).state.get() = s; MDB_SUCCESS }
pub unsafe fn mdb_env_get_fd(_: *const MDB_env, _: *mut c_int) -> c_int { EINVAL }
pub unsafe fn mdb_env_info(_: *const MDB_env, _: *mut MDB_envinfo) -> c_int { EINVAL }
pub unsafe fn mdb_stat(t: *const MDB_txn, dbi: c_uint, s: *mut MDB_stat) -> c_int { (*s) = MDB_stat { ms_entries: (&(*t).dbs())[dbi as usize].rows.len(), ..MDB_stat::default() }; MDB_SUCCESS }
pub unsafe fn mdb_version(_: *mut c_int, _: *mut c_int, _: *mut c_int) {}
