//! Stand-in for the Rust binding over the stand-in of LMDB.
use lmdb_sys as ffi;
use std::cell::Cell;
use std::marker::PhantomData;
use std::path::Path;
use std::sync::Arc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error { KeyExist, NotFound, Other(i32) }
impl Error { pub fn from_err_code(c: i32) -> Error { match c { ffi::MDB_KEYEXIST => Error::KeyExist, ffi::MDB_NOTFOUND => Error::NotFound, o => Error::Other(o) } } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn lmdb_result(c: i32) -> Result<()> { if c == ffi::MDB_SUCCESS { Ok(()) } else { Err(Error::from_err_code(c)) } }
macro_rules! flags { ($n:ident $($c:ident $v:expr),*) => {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct $n(u32);
    impl $n { pub const fn empty() -> Self { $n(0) } pub const fn bits(&self) -> u32 { self.0 } $(pub const $c: $n = $n($v);)* }
    impl std::ops::BitOr for $n { type Output = $n; fn bitor(self, o: $n) -> $n { $n(self.0 | o.0) } }
} }
flags! { EnvironmentFlags WRITE_MAP 0x80000, NO_TLS 0x200000 }
flags! { DatabaseFlags INTEGER_KEY ffi::MDB_INTEGERKEY, DUP_SORT ffi::MDB_DUPSORT, DUP_FIXED ffi::MDB_DUPFIXED }
flags! { WriteFlags NO_OVERWRITE ffi::MDB_NOOVERWRITE, NO_DUP_DATA ffi::MDB_NODUPDATA, APPEND ffi::MDB_APPEND }
#[derive(Clone, Copy, Debug)] pub struct Database(usize);
impl Database { pub fn dbi(&self) -> u32 { self.0 as u32 } }
pub struct EnvironmentBuilder;
impl EnvironmentBuilder {
    pub fn set_max_dbs(&mut self, _: u32) -> &mut Self { self }
    pub fn set_flags(&mut self, _: EnvironmentFlags) -> &mut Self { self }
    pub fn set_map_size(&mut self, _: usize) -> &mut Self { self }
    pub fn open(&self, _: &Path) -> Result<Environment> { Ok(Environment(Arc::new(ffi::MDB_env::default()))) }
}
pub struct Environment(Arc<ffi::MDB_env>);
impl Environment {
    #[allow(clippy::new_ret_no_self)] pub fn new() -> EnvironmentBuilder { EnvironmentBuilder }
    pub fn env(&self) -> *mut ffi::MDB_env { Arc::as_ptr(&self.0) as *mut _ }
    pub fn create_db(&self, name: Option<&str>, flags: DatabaseFlags) -> Result<Database> {
        let mut s = self.0.state.lock().unwrap(); let dbs = Arc::make_mut(&mut s); let name = name.unwrap_or("").to_owned();
        if let Some(i) = dbs.iter().position(|d| d.name == name) { return Ok(Database(i)) }
        dbs.push(ffi::Db { name, flags: flags.bits(), rows: vec![] }); Ok(Database(dbs.len() - 1))
    }
    fn begin(&self, w: bool) -> Result<Box<ffi::MDB_txn>> { ffi::MDB_txn::begin(&self.0, w).map(Box::new).map_err(Error::from_err_code) }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction<'_>> { Ok(RoTransaction(self.begin(false)?, PhantomData)) }
    pub fn begin_rw_txn(&self) -> Result<RwTransaction<'_>> { Ok(RwTransaction(self.begin(true)?, PhantomData)) }
}
pub trait Transaction: Sized {
    fn txn(&self) -> *mut ffi::MDB_txn;
    fn commit(self) -> Result<()>;
    fn open_ro_cursor(&self, db: Database) -> Result<RoCursor<'_>> { Ok(RoCursor::at(self.txn(), db)) }
}
pub struct RoTransaction<'e>(Box<ffi::MDB_txn>, PhantomData<&'e ()>);
pub struct RwTransaction<'e>(Box<ffi::MDB_txn>, PhantomData<&'e ()>);
pub struct InactiveTransaction<'e>(Box<ffi::MDB_txn>, PhantomData<&'e ()>);
impl<'e> Transaction for RoTransaction<'e> { fn txn(&self) -> *mut ffi::MDB_txn { &*self.0 as *const _ as *mut _ } fn commit(self) -> Result<()> { lmdb_result(self.0.commit()) } }
impl<'e> Transaction for RwTransaction<'e> { fn txn(&self) -> *mut ffi::MDB_txn { &*self.0 as *const _ as *mut _ } fn commit(self) -> Result<()> { lmdb_result(self.0.commit()) } }
impl<'e> RoTransaction<'e> { pub fn reset(self) -> InactiveTransaction<'e> { InactiveTransaction(self.0, PhantomData) } }
impl<'e> InactiveTransaction<'e> { pub fn renew(self) -> Result<RoTransaction<'e>> { let t = &*self.0 as *const _ as *mut _; lmdb_result(unsafe { ffi::mdb_txn_renew(t) })?; Ok(RoTransaction(self.0, PhantomData)) } }
pub struct RoCursor<'t>(Box<ffi::MDB_cursor>, PhantomData<&'t ()>);
impl<'t> RoCursor<'t> {
    fn at(txn: *mut ffi::MDB_txn, db: Database) -> RoCursor<'t> { RoCursor(Box::new(ffi::MDB_cursor { txn, dbi: db.0, at: Cell::new(None), end: Cell::new(false) }), PhantomData) }
    pub fn cursor(&self) -> *mut ffi::MDB_cursor { &*self.0 as *const _ as *mut _ }
    pub fn get(&self, key: Option<&[u8]>, _data: Option<&[u8]>, op: u32) -> Result<(Option<&'t [u8]>, &'t [u8])> {
        let i = self.0.go(key, op).map_err(Error::from_err_code)?;
        let (k, v) = &self.0.db().rows[i];
        let f = |b: &[u8]| -> &'t [u8] { unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) } };
        Ok((if matches!(op, ffi::MDB_SET | ffi::MDB_LAST_DUP) { None } else { Some(f(k.get())) }, f(v.get())))
    }
    pub fn iter_from<K: AsRef<[u8]>>(self, key: K) -> Iter<'t> {
        match self.get(Some(key.as_ref()), None, ffi::MDB_SET_RANGE) { Ok(_) | Err(Error::NotFound) => (), Err(e) => return Iter::Err(e) }
        Iter::Ok { cursor: self, op: ffi::MDB_GET_CURRENT, next_op: ffi::MDB_NEXT }
    }
}
pub enum Iter<'t> { Err(Error), Ok { cursor: RoCursor<'t>, op: u32, next_op: u32 } }
impl<'t> Iterator for Iter<'t> {
    type Item = Result<(&'t [u8], &'t [u8])>;
    fn next(&mut self) -> Option<Self::Item> {
        match self {
            Iter::Err(e) => Some(Err(*e)),
            Iter::Ok { cursor, op, next_op } => {
                let o = std::mem::replace(op, *next_op);
                match cursor.get(None, None, o) { Ok((k, v)) => Some(Ok((k.unwrap(), v))), Err(Error::NotFound) | Err(Error::Other(ffi::EINVAL)) => None, Err(e) => Some(Err(e)) }
            }
        }
    }
}
pub struct RwCursor<'t>(RoCursor<'t>);
impl<'t> RwCursor<'t> {
    pub fn new<'e>(txn: &'t RwTransaction<'e>, db: Database) -> Result<RwCursor<'t>> { Ok(RwCursor(RoCursor::at(txn.txn(), db))) }
    pub fn ro(&self) -> &RoCursor<'t> { &self.0 }
    pub fn put<K: AsRef<[u8]> + ?Sized, D: AsRef<[u8]> + ?Sized>(&mut self, key: &K, data: &D, flags: WriteFlags) -> Result<()> { self.0 .0.put(key.as_ref(), data.as_ref(), flags.bits()).map(|_| ()).map_err(Error::from_err_code) }
}
