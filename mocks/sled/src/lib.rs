//! Verification model of sled 0.34: one map per process.  Every operation may fail; what was written
//! is certain to survive a crash only after a successful flush.
#![allow(static_mut_refs)]
use std::ops::Deref;
use std::path::Path;

pub const KEYS: usize = 2;
pub const KEY: usize = 16;
pub const VALUE: usize = 96;

#[derive(Clone, Copy)]
struct Slot {
    used: bool,
    key_len: usize,
    key: [u8; KEY],
    value: Option<(usize, [u8; VALUE])>,
    durable: Option<(usize, [u8; VALUE])>,
}
const FREE: Slot = Slot { used: false, key_len: 0, key: [0; KEY], value: None, durable: None };
static mut MAP: [Slot; KEYS] = [FREE; KEYS];
/// operations that fail, by position
pub static mut FAILS: [bool; 16] = [false; 16];
pub static mut STEP: usize = 0;
pub static mut FAILED: bool = false;

macro_rules! limit {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::assert($c, $m);
        #[cfg(not(kani))]
        vnd::assume($c);
    }};
}
pub fn reset(fails: [bool; 16]) {
    unsafe {
        MAP = [FREE; KEYS];
        FAILS = fails;
        STEP = 0;
        FAILED = false;
    }
}
/// a crash: what was not flushed is there or not
pub fn crash(lost: bool) {
    unsafe {
        let mut i = 0;
        while i < KEYS {
            if lost {
                MAP[i].value = MAP[i].durable;
            } else {
                MAP[i].durable = MAP[i].value;
            }
            i += 1;
        }
    }
}
fn step() -> Result<()> {
    unsafe {
        limit!(STEP < 16, "model limit: operations");
        STEP += 1;
        if FAILS[STEP - 1] {
            FAILED = true;
            return Err(Error::Io);
        }
    }
    Ok(())
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Error {
    Io,
    Unsupported(String),
    ReportableBug(String),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone)]
pub struct IVec {
    len: usize,
    bytes: [u8; VALUE],
}
impl From<&[u8]> for IVec {
    fn from(b: &[u8]) -> Self {
        limit!(b.len() <= VALUE, "model limit: size of a value");
        let mut bytes = [0; VALUE];
        bytes[..b.len()].copy_from_slice(b);
        IVec { len: b.len(), bytes }
    }
}
impl From<Vec<u8>> for IVec {
    fn from(b: Vec<u8>) -> Self {
        IVec::from(&b[..])
    }
}
impl From<&str> for IVec {
    fn from(b: &str) -> Self {
        IVec::from(b.as_bytes())
    }
}
impl Deref for IVec {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.bytes[..self.len]
    }
}
impl AsRef<[u8]> for IVec {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
#[derive(Clone)]
pub struct Db;
pub fn open<P: AsRef<Path>>(_: P) -> Result<Db> {
    step()?;
    Ok(Db)
}
fn slot(k: &[u8]) -> usize {
    limit!(k.len() <= KEY, "model limit: size of a key");
    let mut i = 0;
    while i < KEYS {
        let s = unsafe { &mut MAP[i] };
        if !s.used {
            s.used = true;
            s.key_len = k.len();
            s.key[..k.len()].copy_from_slice(k);
            return i;
        }
        if s.key_len == k.len() {
            let mut d = 0;
            let mut j = 0;
            while j < k.len() {
                d |= s.key[j] ^ k[j];
                j += 1;
            }
            if d == 0 {
                return i;
            }
        }
        i += 1;
    }
    limit!(false, "model limit: number of keys");
    0
}
fn vec(v: Option<(usize, [u8; VALUE])>) -> Option<IVec> {
    v.map(|(len, bytes)| IVec { len, bytes })
}
impl Db {
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        step()?;
        Ok(vec(unsafe { MAP[slot(k.as_ref())].value }))
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> Result<bool> {
        Ok(self.get(k)?.is_some())
    }
    pub fn insert<K: AsRef<[u8]>, V: Into<IVec>>(&self, k: K, v: V) -> Result<Option<IVec>> {
        step()?;
        let v = v.into();
        let s = unsafe { &mut MAP[slot(k.as_ref())] };
        let old = vec(s.value);
        s.value = Some((v.len, v.bytes));
        Ok(old)
    }
    pub fn remove<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        step()?;
        let s = unsafe { &mut MAP[slot(k.as_ref())] };
        let old = vec(s.value);
        s.value = None;
        Ok(old)
    }
    pub fn flush(&self) -> Result<usize> {
        step()?;
        let mut i = 0;
        while i < KEYS {
            unsafe { MAP[i].durable = MAP[i].value }
            i += 1;
        }
        Ok(0)
    }
}
