//! Verification model of secp256k1 0.20: which byte strings are keys, points and signatures is a
//! fixed predicate; the operations are uninterpreted functions of their operands and may fail.
#![allow(clippy::all)]
use std::marker::PhantomData;
use std::ops::{Index, RangeFull};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Error {
    InvalidSecretKey,
    InvalidPublicKey,
    InvalidSignature,
    InvalidTweak,
    NotEnoughMemory,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}

const ADD: u8 = 100;
const MUL: u8 = 101;
const EXP: u8 = 102;
const SUM: u8 = 104;

fn call(tag: u8, a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut i = [0; 64];
    i[..32].copy_from_slice(a);
    i[32..].copy_from_slice(b);
    let mut o = [0; 32];
    vru_uf::apply(tag, &i, &mut o);
    o
}
/// an operation that commutes
fn commute(tag: u8, a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut less = false;
    let mut i = 0;
    while i < 32 {
        less = a[i] < b[i] || a[i] == b[i] && less;
        i += 1;
    }
    let (mut x, mut y) = ([0; 32], [0; 32]);
    let mut i = 0;
    while i < 32 {
        x[i] = if less { a[i] } else { b[i] };
        y[i] = if less { b[i] } else { a[i] };
        i += 1;
    }
    call(tag, &x, &y)
}
fn word(b: &[u8]) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(b);
    a
}
/// which strings are scalars: not zero and below the order; here any fixed set
pub fn is_scalar(b: &[u8; 32]) -> bool {
    b[31] & 1 == 0
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        if b.len() != 32 || !is_scalar(&word(b)) {
            return Err(Error::InvalidSecretKey);
        }
        Ok(SecretKey(word(b)))
    }
    pub fn add_assign(&mut self, other: &[u8]) -> Result<(), Error> {
        self.apply(ADD, other)
    }
    pub fn mul_assign(&mut self, other: &[u8]) -> Result<(), Error> {
        self.apply(MUL, other)
    }
    fn apply(&mut self, tag: u8, other: &[u8]) -> Result<(), Error> {
        if other.len() != 32 {
            return Err(Error::InvalidTweak);
        }
        let r = commute(tag, &self.0, &word(other));
        if !is_scalar(&r) {
            return Err(Error::InvalidTweak);
        }
        self.0 = r;
        Ok(())
    }
}
impl AsRef<[u8]> for SecretKey {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl Index<RangeFull> for SecretKey {
    type Output = [u8];
    fn index(&self, _: RangeFull) -> &[u8] {
        &self.0
    }
}

pub mod key {
    pub use super::{PublicKey, SecretKey};
    const fn one() -> [u8; 32] {
        let mut b = [0; 32];
        b[31] = 1;
        b
    }
    pub const ONE_KEY: SecretKey = SecretKey(one());
}
pub use key::ONE_KEY;
pub mod constants {
    pub const GENERATOR_X: [u8; 32] = [
        0x79, 0xBE, 0x66, 0x7E, 0xF9, 0xDC, 0xBB, 0xAC, 0x55, 0xA0, 0x62, 0x95, 0xCE, 0x87, 0x0B, 0x07, 0x02, 0x9B, 0xFC, 0xDB, 0x2D, 0xCE,
        0x28, 0xD9, 0x59, 0xF2, 0x81, 0x5B, 0x16, 0xF8, 0x17, 0x98,
    ];
    pub const GENERATOR_Y: [u8; 32] = [
        0x48, 0x3A, 0xDA, 0x77, 0x26, 0xA3, 0xC4, 0x65, 0x5D, 0xA4, 0xFB, 0xFC, 0x0E, 0x11, 0x08, 0xA8, 0xFD, 0x17, 0xB4, 0x48, 0xA6, 0x85,
        0x54, 0x19, 0x9C, 0x47, 0xD0, 0x8F, 0xFB, 0x10, 0xD4, 0xB8,
    ];
}
fn eq(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let mut d = 0;
    let mut i = 0;
    while i < 32 {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
/// the two ordinates of an abscissa, if it has any
pub fn ordinate(x: &[u8; 32], odd: u8) -> Option<[u8; 32]> {
    let mut y = if eq(x, &constants::GENERATOR_X) {
        constants::GENERATOR_Y
    } else if x[31] & 1 == 0 {
        *x
    } else {
        return None;
    };
    y[31] = y[31] & 0xfe | odd & 1;
    Some(y)
}
pub fn is_point(x: &[u8; 32], y: &[u8; 32]) -> bool {
    match ordinate(x, y[31] & 1) {
        Some(o) => eq(&o, y),
        None => false,
    }
}
/// coordinates
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct PublicKey(pub [u8; 32], pub [u8; 32]);
/// some point, from uninterpreted bytes
pub fn point(mut b: [u8; 32]) -> PublicKey {
    let odd = b[31] & 1;
    b[31] &= 0xfe;
    let y = ordinate(&b, odd).unwrap_or([0; 32]);
    PublicKey(b, y)
}
impl PublicKey {
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> {
        if b.len() == 65 && b[0] == 4 {
            let (x, y) = (word(&b[1..33]), word(&b[33..]));
            if is_point(&x, &y) {
                return Ok(PublicKey(x, y));
            }
        } else if b.len() == 33 && (b[0] == 2 || b[0] == 3) {
            let x = word(&b[1..]);
            if let Some(y) = ordinate(&x, b[0] & 1) {
                return Ok(PublicKey(x, y));
            }
        }
        Err(Error::InvalidPublicKey)
    }
    pub fn serialize(&self) -> [u8; 33] {
        let mut b = [0; 33];
        b[0] = 2 | self.1[31] & 1;
        b[1..].copy_from_slice(&self.0);
        b
    }
    pub fn serialize_uncompressed(&self) -> [u8; 65] {
        let mut b = [0; 65];
        b[0] = 4;
        b[1..33].copy_from_slice(&self.0);
        b[33..].copy_from_slice(&self.1);
        b
    }
    fn id(&self) -> [u8; 32] {
        let mut b = self.0;
        b[31] ^= self.1[31] & 1;
        b
    }
    pub fn mul_assign<C>(&mut self, _: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        if other.len() != 32 {
            return Err(Error::InvalidTweak);
        }
        // (queried before the test, so that the number of queries does not depend on it)
        let r = point(call(EXP, &self.id(), &word(other)));
        if !is_scalar(&word(other)) {
            return Err(Error::InvalidTweak);
        }
        *self = r;
        Ok(())
    }
    pub fn combine_keys(keys: &[&PublicKey]) -> Result<PublicKey, Error> {
        match keys {
            [a, b] => a.combine(b),
            _ => panic!("model limit: sum of two points"),
        }
    }
    pub fn combine(&self, other: &PublicKey) -> Result<PublicKey, Error> {
        let r = point(commute(SUM, &self.id(), &other.id()));
        // the sum of a point and its negative is no point
        if eq(&self.0, &other.0) && self.1[31] & 1 != other.1[31] & 1 {
            return Err(Error::InvalidPublicKey);
        }
        Ok(r)
    }
}
pub struct VerifyOnly;
pub struct SignOnly;
pub struct All;
pub struct Secp256k1<C>(PhantomData<C>);
impl Secp256k1<VerifyOnly> {
    pub fn verification_only() -> Self {
        Secp256k1(PhantomData)
    }
}
impl Secp256k1<SignOnly> {
    pub fn signing_only() -> Self {
        Secp256k1(PhantomData)
    }
}
impl Secp256k1<All> {
    pub fn new() -> Self {
        Secp256k1(PhantomData)
    }
}
/// both halves are below the order; here any fixed set
pub fn is_signature(b: &[u8]) -> bool {
    b[0] & 0x80 == 0 && b[32] & 0x80 == 0
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Signature([u8; 32], [u8; 32]);
impl Signature {
    pub fn from_compact(b: &[u8]) -> Result<Self, Error> {
        if b.len() != 64 || !is_signature(b) {
            return Err(Error::InvalidSignature);
        }
        Ok(Signature(word(&b[..32]), word(&b[32..])))
    }
    pub fn serialize_compact(&self) -> [u8; 64] {
        let mut b = [0; 64];
        b[..32].copy_from_slice(&self.0);
        b[32..].copy_from_slice(&self.1);
        b
    }
}
