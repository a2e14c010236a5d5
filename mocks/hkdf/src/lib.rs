//! Contract of HKDF: the pseudorandom key is a function of (salt, input), the output a prefix of a
//! stream that is a function of (key, info).  At most 64 bytes of output.
use digest::generic_array::{typenum::Unsigned, GenericArray};
use digest::{BlockInput, FixedOutput, Reset, Update};
use std::marker::PhantomData;

pub use hmac;
pub const EXTRACT: u8 = 50;
pub const EXPAND: u8 = 51;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct InvalidPrkLength;
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct InvalidLength;

#[derive(Clone)]
pub struct Hkdf<D>
where
    D: Update + BlockInput + FixedOutput + Reset + Default + Clone,
{
    prk: GenericArray<u8, D::OutputSize>,
    _p: PhantomData<D>,
}

fn join(a: &[u8], b: &[u8]) -> ([u8; 96], usize) {
    let mut v = [0; 96];
    v[0] = a.len() as u8;
    v[1..1 + a.len()].copy_from_slice(a);
    v[1 + a.len()..1 + a.len() + b.len()].copy_from_slice(b);
    (v, 1 + a.len() + b.len())
}
/// the specification the harnesses compare with
pub fn extract(salt: &[u8], ikm: &[u8], prk: &mut [u8]) {
    let (i, n) = join(salt, ikm);
    vru_uf::apply(EXTRACT, &i[..n], prk)
}
pub fn expand(prk: &[u8], info: &[u8], out: &mut [u8]) {
    let (i, n) = join(prk, info);
    vru_uf::apply(EXPAND, &i[..n], out)
}

impl<D> Hkdf<D>
where
    D: Update + BlockInput + FixedOutput + Reset + Default + Clone,
{
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        Self::extract(salt, ikm).1
    }
    pub fn from_prk(prk: &[u8]) -> Result<Self, InvalidPrkLength> {
        if prk.len() < D::OutputSize::USIZE {
            return Err(InvalidPrkLength);
        }
        let mut p = GenericArray::default();
        p.copy_from_slice(&prk[..D::OutputSize::USIZE]);
        Ok(Hkdf { prk: p, _p: PhantomData })
    }
    pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> (GenericArray<u8, D::OutputSize>, Self) {
        let zero = GenericArray::<u8, D::OutputSize>::default();
        let mut prk = GenericArray::default();
        extract(salt.unwrap_or(&zero), ikm, &mut prk);
        (prk.clone(), Hkdf { prk, _p: PhantomData })
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        if okm.len() > D::OutputSize::USIZE * 255 {
            return Err(InvalidLength);
        }
        expand(&self.prk, info, okm);
        Ok(())
    }
}
