//! The KEM as key.rs sees it: keys and ciphertexts are their lines, every call is recorded and
//! returns what the harness has chosen (the real one is a function of the recorded arguments, C09).
#![allow(static_mut_refs)]
pub use pq_kem::Kem;
use rac::generic_array::{typenum::*, ArrayLength, GenericArray};
use rac::{Array, Line, LineValid};
use std::marker::PhantomData;
use std::ops::Mul;

pub struct Kyber<W>(PhantomData<W>);
pub type PkLength = <U32 as Mul<U34>>::Output;
#[derive(Clone)]
pub struct Bytes<N: ArrayLength<u8>>(pub Array<N>);
impl<N: ArrayLength<u8>> LineValid for Bytes<N> {
    type Length = N;
    fn try_clone_array(a: &Array<N>) -> Result<Self, ()> {
        Ok(Bytes(a.clone()))
    }
    fn clone_line(&self) -> Array<N> {
        self.0.clone()
    }
}
impl<N: ArrayLength<u8>> Line for Bytes<N> {
    fn clone_array(a: &Array<N>) -> Self {
        Bytes(a.clone())
    }
}
pub mod ghost {
    use rac::generic_array::typenum::Unsigned;
    pub const PK: usize = <super::PkLength as Unsigned>::USIZE;
    /// chosen results
    pub static mut PK_LINE: [u8; PK] = [0; PK];
    pub static mut SK_LINE: [u8; 32] = [0; 32];
    pub static mut CT: [u8; 32] = [0; 32];
    pub static mut SS: [u8; 32] = [0; 32];
    /// recorded calls
    pub static mut GEN_SEED: [u8; 64] = [0; 64];
    pub static mut SEED: [u8; 32] = [0; 32];
    pub static mut WITH_PK: [u8; PK] = [0; PK];
    pub static mut WITH_HASH: [u8; 32] = [0; 32];
    pub static mut WITH_SK: [u8; 32] = [0; 32];
    pub static mut WITH_CT: [u8; 32] = [0; 32];
    pub static mut CALLS: [usize; 3] = [0; 3];
}
use ghost::*;
impl<W> Kem for Kyber<W> {
    type PublicKey = Bytes<PkLength>;
    type SecretKey = Bytes<U32>;
    type CipherText = Bytes<U32>;
    type PairSeedLength = U64;
    type PublicKeyHashLength = U32;
    type EncapsulationSeedLength = U32;
    type SharedSecretLength = U32;

    fn generate_pair(seed: &GenericArray<u8, U64>) -> (Self::PublicKey, Self::SecretKey) {
        unsafe {
            CALLS[0] += 1;
            GEN_SEED.copy_from_slice(seed);
            (Bytes(Array::clone_from_slice(&PK_LINE)), Bytes(Array::clone_from_slice(&SK_LINE)))
        }
    }
    fn encapsulate(seed: &GenericArray<u8, U32>, pk: &Self::PublicKey, hash: &GenericArray<u8, U32>) -> (Self::CipherText, GenericArray<u8, U32>) {
        unsafe {
            CALLS[1] += 1;
            SEED.copy_from_slice(seed);
            WITH_PK.copy_from_slice(&pk.0);
            WITH_HASH.copy_from_slice(hash);
            (Bytes(Array::clone_from_slice(&CT)), Array::clone_from_slice(&SS))
        }
    }
    fn decapsulate(sk: &Self::SecretKey, pk: &Self::PublicKey, hash: &GenericArray<u8, U32>, ct: &Self::CipherText) -> GenericArray<u8, U32> {
        unsafe {
            CALLS[2] += 1;
            WITH_SK.copy_from_slice(&sk.0);
            WITH_PK.copy_from_slice(&pk.0);
            WITH_HASH.copy_from_slice(hash);
            WITH_CT.copy_from_slice(&ct.0);
            Array::clone_from_slice(&SS)
        }
    }
}
