//! Contract of the public-key encryption: three uninterpreted functions of exactly their
//! arguments.  Keys and ciphertexts have an in-memory part that their line does not carry.
use core::marker::PhantomData;
use rac::generic_array::{
    typenum::{U3, U32, U4},
    GenericArray,
};
use rac::{Concat, Line, LineValid};
use vru_uf::apply;

pub type C = Concat<GenericArray<u8, U32>, GenericArray<u8, U32>>;

macro_rules! object {
    ($name:ident, $len:ty, $n:expr) => {
        #[derive(Clone)]
        pub struct $name<S, W> {
            pub line: [u8; $n],
            pub extra: u8,
            _p: PhantomData<(S, W)>,
        }
        impl<S, W> $name<S, W> {
            pub fn new(line: [u8; $n], extra: u8) -> Self {
                $name { line, extra, _p: PhantomData }
            }
        }
        impl<S, W> LineValid for $name<S, W> {
            type Length = $len;
            fn try_clone_array(a: &GenericArray<u8, $len>) -> Result<Self, ()> {
                let mut line = [0; $n];
                line.copy_from_slice(a);
                Ok(Self::new(line, 0))
            }
            fn clone_line(&self) -> GenericArray<u8, $len> {
                GenericArray::clone_from_slice(&self.line)
            }
        }
        impl<S, W> Line for $name<S, W> {
            fn clone_array(a: &GenericArray<u8, $len>) -> Self {
                Self::try_clone_array(a).unwrap()
            }
        }
    };
}
object!(SecretKey, U3, 3);
object!(PublicKey, U4, 4);
object!(CipherText, U4, 4);

pub const PAIR: u8 = 20;
pub const ENC: u8 = 21;
pub const DEC: u8 = 22;

pub fn key_pair<S, W>(seed: &GenericArray<u8, U32>) -> (SecretKey<S, W>, PublicKey<S, W>) {
    let mut o = [0; 7];
    apply(PAIR, seed, &mut o);
    (SecretKey::new([o[0], o[1], o[2]], 0), PublicKey::new([o[3], o[4], o[5], o[6]], 0))
}
pub fn enc_input<W>(noise: &[u8], message: &[u8], pk: &PublicKey<U32, W>) -> [u8; 68] {
    let mut i = [0; 68];
    i[..32].copy_from_slice(noise);
    i[32..64].copy_from_slice(message);
    i[64..].copy_from_slice(&pk.line);
    i
}
/// `extra` is what compression loses
pub fn encapsulate<W>(
    noise: &GenericArray<u8, U32>,
    message: &GenericArray<u8, U32>,
    pk: &PublicKey<U32, W>,
) -> CipherText<U32, W> {
    let mut o = [0; 5];
    apply(ENC, &enc_input(noise, message, pk), &mut o);
    CipherText::new([o[0], o[1], o[2], o[3]], o[4])
}
pub fn decapsulate<W>(ct: &CipherText<U32, W>, sk: &SecretKey<U32, W>) -> GenericArray<u8, U32> {
    let mut i = [0; 8];
    i[..4].copy_from_slice(&ct.line);
    i[4] = ct.extra;
    i[5..].copy_from_slice(&sk.line);
    let mut o = GenericArray::default();
    apply(DEC, &i, &mut o);
    o
}
