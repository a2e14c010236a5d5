use crate::indcpa::*;
use crate::kem::Kyber;
use pq_kem::Kem;
use rac::generic_array::{
    typenum::{U2, U32, U64},
    GenericArray,
};
use rac::{Concat, LineValid};
use vnd::{any, assume, bytes, check};

type K = Kyber<U2>;
type Sk = SecretKey<U32, U2>;
type Pk = PublicKey<U32, U2>;
type Ct = CipherText<U32, U2>;
type B32 = GenericArray<u8, U32>;

fn start() {
    vru_uf::reset();
    sha3::reset();
}
fn b32() -> B32 {
    GenericArray::clone_from_slice(&bytes::<32>())
}
fn h256(x: &[u8]) -> [u8; 32] {
    let mut o = [0; 32];
    vru_uf::apply(sha3::TAG_SHA3_256, x, &mut o);
    o
}
fn h512(a: &[u8], b: &[u8]) -> ([u8; 32], [u8; 32]) {
    let (mut i, mut o) = ([0; 64], [0; 64]);
    i[..32].copy_from_slice(a);
    i[32..].copy_from_slice(b);
    vru_uf::apply(sha3::TAG_SHA3_512, &i, &mut o);
    let (mut r, mut n) = ([0; 32], [0; 32]);
    r.copy_from_slice(&o[..32]);
    n.copy_from_slice(&o[32..]);
    (r, n)
}
fn secret(r: &[u8], ct_line: &[u8]) -> [u8; 32] {
    let mut i = [0; 64];
    i[..32].copy_from_slice(r);
    i[32..].copy_from_slice(&h256(ct_line));
    h256(&i)
}

/// the pair is the pair of the first half of the seed, the second half is the reject value
pub fn generate_spec() {
    start();
    let seed: [u8; 64] = bytes();
    let (pk, Concat(sk, reject)) = K::generate_pair(GenericArray::<u8, U64>::from_slice(&seed));
    let (esk, epk) = key_pair::<U32, U2>(GenericArray::from_slice(&seed[..32]));
    check!(pk.line == epk.line, "public key of the first half of the seed");
    check!(sk.line == esk.line, "secret key of the first half of the seed");
    check!(reject[..] == seed[32..], "reject value is the second half of the seed");
}

/// message H(seed), (r, coins) = G(message, key hash), secret H(r, H(ciphertext line))
pub fn encapsulate_spec() {
    start();
    let (seed, hash) = (b32(), b32());
    let pk = Pk::new(any(), any());
    let (ct, ss) = K::encapsulate(&seed, &pk, &hash);
    let m = h256(&seed);
    let (r, coins) = h512(&m, &hash);
    let e = encapsulate(GenericArray::from_slice(&coins), GenericArray::from_slice(&m), &pk);
    check!(ct.line == e.line, "ciphertext encrypts H(seed) with coins from G(message, key hash)");
    check!(ss[..] == secret(&r, &ct.line), "secret is H(r, H(ciphertext))");
}

/// for every key, hash and ciphertext: the accepted secret if and only if the line is reproduced by re-encryption,
/// otherwise the secret derived from the reject value; always bound to the received line
pub fn decapsulate_spec() {
    start();
    let (sk, reject, hash) = (Sk::new(any(), 0), b32(), b32());
    let pk = Pk::new(any(), 0);
    let ct = Ct::new(any(), any());
    let ss = K::decapsulate(&Concat(sk.clone(), reject), &pk, &hash, &ct);
    let m = decapsulate(&ct, &sk);
    let (r, coins) = h512(&m, &hash);
    let again = encapsulate(GenericArray::from_slice(&coins), &m, &pk);
    let k: [u8; 32] = if again.line == ct.line { r } else { reject.into() };
    check!(ss[..] == secret(&k, &ct.line), "decapsulated secret of an arbitrary ciphertext");
}

/// both sides agree when the encryption decrypts correctly, over lines or in memory
pub fn agreement() {
    start();
    let seed: [u8; 64] = bytes();
    let (pk, sk) = K::generate_pair(GenericArray::<u8, U64>::from_slice(&seed));
    let (seed, hash) = (b32(), b32());
    let on_wire: bool = any();
    let (pk2, sk) = if on_wire {
        (Pk::try_clone_array(&pk.clone_line()).unwrap(), Concat::try_clone_array(&sk.clone_line()).unwrap())
    } else {
        (pk.clone(), sk)
    };
    let (ct, ss) = K::encapsulate(&seed, &pk2, &hash);
    let ct = if any() { Ct::try_clone_array(&ct.clone_line()).unwrap() } else { ct };
    // the encryption decrypts this ciphertext to its message
    let mut i = [0; 8];
    i[..4].copy_from_slice(&ct.line);
    i[4] = ct.extra;
    i[5..].copy_from_slice(&sk.0.line);
    vru_uf::define(DEC, &i, &h256(&seed));
    let ss2 = K::decapsulate(&sk, &pk, &hash, &ct);
    check!(ss == ss2, "both sides obtain the same secret");
}

/// a ciphertext that re-encryption does not reproduce: with a collision-free hash the secret is unrelated
pub fn reject_differs() {
    start();
    let (sk, reject, hash) = (Sk::new(any(), 0), b32(), b32());
    let pk = Pk::new(any(), 0);
    let (seed, other) = (b32(), Ct::new(any(), any()));
    let (ct, ss) = K::encapsulate(&seed, &pk, &hash);
    assume(other.line != ct.line);
    let ss2 = K::decapsulate(&Concat(sk, reject), &pk, &hash, &other);
    // no collisions among the hashes made
    let (h1, h2) = (h256(&ct.line), h256(&other.line));
    assume(h1 != h2);
    vru_uf::assume_no_collision(sha3::TAG_SHA3_256, 32);
    check!(ss != ss2, "a different ciphertext yields a different secret");
}
