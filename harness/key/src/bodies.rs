use crate::flat;
use crate::handshake::key::*;
use curve25519_dalek::{edwards::*, scalar::Scalar};
use rac::{
    generic_array::{typenum::*, ArrayLength, GenericArray},
    Array, Concat, LineValid,
};
use vnd::{any, assume, bytes, check};
use vru_kyber::ghost;

const LAT: usize = ghost::PK;
type Ga<N> = Array<N>;
fn ga<N: ArrayLength<u8>>(b: &[u8]) -> Ga<N> {
    GenericArray::clone_from_slice(b)
}
fn start() {
    vru_uf::reset();
    #[cfg(not(kani))]
    sha3::reset();
    unsafe {
        ghost::PK_LINE = bytes();
        ghost::SK_LINE = bytes();
        ghost::CT = bytes();
        ghost::SS = bytes();
        ghost::CALLS = [0; 3];
    }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
fn hash(b: &[u8]) -> [u8; 32] {
    let mut o = [0; 32];
    vru_uf::apply(sha3::TAG_SHA3_256, b, &mut o);
    o
}
fn clamp(s: &[u8]) -> Scalar {
    let mut b = [0; 32];
    b.copy_from_slice(s);
    b[0] &= 0xf8;
    b[31] = b[31] & 0x7f | 0x40;
    Scalar::from_bits(b)
}
fn a_point() -> [u8; 32] {
    let b = bytes();
    assume(curve25519_dalek::is_point(&b));
    b
}
/// the bytes of an arbitrary valid key
fn key_bytes() -> ([u8; 32], [u8; LAT]) {
    (a_point(), bytes())
}
fn decompress(e: &[u8; 32], l: &[u8; LAT]) -> Option<PublicKey> {
    let n = vru_uf::count();
    let k = PublicKey::try_decompress(Concat(ga(e), ga(l)));
    // refused keys need no hash
    vru_uf::align(n + 2);
    k
}
fn key(b: &([u8; 32], [u8; LAT])) -> PublicKey {
    match decompress(&b.0, &b.1) {
        Some(k) => k,
        None => {
            check!(false, "the bytes of a valid key are refused");
            assume(false);
            unreachable!()
        }
    }
}
/// all that a public key shows
fn is(k: &PublicKey, e: &[u8; 32], l: &[u8; LAT], h: &[u8; 32]) {
    check!(same(&k.elliptic(), e), "elliptic part");
    check!(same(&k.lattice(), l), "lattice part");
    check!(same(&k.lattice_hash(), h), "hash of the lattice part");
}

pub fn gen_spec() {
    start();
    let seed: [u8; 96] = bytes();
    let (pk, sk) = PublicKey::gen(&ga(&seed));
    let scalar = clamp(&seed[..32]);
    let e = (&BASE * &scalar).0;
    unsafe {
        check!(ghost::CALLS[0] == 1 && same(&ghost::GEN_SEED, &seed[32..]), "the lattice pair comes from the last 64 bytes of the seed");
        let h = hash(&ghost::PK_LINE);
        is(&pk, &e, &ghost::PK_LINE, &h);
        // the secret half
        let other = EdwardsPoint(curve25519_dalek::canonical(a_point()));
        let want = (&other * &scalar).0;
        let peer = match decompress(&other.0, &ghost::PK_LINE) {
            Some(k) => k,
            None => {
                check!(false, "the bytes of a valid key are refused");
                return;
            }
        };
        check!(same(&peer.dh(&sk), &want), "the secret elliptic part");
        let ct = LineValid::try_clone_array(&ga(&ghost::CT)).unwrap();
        let ss = pk.decapsulate(&sk, &ct);
        check!(same(&ss, &ghost::SS) && same(&ghost::WITH_SK, &ghost::SK_LINE), "the secret lattice part");
        check!(same(&ghost::WITH_PK, &ghost::PK_LINE) && same(&ghost::WITH_HASH, &h), "decapsulation with the own public key");
    }
}
pub fn decompress_spec() {
    start();
    let (e, l): ([u8; 32], [u8; LAT]) = (bytes(), bytes());
    let valid = curve25519_dalek::is_point(&e);
    match decompress(&e, &l) {
        Some(k) => {
            check!(valid, "bytes that are no point are refused");
            let c = curve25519_dalek::canonical(e);
            is(&k, &c, &l, &hash(&l));
            let Concat(ce, cl) = k.compress();
            check!(same(&ce, &c) && same(&cl, &l), "compressed key");
        }
        None => check!(!valid, "a valid key is accepted"),
    }
}
pub fn identity_spec() {
    start();
    let b = key_bytes();
    let k = key(&b);
    let i = k.identity();
    let mut all = [0; 32 + LAT];
    all[..32].copy_from_slice(&curve25519_dalek::canonical(b.0));
    all[32..].copy_from_slice(&b.1);
    check!(same(&k.compress().clone_line(), &all), "the bytes of a key");
    check!(same(i.as_ref(), &hash(&all)), "the identity is the hash of the whole key");
}
pub fn clone_spec() {
    start();
    let b = key_bytes();
    let k = key(&b).clone();
    is(&k, &curve25519_dalek::canonical(b.0), &b.1, &hash(&b.1));
    // secret keys
    let seed: [u8; 96] = bytes();
    let (_, sk) = PublicKey::gen(&ga(&seed));
    let sk2 = sk.clone();
    check!(same(&k.dh(&sk2), &(&EdwardsPoint(curve25519_dalek::canonical(b.0)) * &clamp(&seed[..32])).0), "cloned secret scalar");
    unsafe {
        let ct = LineValid::try_clone_array(&ga(&ghost::CT)).unwrap();
        let _ = k.decapsulate(&sk2, &ct);
        check!(same(&ghost::WITH_SK, &ghost::SK_LINE), "cloned secret lattice part");
    }
}
pub fn write_spec() {
    start();
    let b = key_bytes();
    let k = key(&b);
    let mut w = flat::Writer { pos: 0 };
    let r = serde::Serialize::serialize(&k, &mut w);
    check!(r.is_ok() && w.pos == flat::LEN, "length of the serialized key");
    let h = hash(&b.1);
    unsafe {
        check!(same(&flat::BYTES[..32], &curve25519_dalek::canonical(b.0)), "serialized elliptic part");
        check!(same(&flat::BYTES[32..32 + LAT], &b.1), "serialized lattice part");
        check!(same(&flat::BYTES[32 + LAT..], &h), "serialized hash");
    }
}
pub fn read_spec() {
    start();
    let (e, l, h): ([u8; 32], [u8; LAT], [u8; 32]) = (bytes(), bytes(), bytes());
    unsafe {
        flat::BYTES[..32].copy_from_slice(&e);
        flat::BYTES[32..32 + LAT].copy_from_slice(&l);
        flat::BYTES[32 + LAT..].copy_from_slice(&h);
    }
    let got: Result<PublicKey, flat::Error> = serde::Deserialize::deserialize(&mut flat::Reader { pos: 0 });
    vru_uf::align(2);
    let valid = curve25519_dalek::is_point(&e);
    let consistent = same(&hash(&l), &h);
    match got {
        Ok(k) => {
            check!(valid && consistent, "inconsistent keys are refused");
            is(&k, &curve25519_dalek::canonical(e), &l, &h);
        }
        Err(_) => check!(!valid || !consistent, "consistent keys are accepted"),
    }
}
pub fn exchange_spec() {
    start();
    let b = key_bytes();
    let k = key(&b);
    let h = hash(&b.1);
    let seed: [u8; 32] = bytes();
    let c = k.encapsulate(&ga(&seed));
    unsafe {
        check!(ghost::CALLS[1] == 1 && same(&ghost::SEED, &seed), "the seed of the encapsulation");
        check!(same(&ghost::WITH_PK, &b.1) && same(&ghost::WITH_HASH, &h), "the key of the encapsulation");
        check!(same(&c.ss, &ghost::SS) && same(&c.ct.clone_line(), &ghost::CT), "its result");
        let (_, sk) = PublicKey::gen(&ga::<U96>(&bytes::<96>()));
        let ss = k.decapsulate(&sk, &c.ct);
        check!(ghost::CALLS[2] == 1 && same(&ghost::WITH_CT, &ghost::CT) && same(&ghost::WITH_SK, &ghost::SK_LINE), "the operands of the decapsulation");
        check!(same(&ghost::WITH_PK, &b.1) && same(&ghost::WITH_HASH, &h) && same(&ss, &ghost::SS), "the key of the decapsulation and its result");
    }
}
/// collects what is displayed
struct Sink(usize, bool);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1 &= s.is_empty() || s.len() == 1 && s.as_bytes()[0] == b'T';
        self.0 += s.len();
        Ok(())
    }
}
fn an_identity() -> (Identity, [u8; 32]) {
    let h: [u8; 32] = bytes();
    let mut b = [0; base64::MAX];
    b[1..33].copy_from_slice(&h);
    base64::choose(33, b);
    match base64::TEXT.parse::<Identity>() {
        Ok(i) => (i, h),
        Err(_) => {
            check!(false, "the text of an identity is refused");
            assume(false);
            unreachable!()
        }
    }
}
pub fn text_roundtrip() {
    start();
    let (i, h) = an_identity();
    check!(same(i.as_ref(), &h), "text to identity");
    base64::choose(0, [0; base64::MAX]);
    let mut s = Sink(0, true);
    use std::fmt::Write;
    let _ = write!(s, "{}", i);
    check!(s.0 == base64::TEXT.len() && s.1, "displayed as base64 only");
    unsafe {
        check!(base64::LEN == 33 && base64::BYTES[0] == 0 && same(&base64::BYTES[1..33], &h), "identity to text");
    }
    match base64::TEXT.parse::<Identity>() {
        Ok(j) => check!(same(j.as_ref(), &h) && j == i, "and back"),
        Err(_) => check!(false, "its own text is refused"),
    }
}
pub fn text_parse() {
    start();
    let len: usize = any::<u8>() as usize;
    let b: [u8; base64::MAX] = bytes();
    base64::choose(len, b);
    match "anything".parse::<Identity>() {
        Ok(i) => {
            check!(len == 33, "texts of another length are refused");
            check!(same(i.as_ref(), &b[1..33]), "the identity is the last 32 bytes");
        }
        Err(_) => check!(len != 33 || b[0] != 0, "the text of an identity is accepted"),
    }
}
