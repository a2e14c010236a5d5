//! SymmetricState with SHA3-256 and ChaCha20-Poly1305, directly from the Noise specification.
use aead::{generic_array::GenericArray, AeadInPlace, NewAead};
use chacha20poly1305::ChaCha20Poly1305;
use sha3::{Digest, Sha3_256};

pub fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let d = Sha3_256::digest(&parts.concat());
    let mut h = [0; 32];
    h.copy_from_slice(&d);
    h
}
fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = [0u8; 136];
    k[..key.len()].copy_from_slice(key);
    let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    hash(&[&o, &hash(&[&i, data])])
}
fn derive(ck: &[u8], data: &[u8]) -> [[u8; 32]; 2] {
    let prk = hmac(ck, data);
    let a = hmac(&prk, &[1]);
    let mut x = a.to_vec();
    x.push(2);
    [a, hmac(&prk, &x)]
}
pub fn seal_at(k: &[u8; 32], n: u64, ad: &[u8], m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    let mut nonce = [0; 12];
    nonce[4..].copy_from_slice(&n.to_le_bytes());
    let t = ChaCha20Poly1305::new(GenericArray::from_slice(k))
        .encrypt_in_place_detached(GenericArray::from_slice(&nonce), ad, &mut v)
        .unwrap();
    v.extend_from_slice(&t);
    v
}
pub struct Spec {
    ck: [u8; 32],
    pub h: [u8; 32],
    k: [u8; 32],
    n: u64,
}
impl Spec {
    pub fn new(name: &str) -> Self {
        let mut h = [0; 32];
        if name.len() <= 32 {
            h[..name.len()].copy_from_slice(name.as_bytes());
        } else {
            h = hash(&[name.as_bytes()]);
        }
        Spec { ck: h, h, k: [0; 32], n: 0 }
    }
    pub fn mix_hash(&mut self, d: &[u8]) {
        self.h = hash(&[&self.h, d]);
    }
    pub fn mix_key(&mut self, d: &[u8]) {
        let [ck, k] = derive(&self.ck, d);
        self.ck = ck;
        self.k = k;
        self.n = 0;
    }
    pub fn seal(&mut self, m: &[u8]) -> Vec<u8> {
        let v = seal_at(&self.k, self.n, &self.h, m);
        self.n += 1;
        self.h = hash(&[&self.h, &v]);
        v
    }
    pub fn split(&self) -> [[u8; 32]; 2] {
        derive(&self.ck, &[])
    }
}
