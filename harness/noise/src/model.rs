//! Contracts of the primitives: uninterpreted functions.
use crate::cipher_state::{Aead as AeadKey, ChainingKey, Rotor};
use aead::{AeadCore, AeadInPlace, NewAead};
use digest::{BlockInput, FixedOutput, Reset, Update};
use generic_array::{typenum::*, GenericArray};

pub const HASH: u8 = 40;
pub const STREAM: u8 = 41;
pub const MAC: u8 = 42;
pub const L: usize = 8;
pub const B: usize = 4;
pub const K: usize = 5;
pub const T: usize = 3;

/// hash: an uninterpreted function of the absorbed bytes
#[derive(Clone)]
pub struct Tiny {
    data: [u8; 64],
    len: usize,
}
impl Default for Tiny {
    fn default() -> Self {
        Tiny { data: [0; 64], len: 0 }
    }
}
impl Update for Tiny {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        let d = d.as_ref();
        let mut i = 0;
        while i < d.len() {
            self.data[self.len + i] = d[i];
            i += 1;
        }
        self.len += d.len();
    }
}
impl BlockInput for Tiny {
    type BlockSize = U4;
}
impl Reset for Tiny {
    fn reset(&mut self) {
        self.len = 0
    }
}
impl FixedOutput for Tiny {
    type OutputSize = U8;
    fn finalize_into(self, out: &mut GenericArray<u8, U8>) {
        vru_uf::apply(HASH, &self.data[..self.len], out)
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U8>) {
        vru_uf::apply(HASH, &self.data[..self.len], out);
        self.len = 0
    }
}
pub fn hash(parts: &[&[u8]]) -> [u8; L] {
    let mut t = Tiny::default();
    for p in parts {
        t.update(p)
    }
    let mut o = [0; L];
    vru_uf::apply(HASH, &t.data[..t.len], &mut o);
    o
}

/// a hash that records what it absorbs
pub static mut LOG: [u8; 64] = [0; 64];
pub static mut LOG_LEN: usize = 0;
#[derive(Clone, Default)]
pub struct Rec;
impl Update for Rec {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        let d = d.as_ref();
        unsafe {
            let l = &mut *core::ptr::addr_of_mut!(LOG);
            l[LOG_LEN..LOG_LEN + d.len()].copy_from_slice(d);
            LOG_LEN += d.len();
        }
    }
}
impl BlockInput for Rec {
    type BlockSize = U4;
}
impl Reset for Rec {
    fn reset(&mut self) {}
}
impl FixedOutput for Rec {
    type OutputSize = U3;
    fn finalize_into(self, _: &mut GenericArray<u8, U3>) {}
    fn finalize_into_reset(&mut self, _: &mut GenericArray<u8, U3>) {}
}

/// AEAD: the keystream is a function of (key, nonce), the tag of (key, nonce, associated data, ciphertext)
#[derive(Clone, Debug)]
pub struct Box3 {
    pub key: [u8; K],
}
impl NewAead for Box3 {
    type KeySize = U5;
    fn new(key: &GenericArray<u8, U5>) -> Self {
        let mut k = [0; K];
        k.copy_from_slice(key);
        Box3 { key: k }
    }
}
impl AeadCore for Box3 {
    type NonceSize = U12;
    type TagSize = U3;
    type CiphertextOverhead = U0;
}
const S: usize = 16;
fn keystream(key: &[u8; K], nonce: &[u8]) -> [u8; S] {
    let mut i = [0; K + 12];
    i[..K].copy_from_slice(key);
    i[K..].copy_from_slice(nonce);
    let mut o = [0; S];
    vru_uf::apply(STREAM, &i, &mut o);
    o
}
fn stream(key: &[u8; K], nonce: &[u8], buffer: &mut [u8]) {
    let o = keystream(key, nonce);
    xor(buffer, &o)
}
fn xor(buffer: &mut [u8], o: &[u8; S]) {
    let mut j = 0;
    while j < buffer.len() {
        buffer[j] ^= o[j];
        j += 1;
    }
}
fn mac(key: &[u8; K], nonce: &[u8], ad: &[u8], ct: &[u8]) -> [u8; T] {
    let mut i = [0; 96];
    i[..K].copy_from_slice(key);
    i[K..K + 12].copy_from_slice(nonce);
    i[K + 12] = ad.len() as u8;
    let a = K + 13;
    i[a..a + ad.len()].copy_from_slice(ad);
    i[a + ad.len()..a + ad.len() + ct.len()].copy_from_slice(ct);
    let mut o = [0; T];
    vru_uf::apply(MAC, &i[..a + ad.len() + ct.len()], &mut o);
    o
}
impl AeadInPlace for Box3 {
    fn encrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, U12>,
        ad: &[u8],
        buffer: &mut [u8],
    ) -> aead::Result<GenericArray<u8, U3>> {
        stream(&self.key, nonce, buffer);
        Ok(GenericArray::clone_from_slice(&mac(&self.key, nonce, ad, buffer)))
    }
    fn decrypt_in_place_detached(
        &self,
        nonce: &GenericArray<u8, U12>,
        ad: &[u8],
        buffer: &mut [u8],
        tag: &GenericArray<u8, U3>,
    ) -> aead::Result<()> {
        if open_at(&self.key, nonce, ad, buffer, tag) {
            Ok(())
        } else {
            Err(aead::Error)
        }
    }
}
pub fn nonce_bytes(n: u64) -> [u8; 12] {
    let mut b = [0; 12];
    b[4..].copy_from_slice(&n.to_le_bytes());
    b
}
/// (ciphertext in place, tag)
pub fn seal(key: &[u8; K], n: u64, ad: &[u8], buffer: &mut [u8]) -> [u8; T] {
    let nonce = nonce_bytes(n);
    stream(key, &nonce, buffer);
    mac(key, &nonce, ad, buffer)
}
pub fn open(key: &[u8; K], n: u64, ad: &[u8], buffer: &mut [u8], tag: &[u8]) -> bool {
    open_at(key, &nonce_bytes(n), ad, buffer, tag)
}
fn open_at(key: &[u8; K], nonce: &[u8], ad: &[u8], buffer: &mut [u8], tag: &[u8]) -> bool {
    let m = mac(key, nonce, ad, buffer);
    let (mut d, mut i) = (0, 0);
    while i < T {
        d |= m[i] ^ tag[i];
        i += 1;
    }
    // the same queries on both paths
    let o = keystream(key, nonce);
    if d == 0 {
        xor(buffer, &o);
    }
    d == 0
}

pub type Cfg = (Tiny, byteorder::LittleEndian, Box3);

/// a rotor that remembers how it was made and how often it turned
#[derive(Clone, Debug)]
pub struct Wheel<const I: u64> {
    pub ck: [u8; L],
    pub key: [u8; K],
    pub turns: u64,
}
impl<const I: u64> Rotor<Cfg> for Wheel<I> {
    const INTERVAL: u64 = I;
    fn new(ck: ChainingKey<Cfg>, key: AeadKey<Cfg>) -> Self {
        let mut w = Wheel { ck: [0; L], key: [0; K], turns: 0 };
        w.ck.copy_from_slice(&ck);
        w.key.copy_from_slice(&key);
        w
    }
    fn rotate(&mut self, key: &mut Box3) {
        self.turns += 1;
        key.key[0] = key.key[0].wrapping_add(1);
    }
}
