//! The real crate with real hashes and AEADs against a direct implementation of the Noise
//! symmetric objects, for arbitrary inputs of arbitrary lengths.
use aead::{generic_array::GenericArray, AeadInPlace, NewAead};
use byteorder::{BigEndian, ByteOrder, LittleEndian};
use digest::Digest;
use std::marker::PhantomData;
use vnd::{any, below, check};
use vru_noise::{Aead, ChainingKey, Cipher, Config, Rotor, SymmetricState, Tag};

type Cha = (sha3::Sha3_256, LittleEndian, chacha20poly1305::ChaCha20Poly1305);
type Cha2 = (sha2::Sha256, LittleEndian, chacha20poly1305::ChaCha20Poly1305);
type Aes = (sha2::Sha512, BigEndian, aes_gcm::Aes256Gcm);

fn vec(max: usize) -> Vec<u8> {
    // short, block sized and long
    let n = match below(4) {
        0 => below(4),
        1 => below(max + 1),
        _ => *[63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 271, 272, 273]
            .iter()
            .map(|n| if *n < max { n } else { &max })
            .nth(below(16))
            .unwrap(),
    };
    let s: u64 = any();
    (0..n as u64).map(|i| (s.wrapping_mul(2 * i + 1).rotate_left(i as u32) >> 13) as u8).collect()
}

trait Suite: Config + Clone {
    fn hash(parts: &[&[u8]]) -> Vec<u8>;
    const BLOCK: usize;
    fn nonce(n: u64) -> [u8; 12];
}
macro_rules! suite {
    ($t:ty, $h:ty, $b:expr, $e:ty) => {
        impl Suite for $t {
            fn hash(parts: &[&[u8]]) -> Vec<u8> {
                let all: Vec<u8> = parts.concat();
                <$h>::digest(&all).to_vec()
            }
            const BLOCK: usize = $b;
            fn nonce(n: u64) -> [u8; 12] {
                let mut b = [0; 12];
                <$e>::write_u64(&mut b[4..], n);
                b
            }
        }
    };
}
suite!(Cha, sha3::Sha3_256, 136, LittleEndian);
suite!(Cha2, sha2::Sha256, 64, LittleEndian);
suite!(Aes, sha2::Sha512, 128, BigEndian);

fn hmac<C: Suite>(key: &[u8], data: &[&[u8]]) -> Vec<u8> {
    let mut k = if key.len() > C::BLOCK { C::hash(&[key]) } else { key.to_vec() };
    k.resize(C::BLOCK, 0);
    let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    let inner = C::hash(&[&i, &data.concat()]);
    C::hash(&[&o, &inner])
}
fn derive<C: Suite>(ck: &[u8], data: &[u8]) -> [Vec<u8>; 3] {
    let prk = hmac::<C>(ck, &[data]);
    let a = hmac::<C>(&prk, &[&[1]]);
    let b = hmac::<C>(&prk, &[&a, &[2]]);
    let c = hmac::<C>(&prk, &[&b, &[3]]);
    [a, b, c]
}

struct Spec<C> {
    ck: Vec<u8>,
    h: Vec<u8>,
    k: Vec<u8>,
    n: u64,
    c: PhantomData<C>,
}
type GA<N> = GenericArray<u8, N>;
impl<C: Suite> Spec<C>
where
    C::Aead: AeadInPlace,
{
    fn new(name: &str) -> Self {
        let l = C::hash(&[]).len();
        let mut h = name.as_bytes().to_vec();
        if h.len() > l {
            h = C::hash(&[&h]);
        } else {
            h.resize(l, 0);
        }
        Spec { ck: h.clone(), h, k: vec![], n: 0, c: PhantomData }
    }
    fn mix_hash(&mut self, d: &[u8]) {
        self.h = C::hash(&[&self.h, d]);
    }
    fn mix_key(&mut self, d: &[u8]) {
        let [ck, k, _] = derive::<C>(&self.ck, d);
        self.ck = ck;
        self.k = k;
        self.n = 0;
    }
    fn mix_psk(&mut self, d: &[u8]) {
        let [ck, m, k] = derive::<C>(&self.ck, d);
        self.ck = ck;
        self.mix_hash(&m[..32]);
        self.k = k;
        self.n = 0;
    }
    fn encrypt(&mut self, d: &mut [u8]) -> Vec<u8> {
        let t = C::Aead::new(GA::from_slice(&self.k[..32]))
            .encrypt_in_place_detached(GA::from_slice(&C::nonce(self.n)), &self.h, d)
            .unwrap();
        self.n += 1;
        self.h = C::hash(&[&self.h, d, &t]);
        t.to_vec()
    }
}

struct Wheel<C> {
    ck: Vec<u8>,
    key: Vec<u8>,
    turns: u8,
    c: PhantomData<C>,
}
const INTERVAL: u64 = 5;
fn wheel_key(ck: &[u8], key: &[u8], turns: u8) -> Vec<u8> {
    key.iter().zip(ck).map(|(a, b)| a ^ b.wrapping_mul(turns).wrapping_add(turns)).collect()
}
impl<C: Config> Rotor<C> for Wheel<C> {
    const INTERVAL: u64 = INTERVAL;
    fn new(ck: ChainingKey<C>, key: Aead<C>) -> Self {
        Wheel { ck: ck.to_vec(), key: key.to_vec(), turns: 0, c: PhantomData }
    }
    fn rotate(&mut self, key: &mut C::Aead) {
        self.turns += 1;
        let k = wheel_key(&self.ck, &self.key, self.turns);
        *key = C::Aead::new(GA::from_slice(&k));
    }
}

fn name() -> String {
    let n = match below(3) {
        0 => below(80),
        1 => 30 + below(5),
        _ => 62 + below(5),
    };
    (0..n).map(|_| (b'!' + below(90) as u8) as char).collect()
}

/// the whole state machine against the specification
fn state<C: Suite>() {
    let name = name();
    let mut s = Spec::<C>::new(&name);
    let st = SymmetricState::<C, _>::new(&name);
    check!(st.hash()[..] == s.h[..], "initial hash");
    let (a, b, p, q) = (vec(300), vec(300), vec(80), vec(80));
    s.mix_hash(&a);
    s.mix_key(&b);
    let tx = st.mix_hash(&a).mix_shared_secret(&b);
    check!(tx.hash()[..] == s.h[..], "hash before the first encryption");
    let name2 = name.clone();
    let rx = SymmetricState::<C, _>::new(&name2).mix_hash(&a).mix_shared_secret(&b);
    macro_rules! message {
        ($tx:expr, $rx:expr, $max:expr) => {{
            let m = vec($max);
            let mut d = m.clone();
            let mut e = m.clone();
            let (tx, tag) = $tx.encrypt(&mut d);
            let t = s.encrypt(&mut e);
            check!(d == e, "ciphertext");
            check!(tag[..] == t[..], "tag");
            check!(tx.hash()[..] == s.h[..], "hash after an encryption");
            match $rx.decrypt(&mut d, tag) {
                Ok(rx) => {
                    check!(d == m, "plaintext");
                    check!(rx.hash()[..] == s.h[..], "hash after a decryption");
                    (tx, rx)
                }
                Err(_) => panic!("honest message rejected"),
            }
        }};
    }
    let (tx, rx) = message!(tx, rx, 400);
    let (tx, rx) = message!(tx, rx, 400);
    let (tx, rx) = message!(tx, rx, 20);
    s.mix_psk(&p);
    let (tx, rx) = (tx.mix_psk(&p), rx.mix_psk(&p));
    let (tx, rx) = message!(tx, rx, 2000);
    s.mix_key(&q);
    let (tx, rx) = (tx.mix_shared_secret(&q), rx.mix_shared_secret(&q));
    let (tx, rx) = message!(tx, rx, 300);
    let mut v = b.clone();
    let mut e = b.clone();
    let tx = tx.encrypt_ext(&mut v);
    let n = b.len();
    let t = s.encrypt(&mut e);
    check!(v[..n] == e[..] && v[n..] == t[..], "ciphertext with the tag appended");
    let rx = match rx.decrypt(&mut v[..n].to_vec(), GA::clone_from_slice(&v[n..])) {
        Ok(rx) => rx,
        Err(_) => panic!("honest message rejected"),
    };
    check!(tx.hash()[..] == s.h[..], "hash after encrypt_ext");
    let ((i, h1), (r, h2)) = (tx.finish::<Wheel<C>>(), rx.finish::<Wheel<C>>());
    check!(h1 == h2 && h1[..] == s.h[..], "final hash");
    let [k1, k2, _] = derive::<C>(&s.ck, &[]);
    transport(i, r.swap(), [&k1[..32], &k2[..32]], &s.ck);
}
fn transport<C: Suite>(mut i: Cipher<C, Wheel<C>>, mut r: Cipher<C, Wheel<C>>, keys: [&[u8]; 2], ck: &[u8]) {
    let mut sent = [0u64; 2];
    for _ in 0..24 {
        let side = below(2);
        let (tx, rx) = if side == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
        let (ad, m) = (vec(40), vec(200));
        let n = sent[side];
        sent[side] += 1;
        let turns = (n / INTERVAL) as u8;
        let k = if turns == 0 { keys[side].to_vec() } else { wheel_key(ck, keys[side], turns) };
        let mut e = m.clone();
        let t = C::Aead::new(GA::from_slice(&k))
            .encrypt_in_place_detached(GA::from_slice(&C::nonce(n)), &ad, &mut e)
            .unwrap();
        let mut v = m.clone();
        if any() {
            let tag = tx.encrypt(&ad, &mut v);
            v.extend_from_slice(&tag);
        } else {
            tx.encrypt_ext(&ad, &mut v);
        }
        e.extend_from_slice(&t);
        check!(v == e, "transport message");
        // wrong messages in between change nothing
        for _ in 0..below(3) {
            let mut bad = v.clone();
            match below(4) {
                0 => {
                    let l = bad.len();
                    bad[below(l)] ^= 1 << below(8);
                }
                1 => bad.truncate(below(v.len())),
                2 => bad.push(any()),
                _ => bad = vec(30),
            }
            if bad != v {
                check!(rx.decrypt_ext(&ad, &mut bad).is_err(), "a modified message is rejected");
            }
            let mut ad2 = ad.clone();
            ad2.push(any());
            check!(rx.decrypt_ext(&ad2, &mut v.clone()).is_err(), "other associated data is rejected");
        }
        if any() {
            check!(rx.decrypt_ext(&ad, &mut v).is_ok(), "honest message accepted");
        } else {
            let l = v.len() - 16;
            let tag: Tag<C> = GA::clone_from_slice(&v[l..]);
            v.truncate(l);
            check!(rx.decrypt(&ad, &mut v, &tag).is_ok(), "honest message accepted");
        }
        check!(v == m, "transport plaintext");
    }
}
fn ref_chacha_sha3() {
    state::<Cha>()
}
fn ref_chacha_sha2() {
    state::<Cha2>()
}
fn ref_aes_sha512() {
    state::<Aes>()
}
/// every length of the ciphertext up to three blocks
fn ex_lengths() {
    fn all<C: Suite>() {
        for n in 0..3 * C::BLOCK {
            let mut s = Spec::<C>::new("lengths");
            s.mix_key(&[]);
            let st = SymmetricState::<C, _>::new("lengths").mix_shared_secret(&[]);
            let mut d: Vec<u8> = (0..n).map(|i| (i * 7) as u8).collect();
            let mut e = d.clone();
            let (st, t) = st.encrypt(&mut d);
            check!(t[..] == s.encrypt(&mut e)[..], "tag");
            check!(st.hash()[..] == s.h[..], "transcript hash for this length");
        }
    }
    all::<Cha>();
    all::<Cha2>();
    all::<Aes>();
}

fn main() {
    vnd::native::main(&[
        ("ref_chacha_sha3", ref_chacha_sha3),
        ("ref_chacha_sha2", ref_chacha_sha2),
        ("ref_aes_sha512", ref_aes_sha512),
        ("ex_lengths", ex_lengths),
    ])
}
