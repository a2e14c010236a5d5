use crate::cipher_state::{Cipher, Rotor, Unidirectional};
use crate::hash::{HkdfSplitExt, MixHash};
use crate::model::*;
use crate::symmetric_state::SymmetricState;
use core::marker::PhantomData;
use generic_array::{typenum::*, GenericArray};
use vnd::{any, assume, below, bytes, check};

fn ga<N: generic_array::ArrayLength<u8>>(b: &[u8]) -> GenericArray<u8, N> {
    GenericArray::clone_from_slice(b)
}

// ---- transcript hash

const PART: usize = 2 * B + 1;
/// the digest absorbs the previous hash and then exactly the parts, whatever their lengths
fn mix_parts<const N: usize>() {
    unsafe {
        LOG_LEN = 0;
    }
    let h: [u8; 3] = bytes();
    let mut data = [[0u8; PART]; N];
    let mut len = [0; N];
    let mut i = 0;
    while i < N {
        data[i] = bytes();
        len[i] = below(PART + 1);
        i += 1;
    }
    let mut parts: [&[u8]; N] = [&[]; N];
    let mut total = 3;
    i = 0;
    while i < N {
        parts[i] = &data[i][..len[i]];
        total += len[i];
        i += 1;
    }
    let _ = Rec::mix_parts(ga(&h), &parts);
    let (log, n) = unsafe { (&*core::ptr::addr_of!(LOG), LOG_LEN) };
    check!(n == total, "as many bytes are absorbed as given");
    check!(log[0] == h[0] && log[1] == h[1] && log[2] == h[2], "the previous hash is absorbed first");
    // one arbitrary byte of one arbitrary part
    let (p, k) = (below(N), below(PART));
    assume(k < len[p]);
    let mut at = 3;
    i = 0;
    while i < p {
        at += len[i];
        i += 1;
    }
    check!(log[at + k] == data[p][k], "the parts are absorbed in order, each byte once");
}
pub fn mix_parts_2() {
    mix_parts::<2>()
}
pub fn mix_parts_3() {
    mix_parts::<3>()
}
pub fn mix_hash_spec() {
    vru_uf::reset();
    let h: [u8; L] = bytes();
    let d: [u8; 11] = bytes();
    check!(Tiny::mix_hash(ga(&h), &d[..6])[..] == hash(&[&h, &d[..6]]), "mix_hash is H(h || data)");
    check!(Tiny::mix_hash(ga(&h), &[])[..] == hash(&[&h]), "mix_hash of nothing");
    check!(Tiny::init(&d)[..] == hash(&[&d]), "init is H(data)");
    check!(Tiny::mix_parts(ga(&h), &[&d[..7], &d[7..]])[..] == hash(&[&h, &d]), "mix_parts is H(h || parts)");
    check!(Tiny::mix_parts(ga(&h), &[&d[..], &d[..3], &d[..1]])[..] == hash(&[&h, &d, &d[..3], &d[..1]]), "mix_parts is H(h || parts)");
}

// ---- key derivation

fn derive(ck: &[u8], data: &[u8]) -> [[u8; L]; 3] {
    let mut prk = [0; L];
    hkdf::extract(ck, data, &mut prk);
    let mut o = [0; 3 * L];
    hkdf::expand(&prk, &[], &mut o);
    let mut r = [[0; L]; 3];
    let mut i = 0;
    while i < 3 {
        r[i].copy_from_slice(&o[i * L..(i + 1) * L]);
        i += 1;
    }
    r
}
fn short(k: &[u8; L]) -> [u8; K] {
    let mut o = [0; K];
    o.copy_from_slice(&k[..K]);
    o
}
pub fn split_spec() {
    vru_uf::reset();
    let ck: [u8; L] = bytes();
    let d: [u8; 5] = bytes();
    let [a, b, c] = derive(&ck, &d);
    let (x, y) = <Tiny as HkdfSplitExt<Box3>>::split_2(&ck, &d);
    check!(x[..] == a && y[..] == short(&b), "split in two: chaining key and key");
    let (x, y, z) = <Tiny as HkdfSplitExt<Box3>>::split_3(&ck, &d);
    check!(x[..] == a && y[..] == short(&b) && z[..] == short(&c), "split in three");
    let [a, b, _] = derive(&ck, &[]);
    let (x, y) = <Tiny as HkdfSplitExt<Box3>>::split_final(&ck, &[]);
    check!(x[..] == short(&a) && y[..] == short(&b), "final split: the two transport keys");
}

// ---- symmetric state, against the Noise specification

#[derive(Clone)]
struct Spec {
    ck: [u8; L],
    h: [u8; L],
    k: [u8; K],
    n: u64,
}
impl Spec {
    fn new(name: &[u8]) -> Self {
        let mut h = [0; L];
        if name.len() <= L {
            h[..name.len()].copy_from_slice(name);
        } else {
            h = hash(&[name]);
        }
        Spec { ck: h, h, k: [0; K], n: 0 }
    }
    fn mix_hash(&mut self, d: &[u8]) {
        self.h = hash(&[&self.h, d]);
    }
    fn mix_key(&mut self, d: &[u8]) {
        let [ck, k, _] = derive(&self.ck, d);
        self.ck = ck;
        self.k = short(&k);
        self.n = 0;
    }
    fn mix_psk(&mut self, d: &[u8]) {
        let [ck, m, k] = derive(&self.ck, d);
        self.ck = ck;
        self.mix_hash(&short(&m));
        self.k = short(&k);
        self.n = 0;
    }
    fn encrypt(&mut self, d: &mut [u8]) -> [u8; T] {
        let t = seal(&self.k, self.n, &self.h, d);
        self.n += 1;
        self.h = hash(&[&self.h, d, &t]);
        t
    }
    fn decrypt(&mut self, d: &mut [u8], tag: &[u8]) -> bool {
        let h = hash(&[&self.h, d, tag]);
        if !open(&self.k, self.n, &self.h, d, tag) {
            return false;
        }
        self.n += 1;
        self.h = h;
        true
    }
    fn keys(&self) -> ([u8; K], [u8; K]) {
        let [a, b, _] = derive(&self.ck, &[]);
        (short(&a), short(&b))
    }
}
type State<Key> = SymmetricState<Cfg, Key>;
type W = Wheel<{ u64::MAX }>;

fn name<const N: usize>() -> ([u8; N], &'static str) {
    let mut b: [u8; N] = bytes();
    let mut i = 0;
    while i < N {
        b[i] &= 0x7f;
        i += 1;
    }
    let s: &'static [u8] = Box::leak(Box::new(b));
    // all bytes are below 0x80
    (b, unsafe { std::str::from_utf8_unchecked(s) })
}
fn begin<const N: usize>() -> (Spec, State<GenericArray<u8, U8>>) {
    vru_uf::reset();
    let (b, s) = name::<N>();
    (Spec::new(&b), State::new(s))
}

fn new_is<const N: usize>() {
    let (s, st) = begin::<N>();
    check!(st.hash()[..] == s.h, "initial hash is the padded or hashed protocol name");
    let (c, h) = st.finish::<W>();
    check!(h[..] == s.h, "hash after finish");
    let mut c = c;
    check!(c.send.verif_parts().2.ck == s.ck, "initial chaining key is the initial hash");
}
pub fn state_new() {
    new_is::<0>();
    new_is::<5>();
    new_is::<8>();
    new_is::<9>();
    new_is::<13>();
}
/// after any key mixing the n-th encryption uses nonce n, the hash as associated data, and is mixed into the hash
pub fn state_encrypt() {
    let (mut s, st) = begin::<3>();
    let (d, ss): ([u8; 3], [u8; 6]) = (bytes(), bytes());
    s.mix_hash(&d);
    let st = st.mix_hash(&d);
    check!(st.hash()[..] == s.h, "hash after mix_hash");
    s.mix_key(&ss);
    let st = st.mix_shared_secret(&ss);
    check!(st.hash()[..] == s.h, "mixing a shared secret leaves the hash");
    let m: [u8; 9] = bytes();
    let (mut a, mut b) = (m, m);
    let (st, t) = st.encrypt(&mut a[..6]);
    check!(t[..] == s.encrypt(&mut b[..6]) && a == b, "first encryption");
    check!(st.hash()[..] == s.h, "hash after the first encryption");
    let (st, t) = st.encrypt(&mut a[..]);
    check!(t[..] == s.encrypt(&mut b[..]) && a == b, "second encryption");
    let (st, t) = st.encrypt(&mut a[..0]);
    check!(t[..] == s.encrypt(&mut b[..0]), "third encryption, of nothing");
    check!(st.hash()[..] == s.h, "hash after the third encryption");
    // the next key starts again
    s.mix_key(&d);
    let st = st.mix_shared_secret(&d);
    let (st, t) = st.encrypt(&mut a[..1]);
    check!(t[..] == s.encrypt(&mut b[..1]) && a == b, "first encryption of the second key");
    check!(st.hash()[..] == s.h, "hash after the second key");
}
pub fn state_psk() {
    let (mut s, st) = begin::<3>();
    let (d, psk): ([u8; 3], [u8; 6]) = (bytes(), bytes());
    s.mix_psk(&psk);
    let st = st.mix_psk(&psk);
    check!(st.hash()[..] == s.h, "the middle output is mixed into the hash");
    let (mut a, mut b) = (d, d);
    let (st, t) = st.encrypt(&mut a[..]);
    check!(t[..] == s.encrypt(&mut b[..]) && a == b, "encryption after a pre-shared key");
    s.mix_psk(&d);
    let st = st.mix_psk(&d);
    let (st, t) = st.encrypt(&mut a[..]);
    check!(t[..] == s.encrypt(&mut b[..]) && a == b, "encryption after the second pre-shared key");
    check!(st.hash()[..] == s.h, "hash");
}
/// decryption accepts exactly the tag of (key, nonce, hash, ciphertext), for arbitrary ciphertext and tag
pub fn state_decrypt() {
    let (mut s, st) = begin::<3>();
    let ss: [u8; 6] = bytes();
    s.mix_key(&ss);
    let st = st.mix_shared_secret(&ss);
    let (d0, t0): ([u8; 6], [u8; T]) = (bytes(), bytes());
    let (mut a, mut b) = (d0, d0);
    let ok = s.decrypt(&mut b, &t0);
    match st.decrypt(&mut a, ga(&t0)) {
        Ok(st) => {
            check!(ok, "a wrong tag is rejected");
            check!(a == b, "plaintext");
            check!(st.hash()[..] == s.h, "hash after decryption");
            let (d1, t1): ([u8; 2], [u8; T]) = (bytes(), bytes());
            let (mut a, mut b) = (d1, d1);
            let ok = s.decrypt(&mut b, &t1);
            match st.decrypt(&mut a, ga(&t1)) {
                Ok(st) => {
                    check!(ok && a == b, "second decryption");
                    check!(st.hash()[..] == s.h, "hash after the second decryption");
                }
                Err(_) => check!(!ok, "the second right tag is accepted"),
            }
        }
        Err(_) => check!(!ok, "the right tag is accepted"),
    }
}
/// a sender and a receiver with the same inputs stay in lockstep
pub fn state_pair() {
    let (_, st) = begin::<3>();
    let (x, y): ([u8; 3], [u8; 6]) = (bytes(), bytes());
    let tx = st.clone().mix_hash(&x).mix_shared_secret(&y);
    let rx = st.mix_hash(&x).mix_shared_secret(&y);
    let m: [u8; 7] = bytes();
    let mut d = m;
    let (tx, t) = tx.encrypt(&mut d);
    match rx.decrypt(&mut d, t) {
        Ok(rx) => {
            check!(d == m, "decryption inverts encryption");
            check!(tx.hash() == rx.hash(), "both sides have the same hash");
            let (tx, t) = tx.encrypt(&mut d[..2]);
            match rx.decrypt(&mut d[..2], t) {
                Ok(rx) => {
                    check!(d == m, "second decryption inverts encryption");
                    check!(tx.hash() == rx.hash(), "both sides have the same hash");
                    let ((mut c1, h1), (c2, h2)) = (tx.finish::<W>(), rx.finish::<W>());
                    let mut c2 = c2.swap();
                    check!(h1 == h2, "same final hash");
                    let tag = c1.encrypt(&x, &mut d);
                    check!(c2.decrypt(&x, &mut d, &tag).is_ok() && d == m, "transport message of one side");
                    let tag = c2.encrypt(&x, &mut d);
                    check!(c1.decrypt(&x, &mut d, &tag).is_ok() && d == m, "transport message of the other side");
                }
                Err(_) => check!(false, "second message accepted"),
            }
        }
        Err(_) => check!(false, "first message accepted"),
    }
}
/// finish: first output keys the sending direction, second the receiving one; rotors get the chaining key and their key
pub fn state_finish() {
    fn is(c: Cipher<Cfg, W>, h: GenericArray<u8, U8>, s: &Spec) {
        let (a, b) = s.keys();
        let mut c = c;
        check!(h[..] == s.h, "handshake hash");
        for (u, k) in [(&mut c.send, a), (&mut c.receive, b)] {
            let (key, n, w) = u.verif_parts();
            check!(key.key == k && *n == 0, "transport key with nonce 0");
            check!(w.ck == s.ck && w.key == k && w.turns == 0, "rotor from the chaining key and the same key");
        }
        let mut c = c.swap();
        check!(c.send.verif_parts().0.key == b && c.receive.verif_parts().0.key == a, "swap exchanges the directions");
    }
    let (mut s, st) = begin::<3>();
    let (c, h) = st.clone().finish::<W>();
    is(c, h, &s);
    let d: [u8; 3] = bytes();
    s.mix_hash(&d);
    s.mix_key(&d);
    let (c, h) = st.mix_hash(&d).mix_shared_secret(&d).finish::<W>();
    is(c, h, &s);
}

// ---- transport: one step from an arbitrary state

fn unidirectional<R: Rotor<Cfg>>() -> Unidirectional<Cfg, R> {
    vru_uf::reset();
    let (ck, k): ([u8; L], [u8; K]) = (bytes(), bytes());
    Cipher::<Cfg, R>::new(ga(&ck), ga(&k), ga(&k)).send
}
fn arbitrary<const I: u64>() -> (Unidirectional<Cfg, Wheel<I>>, u64, [u8; K], u64) {
    let mut u = unidirectional::<Wheel<I>>();
    let n: u64 = any();
    // the last nonce is never reached
    assume(n < u64::MAX);
    let turns: u8 = any();
    let (key, nonce, w) = u.verif_parts();
    *nonce = n;
    w.turns = turns as u64;
    let k = key.key;
    (u, n, k, turns as u64)
}
/// the message number becomes the nonce, then advances by one; the key rotates when it reaches a multiple of the interval
fn step<const I: u64>(u: &mut Unidirectional<Cfg, Wheel<I>>, n: u64, k: [u8; K], turns: u64) {
    let turn = (n + 1) % I == 0;
    let mut k2 = k;
    k2[0] = k2[0].wrapping_add(turn as u8);
    let (key, nonce, w) = u.verif_parts();
    check!(*nonce == n + 1, "the nonce advances by one");
    check!(w.turns == turns + turn as u64, "the rotor turns once per interval");
    check!(key.key == k2, "the key changes exactly when the rotor turns");
}
fn encrypt_step<const I: u64>() {
    let (mut u, n, k, turns) = arbitrary::<I>();
    let (ad, m): ([u8; 2], [u8; 3]) = (bytes(), bytes());
    let (mut a, mut b) = (m, m);
    let t = u.encrypt(&ad, &mut a);
    check!(t[..] == seal(&k, n, &ad, &mut b) && a == b, "encrypted under the current key and nonce");
    step(&mut u, n, k, turns);
}
pub fn cipher_encrypt_1() {
    encrypt_step::<1>()
}
pub fn cipher_encrypt_3() {
    encrypt_step::<3>()
}
pub fn cipher_encrypt_max() {
    encrypt_step::<{ u64::MAX }>()
}
fn decrypt_step<const I: u64>() {
    let (mut u, n, k, turns) = arbitrary::<I>();
    let (ad, m, tag): ([u8; 2], [u8; 3], [u8; T]) = (bytes(), bytes(), bytes());
    let (mut a, mut b) = (m, m);
    let r = u.decrypt(&ad, &mut a, &ga(&tag));
    let ok = open(&k, n, &ad, &mut b, &tag);
    check!(r.is_ok() == ok, "accepted exactly with the right tag");
    check!(a == b, "plaintext");
    if ok {
        step(&mut u, n, k, turns)
    } else {
        let (key, nonce, w) = u.verif_parts();
        check!(*nonce == n && key.key == k && w.turns == turns, "a rejected message changes nothing");
    }
}
pub fn cipher_decrypt_1() {
    decrypt_step::<1>()
}
pub fn cipher_decrypt_3() {
    decrypt_step::<3>()
}
pub fn cipher_decrypt_max() {
    decrypt_step::<{ u64::MAX }>()
}
/// rejected messages in between do not disturb the stream, for any interval
pub fn cipher_tamper() {
    vru_uf::reset();
    let (ck, k): ([u8; L], [u8; K]) = (bytes(), bytes());
    let mut tx = Cipher::<Cfg, Wheel<2>>::new(ga(&ck), ga(&k), ga(&k)).send;
    let mut rx = tx.clone();
    let mut i = 0;
    while i < 3 {
        let (ad, m, x): ([u8; 1], [u8; 2], [u8; T]) = (bytes(), bytes(), bytes());
        let mut d = m;
        let t = tx.encrypt(&ad, &mut d);
        let mut bad = d;
        let r = rx.decrypt(&ad, &mut bad, &ga(&x));
        assume(r.is_err());
        check!(rx.decrypt(&ad, &mut d, &t).is_ok(), "the next honest message is accepted");
        check!(d == m, "and decrypted");
        i += 1;
    }
}
/// the two directions are independent
pub fn cipher_directions() {
    vru_uf::reset();
    let (ck, k1, k2): ([u8; L], [u8; K], [u8; K]) = (bytes(), bytes(), bytes());
    let mut a = Cipher::<Cfg, Wheel<3>>::new(ga(&ck), ga(&k1), ga(&k2));
    let mut b = a.clone().swap();
    let mut i = 0;
    while i < 4 {
        let (ad, m): ([u8; 1], [u8; 2]) = (bytes(), bytes());
        let mut d = m;
        if i == 0 || i == 3 {
            let t = a.encrypt(&ad, &mut d);
            check!(b.decrypt(&ad, &mut d, &t).is_ok() && d == m, "message from one side");
        } else {
            let t = b.encrypt(&ad, &mut d);
            check!(a.decrypt(&ad, &mut d, &t).is_ok() && d == m, "message from the other side");
        }
        i += 1;
    }
}
fn ext<const N: usize>() {
    vru_uf::reset();
    let (ck, k): ([u8; L], [u8; K]) = (bytes(), bytes());
    type P = PhantomData<Cfg>;
    let mut a = Cipher::<Cfg, P>::new(ga(&ck), ga(&k), ga(&k));
    let mut b = a.clone();
    let (ad, m): ([u8; 1], [u8; N]) = (bytes(), bytes());
    let mut d = m;
    let t = seal(&k, 0, &ad, &mut d);
    let mut v = m.to_vec();
    a.encrypt_ext(&ad, &mut v);
    check!(v.len() == N + T && v[..N] == d && v[N..] == t, "ciphertext followed by the tag");
    check!(b.decrypt_ext(&ad, &mut v).is_ok(), "accepted");
    check!(v.len() == N && v[..] == m, "plaintext without the tag");
}
pub fn cipher_ext() {
    ext::<0>();
    ext::<1>();
    ext::<4>();
}
fn ext_any<const N: usize>() {
    vru_uf::reset();
    let (ck, k): ([u8; L], [u8; K]) = (bytes(), bytes());
    let mut a = Cipher::<Cfg, W>::new(ga(&ck), ga(&k), ga(&k));
    let (ad, m): ([u8; 1], [u8; N]) = (bytes(), bytes());
    let mut v = m.to_vec();
    let r = a.decrypt_ext(&ad, &mut v);
    if N < T {
        check!(r.is_err(), "a buffer without room for a tag is rejected");
    } else {
        let mut d = m;
        let (d, t) = d.split_at_mut(N - T);
        let ok = open(&k, 0, &ad, d, t);
        check!(r.is_ok() == ok, "accepted exactly with the right tag");
        if ok {
            check!(v[..] == *d, "plaintext");
        }
    }
    check!(*a.receive.verif_parts().1 == r.is_ok() as u64, "the nonce advances only on success");
}
/// buffers of every length, also without room for a tag, are handled
pub fn cipher_ext_short() {
    ext_any::<0>();
    ext_any::<1>();
    ext_any::<2>();
}
pub fn cipher_ext_any() {
    ext_any::<3>();
    ext_any::<5>();
}
