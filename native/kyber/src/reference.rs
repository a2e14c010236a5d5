//! An independent implementation of the scheme over the integers modulo q (schoolbook
//! multiplication through plain evaluation/interpolation), compared with the crate's public API.
use crate::exhaustive::root;
use digest::{Digest, ExtendableOutput, Update, XofReader};
use pq_kem::Kem;
use rac::{
    generic_array::{typenum::*, GenericArray},
    Concat, LineValid,
};
use vnd::{any, check};
use vru_kyber::Kyber;

pub const TABLE: &[(&str, fn())] = &[
    ("ref_pair", ref_pair as fn()),
    ("ref_encapsulate", ref_encapsulate as fn()),
    ("ref_decapsulate", ref_decapsulate as fn()),
    ("ref_in_memory", ref_in_memory as fn()),
    ("ref_lines", ref_lines as fn()),
    ("ref_malformed", ref_malformed as fn()),
];
const Q: u64 = 7681;
type P = Vec<u64>;

fn tables() -> &'static (Vec<Vec<u64>>, Vec<Vec<u64>>) {
    use std::sync::OnceLock;
    static T: OnceLock<(Vec<Vec<u64>>, Vec<Vec<u64>>)> = OnceLock::new();
    T.get_or_init(|| {
        let mut f = vec![vec![0; 256]; 256];
        let mut g = vec![vec![0; 256]; 256];
        for i in 0..256 {
            let r = root(i);
            // r^-1 = -r^255
            let mut ri = 1;
            for _ in 0..511 {
                ri = ri * r % Q;
            }
            let (mut a, mut b) = (1, 7651); // 7651 = 256^-1 mod q
            for j in 0..256 {
                f[i][j] = a;
                g[j][i] = b;
                a = a * r % Q;
                b = b * ri % Q;
            }
        }
        (f, g)
    })
}
fn apply(m: &[Vec<u64>], p: &P) -> P {
    m.iter().map(|r| r.iter().zip(p).map(|(a, b)| a * b).sum::<u64>() % Q).collect()
}
fn eval(p: &P) -> P {
    apply(&tables().0, p)
}
fn interp(p: &P) -> P {
    apply(&tables().1, p)
}
fn dot(a: &[P], b: &[P]) -> P {
    (0..256).map(|i| a.iter().zip(b).map(|(x, y)| x[i] * y[i]).sum::<u64>() % Q).collect()
}
fn add(a: &P, b: &P) -> P {
    (0..256).map(|i| (a[i] + b[i]) % Q).collect()
}
fn bits(b: &[u8], off: usize, w: usize) -> u64 {
    (0..w).map(|k| ((b[(off + k) / 8] >> ((off + k) % 8)) as u64 & 1) << k).sum()
}
fn pack(v: &[u64], w: usize) -> Vec<u8> {
    let mut b = vec![0u8; v.len() * w / 8];
    for (i, x) in v.iter().enumerate() {
        for k in 0..w {
            b[(i * w + k) / 8] |= (((x >> k) & 1) as u8) << ((i * w + k) % 8);
        }
    }
    b
}
fn compress(p: &P, d: usize) -> Vec<u8> {
    pack(&p.iter().map(|f| (((f << d) * 2 + Q) / (2 * Q)) % (1 << d)).collect::<Vec<_>>(), d)
}
fn decompress(b: &[u8], d: usize) -> P {
    (0..256).map(|i| (bits(b, d * i, d) * Q + (1 << (d - 1))) >> d).collect()
}
fn shake128(parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut h = sha3::Shake128::default();
    parts.iter().for_each(|p| Update::update(&mut h, p));
    let mut v = vec![0; n];
    h.finalize_xof().read(&mut v);
    v
}
fn shake256(parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut h = sha3::Shake256::default();
    parts.iter().for_each(|p| Update::update(&mut h, p));
    let mut v = vec![0; n];
    h.finalize_xof().read(&mut v);
    v
}
fn h256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = sha3::Sha3_256::default();
    parts.iter().for_each(|p| Update::update(&mut h, p));
    Digest::finalize(h).to_vec()
}
fn h512(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = sha3::Sha3_512::default();
    parts.iter().for_each(|p| Update::update(&mut h, p));
    Digest::finalize(h).to_vec()
}
fn noise(w: usize, seed: &[u8], nonce: usize) -> P {
    let eta = 7 - w;
    let b = shake256(&[seed, &[nonce as u8]], 64 * eta);
    let ones = |off| (0..eta).map(|k| bits(&b, off + k, 1)).sum::<u64>();
    (0..256).map(|i| (Q + ones(2 * eta * i) - ones(2 * eta * i + eta)) % Q).collect()
}
fn entry(seed: &[u8], a: usize, b: usize) -> P {
    let s = shake128(&[seed, &[a as u8, b as u8]], 840);
    (0..420).map(|k| bits(&s, 16 * k, 13)).filter(|v| *v < Q).take(256).collect()
}
/// (public key, secret key) lines
pub fn pair(w: usize, seed: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let c = h512(&[&seed[..32]]);
    let (rho, sigma) = c.split_at(32);
    let s: Vec<P> = (0..w).map(|i| eval(&noise(w, sigma, i))).collect();
    let (mut pk, mut sk) = (Vec::new(), Vec::new());
    for i in 0..w {
        let row: Vec<P> = (0..w).map(|j| entry(rho, j, i)).collect();
        let t = add(&interp(&dot(&row, &s)), &noise(w, sigma, w + i));
        pk.extend(compress(&t, 11));
        sk.extend(pack(&s[i], 13));
    }
    pk.extend(rho);
    sk.extend(&seed[32..]);
    (pk, sk)
}
fn encrypt(w: usize, pk: &[u8], m: &[u8], coins: &[u8]) -> Vec<u8> {
    let rho = &pk[352 * w..];
    let s: Vec<P> = (0..w).map(|i| eval(&noise(w, coins, i))).collect();
    let mut ct = Vec::new();
    for i in 0..w {
        let col: Vec<P> = (0..w).map(|j| entry(rho, i, j)).collect();
        ct.extend(compress(&add(&interp(&dot(&col, &s)), &noise(w, coins, w + i)), 11));
    }
    let t: Vec<P> = (0..w).map(|i| eval(&decompress(&pk[352 * i..352 * (i + 1)], 11))).collect();
    let k: P = (0..256).map(|i| bits(m, i, 1) * 3841).collect();
    let v = add(&add(&interp(&dot(&t, &s)), &noise(w, coins, 2 * w)), &k);
    ct.extend(compress(&v, 3));
    ct
}
fn decrypt(w: usize, sk: &[u8], ct: &[u8]) -> Vec<u8> {
    let s: Vec<P> = (0..w).map(|i| (0..256).map(|k| bits(&sk[416 * i..], 13 * k, 13)).collect()).collect();
    let u: Vec<P> = (0..w).map(|i| eval(&decompress(&ct[352 * i..352 * (i + 1)], 11))).collect();
    let d = interp(&dot(&s, &u));
    let v = decompress(&ct[352 * w..], 3);
    let b: Vec<u64> = (0..256).map(|i| { let x = (v[i] + Q - d[i]) % Q; (1921 <= x && x <= 5760) as u64 }).collect();
    pack(&b, 1)
}
pub fn encapsulate(w: usize, seed: &[u8], pk: &[u8], hash: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let m = h256(&[seed]);
    let c = h512(&[&m, hash]);
    let ct = encrypt(w, pk, &m, &c[32..]);
    let ss = h256(&[&c[..32], &h256(&[&ct])]);
    (ct, ss)
}
pub fn decapsulate(w: usize, sk: &[u8], pk: &[u8], hash: &[u8], ct: &[u8]) -> Vec<u8> {
    let m = decrypt(w, sk, ct);
    let c = h512(&[&m, hash]);
    let again = encrypt(w, pk, &m, &c[32..]);
    let k = if again == ct { &c[..32] } else { &sk[416 * w..] };
    h256(&[k, &h256(&[ct])])
}

macro_rules! each {
    ($f:ident) => {
        match any::<u8>() % 3 {
            0 => $f::<U2>(2),
            1 => $f::<U3>(3),
            _ => $f::<U4>(4),
        }
    };
}
fn line<T: LineValid>(b: &[u8]) -> T {
    match T::try_clone_array(GenericArray::from_slice(b)) {
        Ok(x) => x,
        Err(()) => panic!("a well-formed line is accepted"),
    }
}
fn seeds() -> ([u8; 64], [u8; 32], [u8; 32]) {
    (any(), any(), any())
}
trait K: Kem<PairSeedLength = U64, EncapsulationSeedLength = U32, PublicKeyHashLength = U32, SharedSecretLength = U32> {}
impl<T> K for T where T: Kem<PairSeedLength = U64, EncapsulationSeedLength = U32, PublicKeyHashLength = U32, SharedSecretLength = U32> {}

fn ref_pair() {
    fn go<W>(w: usize) where Kyber<W>: K {
        let s = seeds().0;
        let (pk, sk) = Kyber::<W>::generate_pair(GenericArray::from_slice(&s));
        let (rp, rs) = pair(w, &s);
        check!(pk.clone_line().to_vec() == rp, "public key of a seed");
        check!(sk.clone_line().to_vec() == rs, "secret key of a seed");
    }
    each!(go)
}
fn ref_encapsulate() {
    fn go<W>(w: usize) where Kyber<W>: K {
        let (s, e, h) = seeds();
        let (pk, _) = pair(w, &s);
        let (ct, ss) = Kyber::<W>::encapsulate(GenericArray::from_slice(&e), &line(&pk), GenericArray::from_slice(&h));
        let (rc, rs) = encapsulate(w, &e, &pk, &h);
        check!(ct.clone_line().to_vec() == rc, "ciphertext of a seed");
        check!(ss.to_vec() == rs, "shared secret of an encapsulation");
    }
    each!(go)
}
fn ref_decapsulate() {
    fn go<W>(w: usize) where Kyber<W>: K {
        let (s, e, h) = seeds();
        let (pk, sk) = pair(w, &s);
        let (ct, ss) = encapsulate(w, &e, &pk, &h);
        let dec = |c: &[u8]| {
            Kyber::<W>::decapsulate(&line(&sk), &line(&pk), GenericArray::from_slice(&h), &line(c)).to_vec()
        };
        check!(dec(&ct) == ss, "decapsulation returns the encapsulated secret");
        let mut ct2 = ct.clone();
        // a change of one bit, or of several bytes
        let n = 1 + any::<u8>() as usize % 3;
        for _ in 0..n {
            let p = any::<u16>() as usize % ct.len();
            ct2[p] ^= 1 << (any::<u8>() % 8);
        }
        let got = dec(&ct2);
        check!(got == decapsulate(w, &sk, &pk, &h, &ct2), "secret for a modified ciphertext");
        check!(ct == ct2 || got != ss, "a modified ciphertext does not yield the original secret");
        // arbitrary ciphertext
        let x: Vec<u8> = shake128(&[&e, b"arbitrary"], ct.len());
        check!(dec(&x) == decapsulate(w, &sk, &pk, &h, &x), "secret for an arbitrary ciphertext");
    }
    each!(go)
}
/// keys used as generated, never serialized
fn ref_in_memory() {
    fn go<W>(_: usize) where Kyber<W>: K {
        let (s, e, h) = seeds();
        let (pk, sk) = Kyber::<W>::generate_pair(GenericArray::from_slice(&s));
        let h = GenericArray::from_slice(&h);
        let (ct, ss) = Kyber::<W>::encapsulate(GenericArray::from_slice(&e), &pk, h);
        check!(Kyber::<W>::decapsulate(&sk, &pk, h, &ct) == ss, "a generated pair agrees on the secret without serialization");
    }
    each!(go)
}
/// every line is accepted and reproduced (the secret key up to canonical residues)
fn ref_lines() {
    fn go<W>(w: usize) where Kyber<W>: K {
        let s: [u8; 32] = any();
        let pk = shake128(&[&s, b"pk"], 352 * w + 32);
        check!(line::<<Kyber<W> as Kem>::PublicKey>(&pk).clone_line().to_vec() == pk, "public key line round trip");
        let ct = shake128(&[&s, b"ct"], 352 * w + 96);
        check!(line::<<Kyber<W> as Kem>::CipherText>(&ct).clone_line().to_vec() == ct, "ciphertext line round trip");
        let sk = shake128(&[&s, b"sk"], 416 * w + 32);
        let r = line::<<Kyber<W> as Kem>::SecretKey>(&sk).clone_line().to_vec();
        let canon: Vec<u64> = (0..256 * w).map(|i| bits(&sk, 13 * i, 13) % Q).collect();
        check!(r[..416 * w] == pack(&canon, 13)[..] && r[416 * w..] == sk[416 * w..], "secret key line round trip");
    }
    each!(go)
}
/// no line of the right length makes an operation panic
fn ref_malformed() {
    fn go<W>(w: usize) where Kyber<W>: K {
        let (s, e, h) = seeds();
        let h = GenericArray::from_slice(&h);
        let fill = if any::<bool>() { Some(0xffu8) } else { None };
        let mk = |d: &[u8], n| fill.map(|f| vec![f; n]).unwrap_or(shake128(&[&s, d], n));
        let pk = line::<<Kyber<W> as Kem>::PublicKey>(&mk(b"pk", 352 * w + 32));
        let sk = line::<<Kyber<W> as Kem>::SecretKey>(&mk(b"sk", 416 * w + 32));
        let ct = line::<<Kyber<W> as Kem>::CipherText>(&mk(b"ct", 352 * w + 96));
        let _ = Kyber::<W>::encapsulate(GenericArray::from_slice(&e), &pk, h);
        let _ = Kyber::<W>::decapsulate(&sk, &pk, h, &ct);
        let _ = Concat(ct, pk);
    }
    each!(go)
}
