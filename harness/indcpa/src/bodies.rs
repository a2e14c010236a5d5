#[allow(unused_imports)]
use crate::{
    coefficient::{Coefficient, M},
    indcpa::*,
    poly::Poly,
    poly_inner::PolyInner,
    size::PolySize,
};
#[allow(unused_imports)]
use rac::generic_array::{sequence::GenericSequence, ArrayLength};
use rac::generic_array::{typenum::*, GenericArray};
use rac::LineValid;
use vnd::{bytes, check};

/// the values of the stream `seed || a || b`
static mut VALUES: [[[u16; 2]; 4]; 4] = [[[0; 2]; 4]; 4];
static mut RHO: [u8; 32] = [0; 32];

/// from now on the matrix of `seed` is the arbitrary `VALUES`, any other seed is an error
fn start(seed: &[u8; 32], w: usize) {
    start_with(seed, w, M)
}
fn start_with(seed: &[u8; 32], w: usize, mask: u16) {
    let mut v = [[[0; 2]; 4]; 4];
    let mut i = 0;
    while i < w {
        let mut j = 0;
        while j < w {
            let x: [u16; 2] = [vnd::any(), vnd::any()];
            v[i][j] = [x[0] & mask, x[1] & mask];
            j += 1;
        }
        i += 1;
    }
    unsafe {
        VALUES = v;
        RHO = *seed;
    }
    #[cfg(not(kani))]
    sha3::xof::rows(seed, v);
    sha3::xof::short();
}
/// contract of `gen_matrix` (property C08): entry (i, j) is the stream of (j, i), or of (i, j) when transposed
#[cfg(kani)]
pub fn gen_matrix<S, W, T>(seed: &GenericArray<u8, U32>) -> GenericArray<GenericArray<Poly<S, B0>, W>, W>
where
    S: PolySize + Unsigned,
    W: ArrayLength<Poly<S, B0>> + ArrayLength<GenericArray<Poly<S, B0>, W>>,
    T: Bit,
{
    let mut ok = true;
    let mut i = 0;
    while i < 32 {
        ok &= seed[i] == unsafe { RHO[i] };
        i += 1;
    }
    check!(ok, "the matrix is generated from the public seed");
    GenericArray::generate(|i| {
        GenericArray::generate(|j| {
            let v = if T::BOOL { entry(i, j) } else { entry(j, i) };
            let mut c = GenericArray::<Coefficient, S::C>::default();
            c[0] = Coefficient(v[0]);
            c[1] = Coefficient(v[1]);
            Poly::verif_new(PolyInner { c })
        })
    })
}
fn reset() {
    vru_uf::reset();
    sha3::reset();
}
fn expand(seed: &[u8; 32]) -> ([u8; 32], [u8; 32]) {
    let mut o = [0; 64];
    vru_uf::apply(sha3::TAG_SHA3_512, seed, &mut o);
    let (mut a, mut b) = ([0; 32], [0; 32]);
    a.copy_from_slice(&o[..32]);
    b.copy_from_slice(&o[32..]);
    (a, b)
}
type P = [u16; 2];
fn entry(a: usize, b: usize) -> P {
    unsafe { VALUES[a][b] }
}
fn noise(seed: &[u8; 32], nonce: usize) -> P {
    let mut i = [0; 33];
    i[..32].copy_from_slice(seed);
    i[32] = nonce as u8;
    let mut o = [0; 4];
    vru_uf::apply(sha3::TAG_SHAKE256, &i, &mut o);
    [(o[0] as u16 & 3).wrapping_sub(1) & M, (o[1] as u16 & 3).wrapping_sub(1) & M]
}
fn noises<const W: usize>(seed: &[u8; 32], first: usize) -> [P; W] {
    let mut r = [[0; 2]; W];
    let mut i = 0;
    while i < W {
        r[i] = noise(seed, first + i);
        i += 1;
    }
    r
}
fn mul_add(s: u16, a: u16, b: u16) -> u16 {
    s.wrapping_add(a.wrapping_mul(b))
}
fn slight(x: u16) -> u8 {
    ((x & M) >> 1) as u8
}

macro_rules! group {
    ($m:ident, $w:ty, $n:expr) => {
        pub mod $m {
            use super::*;
            pub const W: usize = $n;
            pub const PKL: usize = 2 * W + 32;
            pub const SKL: usize = 4 * W;
            pub const CTL: usize = 2 * W + 1;
            pub type Sk = SecretKey<U1, $w>;
            pub type Pk = PublicKey<U1, $w>;
            pub type Ct = CipherText<U1, $w>;
            pub fn pk(b: &[u8; PKL]) -> Pk {
                Pk::try_clone_array(GenericArray::from_slice(b)).unwrap()
            }
            pub fn sk(b: &[u8; SKL]) -> Sk {
                Sk::try_clone_array(GenericArray::from_slice(b)).unwrap()
            }
            pub fn ct(b: &[u8; CTL]) -> Ct {
                Ct::try_clone_array(GenericArray::from_slice(b)).unwrap()
            }
            /// t = round(A s + e)
            pub fn key_pair() {
                reset();
                let seed: [u8; 32] = bytes();
                let (rho, sigma) = expand(&seed);
                start(&rho, W);
                let (s, e) = (noises::<W>(&sigma, 0), noises::<W>(&sigma, W));
                let (sk, pk): (Sk, Pk) = crate::indcpa::key_pair(GenericArray::from_slice(&seed));
                let (sl, pl) = (sk.clone_line(), pk.clone_line());
                let (mut ok_s, mut ok_t) = (true, true);
                let mut i = 0;
                while i < W {
                    let mut k = 0;
                    while k < 2 {
                        let mut t = e[i][k];
                        let mut j = 0;
                        while j < W {
                            t = mul_add(t, entry(j, i)[k], s[j][k]);
                            j += 1;
                        }
                        ok_t &= pl[2 * i + k] == slight(t);
                        ok_s &= sl[4 * i + 2 * k] as u16 | (sl[4 * i + 2 * k + 1] as u16) << 8 == s[i][k];
                        k += 1;
                    }
                    i += 1;
                }
                check!(ok_s, "secret key is the noise of the first nonces");
                check!(ok_t, "public key is A s + e, rounded");
                check!(pl[2 * W..] == rho[..], "public key carries the matrix seed");
            }
            /// u = round(A^T r + e1), v = round(t r + e2 + message)
            pub fn encrypt() {
                reset();
                let line: [u8; PKL] = bytes();
                let mut rho = [0; 32];
                rho.copy_from_slice(&line[2 * W..]);
                start(&rho, W);
                let coins: [u8; 32] = bytes();
                let m: [u8; 1] = bytes();
                let c: Ct = encapsulate(GenericArray::from_slice(&coins), GenericArray::from_slice(&m), &pk(&line));
                let l = c.clone_line();
                let (r, e1, e2) = (noises::<W>(&coins, 0), noises::<W>(&coins, W), noise(&coins, 2 * W));
                let mut ok_u = true;
                let mut v = [0; 2];
                let mut k = 0;
                while k < 2 {
                    v[k] = e2[k].wrapping_add(((m[0] >> k) as u16 & 1) << 8);
                    let mut i = 0;
                    while i < W {
                        let mut u = e1[i][k];
                        let mut j = 0;
                        while j < W {
                            u = mul_add(u, entry(i, j)[k], r[j][k]);
                            j += 1;
                        }
                        ok_u &= l[2 * i + k] == slight(u);
                        v[k] = mul_add(v[k], (line[2 * i + k] as u16) << 1, r[i][k]);
                        i += 1;
                    }
                    k += 1;
                }
                check!(ok_u, "first part of the ciphertext is A^T r + e1, rounded");
                check!(l[2 * W] == ((v[0] & M) >> 5) as u8 | (((v[1] & M) >> 5) as u8) << 4,
                    "second part of the ciphertext is t r + e2 + message, rounded");
            }
            /// message = decode(v - s u)
            pub fn decrypt() {
                let (sb, cb): ([u8; SKL], [u8; CTL]) = (bytes(), bytes());
                let m: GenericArray<u8, U1> = decapsulate(&ct(&cb), &sk(&sb));
                let mut k = 0;
                let mut ok = true;
                while k < 2 {
                    let mut x = ((cb[2 * W] >> (4 * k)) as u16 & 15) << 5;
                    let mut i = 0;
                    while i < W {
                        let s = sb[4 * i + 2 * k] as u16 | (sb[4 * i + 2 * k + 1] as u16) << 8;
                        x = x.wrapping_sub(s.wrapping_mul((cb[2 * i + k] as u16) << 1));
                        i += 1;
                    }
                    let x = x & M;
                    ok &= (m[0] >> k) & 1 == (x >= 128 && x <= 384) as u8;
                    k += 1;
                }
                check!(ok, "the message is decoded from v - s u");
            }
            /// every line is accepted and reproduced
            pub fn lines() {
                reset();
                let (sb, cb, pb): ([u8; SKL], [u8; CTL], [u8; PKL]) = (bytes(), bytes(), bytes());
                let mut rho = [0; 32];
                rho.copy_from_slice(&pb[2 * W..]);
                start(&rho, W);
                check!(ct(&cb).clone_line()[..] == cb[..], "ciphertext line round trip");
                let p = pk(&pb);
                check!(p.clone_line()[..] == pb[..], "public key line round trip");
                check!(p.clone().clone_line()[..] == pb[..], "public key clone");
                let mut canon = sb;
                let mut i = 0;
                while i < 2 * W {
                    canon[2 * i + 1] &= 1;
                    i += 1;
                }
                check!(sk(&sb).clone_line()[..] == canon[..], "secret key line round trip");
            }
        }
    };
}
group!(w2, U2, 2);
group!(w3, U3, 3);
group!(w4, U4, 4);

/// noise cancels: a generated pair decrypts what is encrypted for it, in memory or over lines
pub fn correct_w2() {
    reset();
    let seed: [u8; 32] = bytes();
    let (rho, _) = expand(&seed);
    start_with(&rho, 2, 3);
    let (sk, pk): (w2::Sk, w2::Pk) = key_pair(GenericArray::from_slice(&seed));
    let coins: [u8; 32] = bytes();
    let m: [u8; 1] = bytes();
    let c: w2::Ct = encapsulate(GenericArray::from_slice(&coins), GenericArray::from_slice(&m), &pk);
    let c2 = w2::Ct::try_clone_array(&c.clone_line()).unwrap();
    check!(decapsulate(&c, &sk)[0] == m[0] & 3, "decryption returns the message");
    check!(decapsulate(&c2, &sk)[0] == m[0] & 3, "decryption of the ciphertext line returns the message");
}
/// a generated key encrypts exactly as the key parsed from its line
pub fn key_in_memory_w2() {
    reset();
    let seed: [u8; 32] = bytes();
    let (rho, _) = expand(&seed);
    start(&rho, 2);
    let (_, pk): (w2::Sk, w2::Pk) = key_pair(GenericArray::from_slice(&seed));
    let pk2 = w2::Pk::try_clone_array(&pk.clone_line()).unwrap();
    let coins: [u8; 32] = bytes();
    let m: [u8; 1] = bytes();
    let a: w2::Ct = encapsulate(GenericArray::from_slice(&coins), GenericArray::from_slice(&m), &pk);
    let b: w2::Ct = encapsulate(GenericArray::from_slice(&coins), GenericArray::from_slice(&m), &pk2);
    check!(a.clone_line() == b.clone_line(), "a generated key encrypts as the key parsed from its line");
}
pub use w2::{decrypt as decrypt_w2, encrypt as encrypt_w2, key_pair as key_pair_w2, lines as lines_w2};
pub use w3::{decrypt as decrypt_w3, encrypt as encrypt_w3, key_pair as key_pair_w3, lines as lines_w3};
pub use w4::{decrypt as decrypt_w4, encrypt as encrypt_w4, key_pair as key_pair_w4, lines as lines_w4};
