//! The real handshake with the real primitives, against a direct implementation of the pattern.
mod keys;
mod noise;

use noise::Spec;
use rac::{
    generic_array::typenum::{self, U0, U1, U16, U16 as T, U200, U32, U64, U7, U96},
    Array, Concat, Line, LineValid,
};
use vnd::{any, below, check};
use vru_session::handshake::{xx::*, Identity, PublicKey, SecretKey, TrivialCipher, TrivialRotor};

pub fn fill<N: rac::generic_array::ArrayLength<u8>>() -> Array<N> {
    let mut a = Array::default();
    let s: [u64; 4] = any();
    let mut x = s[0] | 1;
    for (i, b) in a.iter_mut().enumerate() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(s[i % 4] | 1);
        *b = (x >> 53) as u8;
    }
    if below(8) == 0 {
        let v: u8 = any();
        a.iter_mut().for_each(|b| *b = v);
    }
    a
}
/// a few key pairs, made once
pub fn pair() -> (PublicKey, SecretKey) {
    PublicKey::gen(&fill::<U96>())
}

type Pay<N> = Array<N>;
fn flat<L: LineValid>(l: &L) -> Vec<u8> {
    l.clone_line().to_vec()
}

/// an honest run, byte for byte against the pattern; returns nothing but checks everything
macro_rules! honest {
    ($name:ident, $p:ty, $q:ty, $r:ty, $s:ty) => {
        fn $name() {
            let ((i_pk, i_sk), (r_pk, r_sk)) = (pair(), pair());
            let (i_seed, r_seed): (Array<U96>, Array<U96>) = (fill(), fill());
            let (x0, x1, x2, x3): (Array<U32>, Array<U32>, Array<U32>, Array<U32>) = (fill(), fill(), fill(), fill());
            let (p, q, r, s): (Pay<$p>, Pay<$q>, Pay<$r>, Pay<$s>) = (fill(), fill(), fill(), fill());
            let pi = r_pk.identity();
            let (ie_pk, ie_sk) = PublicKey::gen(&i_seed);
            let (re_pk, re_sk) = PublicKey::gen(&r_seed);
            // messages
            let (i_state, m0) = out0(&i_seed, &pi);
            let w0 = flat(&m0);
            let (r_state, m1) = take0_out1(&Concat(r_seed, x0), &pi, &r_pk, &r_sk, m0, p.clone());
            let w1 = [flat(&m1.0), flat(&m1.1), flat(&m1.2)];
            let (i_state, rr_pk, gp, m2) = match take1_out2::<Pay<$p>, _, _>(&Concat(x1, x2), i_state, &i_pk, &i_sk, m1, q.clone(), r.clone()) {
                Ok(x) => x,
                Err(e) => panic!("second message refused: {}", e),
            };
            let w2 = [flat(&m2.0), flat(&m2.1), flat(&m2.2)];
            let (mut r_cipher, r_hash, ri_pk, gq, gr, m3) = match take2_out3::<Pay<$q>, Pay<$r>, _, TrivialRotor>(&x3, r_state, &r_pk, &r_sk, m2, s.clone()) {
                Ok(x) => x,
                Err(e) => panic!("third message refused: {}", e),
            };
            let w3 = flat(&m3);
            let (mut i_cipher, i_hash, gs) = match take_3::<Pay<$s>, TrivialRotor>(i_state, &i_pk, &i_sk, m3) {
                Ok(x) => x,
                Err(e) => panic!("last message refused: {}", e),
            };
            check!(gp == p && gq == q && gr == r && gs == s, "payloads arrive");
            check!(flat(&rr_pk.compress()) == flat(&r_pk.compress()), "static key of the responder");
            check!(flat(&ri_pk.compress()) == flat(&i_pk.compress()), "static key of the initiator");
            // the pattern
            let mut z = Spec::new("Noise_XX_25519+Kyber_ChaChaPoly_SHA256");
            z.mix_hash(pi.as_ref());
            let e = flat(&ie_pk.compress());
            check!(w0 == e, "first message");
            z.mix_hash(&e);
            let c = ie_pk.encapsulate(&x0);
            z.mix_key(&c.ss);
            let mut want = flat(&c.ct);
            want.extend(z.seal(&p));
            check!(w1[0] == want, "second message, ephemeral ciphertext and payload");
            let e = flat(&re_pk.compress());
            check!(w1[1] == e, "second message, ephemeral key");
            z.mix_hash(&e);
            z.mix_key(&ie_pk.dh(&re_sk));
            check!(w1[2] == z.seal(&flat(&r_pk.compress())), "second message, static key");
            z.mix_key(&r_pk.dh(&ie_sk));
            let c = re_pk.encapsulate(&x1);
            z.mix_key(&c.ss);
            let mut want = flat(&c.ct);
            want.extend(z.seal(&q));
            check!(w2[0] == want, "third message, ephemeral ciphertext and payload");
            let c = r_pk.encapsulate(&x2);
            z.mix_key(&c.ss);
            check!(w2[1] == flat(&c.ct), "third message, static ciphertext");
            let mut want = z.seal(&flat(&i_pk.compress()));
            z.mix_key(&re_pk.dh(&i_sk));
            want.extend(z.seal(&r));
            check!(w2[2] == want, "third message, static key and payload");
            let c = i_pk.encapsulate(&x3);
            z.mix_key(&c.ss);
            let mut want = flat(&c.ct);
            want.extend(z.seal(&s));
            check!(w3 == want, "last message");
            check!(i_hash[..] == z.h[..] && r_hash[..] == z.h[..], "handshake hash");
            transport(&mut i_cipher, &mut r_cipher, z.split());
        }
    };
}
fn transport(i: &mut TrivialCipher, r: &mut TrivialCipher, keys: [[u8; 32]; 2]) {
    let mut n = [0, 0];
    for _ in 0..6 {
        let side = below(2);
        let (tx, rx) = if side == 0 { (&mut *i, &mut *r) } else { (&mut *r, &mut *i) };
        let m = fill::<U64>()[..below(65)].to_vec();
        let mut v = m.clone();
        tx.encrypt_ext(b"ad", &mut v);
        check!(v == noise::seal_at(&keys[side], n[side], b"ad", &m), "transport message");
        n[side] += 1;
        check!(rx.decrypt_ext(b"ad", &mut v).is_ok() && v == m, "transport message arrives");
    }
}
honest!(ref_handshake, U16, U16, U16, U16);
honest!(ref_handshake_sizes, U0, U1, U200, U7);
honest!(ref_handshake_large, U200, U64, U0, U32);

fn flip<N: rac::generic_array::ArrayLength<u8>>(a: &mut Array<N>) -> bool {
    if a.is_empty() {
        return false;
    }
    let (i, b) = (below(a.len()), below(8));
    a[i] ^= 1 << b;
    true
}
/// one modified bit anywhere is noticed by the step that must notice it
fn tamper() {
    match below(8) {
        0 => tamper_with::<U0>(),
        1 => tamper_with::<U1>(),
        2 => tamper_with::<U32>(),
        3 => tamper_with::<U200>(),
        _ => tamper_with::<T>(),
    }
}
fn tamper_with<N>()
where
    N: rac::generic_array::ArrayLength<u8> + core::ops::Add<U16>,
    <N as core::ops::Add<U16>>::Output: rac::generic_array::ArrayLength<u8>,
{
    let ((i_pk, i_sk), (r_pk, r_sk)) = (pair(), pair());
    let (i_seed, r_seed): (Array<U96>, Array<U96>) = (fill(), fill());
    let p: [Pay<N>; 4] = [fill(), fill(), fill(), fill()];
    let [p, q, r, s] = p;
    let mut pi = r_pk.identity();
    let place = below(16);
    let (i_state, mut m0) = out0(&i_seed, &pi);
    match place {
        0 => {
            // (an invalid point in the first message is a known finding)
            check!(flip(&mut m0.1), "modified");
        }
        1 => {
            pi = i_pk.identity();
            vnd::assume(pi != r_pk.identity());
        }
        _ => (),
    }
    let (r_state, mut m1) = take0_out1(&Concat(r_seed, fill()), &pi, &r_pk, &r_sk, m0, p);
    match place {
        3 => {
            if !flip(&mut ((m1.0).1).0) {
                flip(&mut ((m1.0).1).1);
            }
        }
        4 => drop(flip(&mut ((m1.0).1).1)),
        5 => drop(flip(&mut (m1.1).0)),
        6 => drop(flip(&mut (m1.1).1)),
        7 => drop(flip(&mut (m1.2).0)),
        8 => drop(flip(&mut (m1.2).1)),
        _ => (),
    }
    if place == 2 {
        let mut l = (m1.0).0.clone_line();
        flip(&mut l);
        (m1.0).0 = LineValid::try_clone_array(&l).unwrap();
    }
    let got = take1_out2::<Pay<N>, _, _>(&Concat(fill(), fill()), i_state, &i_pk, &i_sk, m1, q, r);
    let (i_state, mut m2) = match (place, got) {
        (0..=4, Err(InitiatorsError::PayloadPMac(_))) => return,
        (5, Err(InitiatorsError::InvalidKey)) => return,
        (5..=8, Err(InitiatorsError::StaticKeyMac(_))) => return,
        (0..=8, _) => panic!("modified second message, wrong result"),
        (_, Ok((s, _, _, m))) => (s, m),
        (_, Err(_)) => panic!("honest second message refused"),
    };
    macro_rules! flip_line {
        ($e:expr) => {{
            let mut l = $e.clone_line();
            flip(&mut l);
            $e = LineValid::try_clone_array(&l).unwrap();
        }};
    }
    match place {
        9 => flip_line!((m2.0).0),
        10 => {
            if !(any() && flip(&mut ((m2.0).1).0)) {
                flip(&mut ((m2.0).1).1);
            }
        }
        11 => flip_line!(m2.1),
        12 => {
            if !(any() && flip(&mut ((m2.2).0).0)) {
                flip(&mut ((m2.2).0).1);
            }
        }
        13 => {
            if !(any() && flip(&mut ((m2.2).1).0)) {
                flip(&mut ((m2.2).1).1);
            }
        }
        _ => (),
    }
    let got = take2_out3::<Pay<N>, Pay<N>, _, TrivialRotor>(&fill(), r_state, &r_pk, &r_sk, m2, s);
    let mut m3 = match (place, got) {
        (9 | 10, Err(RespondersError::PayloadQMac(_))) => return,
        (11 | 12, Err(RespondersError::StaticKeyMac(_))) => return,
        (13, Err(RespondersError::PayloadRMac(_))) => return,
        (9..=13, _) => panic!("modified third message, wrong result"),
        (_, Ok((.., m))) => m,
        (_, Err(_)) => panic!("honest third message refused"),
    };
    match place {
        14 => flip_line!(m3.0),
        _ => {
            if !(any() && flip(&mut (m3.1).0)) {
                flip(&mut (m3.1).1);
            }
        }
    }
    match take_3::<Pay<N>, TrivialRotor>(i_state, &i_pk, &i_sk, m3) {
        Err(InitiatorsError::PayloadSMac(_)) => (),
        _ => panic!("modified last message, wrong result"),
    }
}
/// a complete protocol run by somebody else who knows the dialled identity
fn impostor() {
    let ((i_pk, i_sk), (r_pk, r_sk), (x_pk, _)) = (pair(), pair(), pair());
    let pi = x_pk.identity();
    let (i_state, m0) = out0(&fill(), &pi);
    let (_, m1) = take0_out1(&Concat(fill(), fill()), &pi, &r_pk, &r_sk, m0, fill::<U16>());
    let got = take1_out2::<Pay<U16>, Pay<U16>, Pay<U16>>(&Concat(fill(), fill()), i_state, &i_pk, &i_sk, m1, fill(), fill());
    check!(flat(&x_pk.compress()) == flat(&r_pk.compress()) || got.is_err(), "the static key must belong to the dialled identity");
}
/// known finding: the first message cannot be refused
fn invalid_point_in_first_message() {
    let (r_pk, r_sk) = pair();
    let (e_pk, _) = pair();
    let Concat(_, l) = e_pk.compress();
    let mut e = Array::<U32>::default();
    // y = 2 is not on the curve
    e[0] = 2;
    let _ = take0_out1(&Concat(fill(), fill()), &r_pk.identity(), &r_pk, &r_sk, Concat(e, l), fill::<U16>());
}
#[allow(dead_code)]
fn _unused(_: &Identity, _: typenum::U1) {
    let _ = <Array<U1> as Line>::clone_array;
}

fn main() {
    vnd::native::main(&[
        ("ref_handshake", ref_handshake),
        ("ref_handshake_sizes", ref_handshake_sizes),
        ("ref_handshake_large", ref_handshake_large),
        ("tamper", tamper),
        ("impostor", impostor),
        ("invalid_point_in_first_message", invalid_point_in_first_message),
        ("identity_text", keys::identity_text),
        ("identity_parse", keys::identity_parse),
        ("identity_hash", keys::identity_hash),
        ("key_routes", keys::key_routes),
        ("key_parse", keys::key_parse),
        ("key_agreement", keys::key_agreement),
        ("key_scalar", keys::key_scalar),
        ("malformed_peer", keys::malformed_peer),
    ])
}
