//! Identities and keys of the session, against the documented encodings.
use crate::{fill, pair};
use rac::{
    generic_array::typenum::{U32, U96},
    Array, Concat, Curve, LineValid,
};
use sha3::{Digest, Sha3_256};
use vnd::{any, below, check};
use vru_kyber::{Kem, Kyber};
use vru_session::handshake::{xx::*, Identity, PublicKey};

type K = Kyber<rac::generic_array::typenum::U3>;

fn text_of(h: &[u8]) -> String {
    let mut b = vec![0];
    b.extend_from_slice(h);
    base64::encode(&b)
}
/// identity -> text -> identity, and the serialized form
pub fn identity_text() {
    let h: Array<U32> = fill();
    let t = text_of(&h);
    let i: Identity = match t.parse() {
        Ok(i) => i,
        Err(_) => panic!("the text of an identity is refused"),
    };
    check!(i.as_ref() == &h[..], "text to identity");
    check!(i.to_string() == t, "identity to text");
    let j: Identity = bincode::deserialize(&bincode::serialize(&i).unwrap()).unwrap();
    check!(i == j, "serialized identity");
    let j: Identity = serde_json::from_str(&serde_json::to_string(&i).unwrap()).unwrap();
    check!(i == j, "serialized identity");
    check!(i.clone() == i, "cloned identity");
    let mut g = h;
    g[below(32)] ^= 1 << below(8);
    check!(text_of(&g).parse::<Identity>().unwrap() != i, "different identities are different");
    check!(text_of(&g).parse::<Identity>().unwrap().to_string() != t, "different identities have different texts");
}
/// any text is parsed or refused
pub fn identity_parse() {
    let n = below(80);
    let alphabet = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_ \n\0";
    let s: String = match below(3) {
        0 => (0..n).map(|_| alphabet[below(alphabet.len())] as char).collect(),
        1 => {
            let v: Vec<u8> = (0..n).map(|_| any()).collect();
            base64::encode(&v)
        }
        _ => (0..n).map(|_| char::from_u32(any::<u16>() as u32).unwrap_or('x')).collect(),
    };
    let r: Result<Identity, _> = s.parse();
    match base64::decode(&s) {
        Ok(b) if b.len() == 33 => match r {
            Ok(i) => check!(i.as_ref() == &b[1..], "the identity is the last 32 bytes"),
            Err(_) => check!(b[0] != 0, "the text of an identity is accepted"),
        },
        _ => check!(r.is_err(), "other texts are refused"),
    }
}
fn flat(p: &PublicKey) -> Vec<u8> {
    p.compress().clone_line().to_vec()
}
/// the identity is the hash of the whole public key
pub fn identity_hash() {
    let (pk, _) = pair();
    let b = flat(&pk);
    check!(b.len() == 1120, "length of a public key");
    check!(pk.identity().as_ref() == &Sha3_256::digest(&b)[..], "identity of a key");
}
/// all routes to a key give the same key
pub fn key_routes() {
    let seed: Array<U96> = fill();
    let (pk, sk) = PublicKey::gen(&seed);
    // the generated key, from the seed
    let e = <curve25519_dalek::scalar::Scalar as LineValid>::try_clone_array(Array::from_slice(&seed[..32])).unwrap();
    let point = curve25519_dalek::edwards::EdwardsPoint::base().exp_ec(&e);
    let (l_pk, l_sk) = K::generate_pair(Array::from_slice(&seed[32..]));
    let lattice = l_pk.clone_line();
    check!(pk.elliptic() == point.clone_line(), "elliptic part of the key of a seed");
    check!(pk.lattice() == lattice, "lattice part of the key of a seed");
    check!(pk.lattice_hash()[..] == Sha3_256::digest(&lattice)[..], "hash of the lattice part");
    check!(flat(&pk)[..32] == pk.elliptic()[..] && flat(&pk)[32..] == lattice[..], "compressed key");
    let ser = bincode::serialize(&pk).unwrap();
    let keys = [
        PublicKey::decompress(pk.compress()),
        PublicKey::decompress(PublicKey::decompress(pk.compress()).compress()),
        pk.clone(),
        bincode::deserialize(&ser).unwrap(),
        serde_json::from_str(&serde_json::to_string(&pk).unwrap()).unwrap(),
    ];
    let sk2 = sk.clone();
    let (peer, peer_sk) = pair();
    let x: Array<U32> = fill();
    let (ct, ss) = K::encapsulate(&x, &l_pk, &pk.lattice_hash());
    let shared = point_dh(&seed, &peer);
    check!(peer.dh(&sk)[..] == shared[..] && peer.dh(&sk2)[..] == shared[..], "elliptic shared secret");
    for k in keys.iter() {
        check!(flat(k) == flat(&pk), "same bytes");
        check!(k.identity() == pk.identity(), "same identity");
        check!(k.lattice_hash() == pk.lattice_hash(), "same hash");
        check!(bincode::serialize(k).unwrap() == ser, "same serialized form");
        check!(k.dh(&peer_sk)[..] == shared[..], "same elliptic shared secret");
        let c = k.encapsulate(&x);
        check!(c.ss == ss && c.ct.clone_line() == ct.clone_line(), "same encapsulation");
        check!(k.decapsulate(&sk, &c.ct) == ss && k.decapsulate(&sk2, &c.ct) == ss, "decapsulated secret");
        check!(K::decapsulate(&l_sk, &l_pk, &pk.lattice_hash(), &c.ct) == ss, "decapsulated secret");
    }
}
fn point_dh(seed: &Array<U96>, peer: &PublicKey) -> Vec<u8> {
    let e = <curve25519_dalek::scalar::Scalar as LineValid>::try_clone_array(Array::from_slice(&seed[..32])).unwrap();
    let p = <curve25519_dalek::edwards::EdwardsPoint as LineValid>::try_clone_array(&peer.elliptic()).unwrap();
    p.exp_ec(&e).clone_line().to_vec()
}
/// any serialized bytes of the right length give a consistent key or an error
pub fn key_parse() {
    let (pk, _) = pair();
    let mut ser = bincode::serialize(&pk).unwrap();
    match below(4) {
        0 => {
            let n = ser.len();
            for _ in 0..1 + below(3) {
                ser[below(n)] ^= 1 << below(8);
            }
        }
        1 => {
            // another elliptic part: a point or not
            let e: Array<U32> = fill();
            ser[..32].copy_from_slice(&e);
        }
        2 => {
            // a consistent other lattice part
            let i = 32 + below(1088);
            ser[i] ^= 1 << below(8);
            let h = Sha3_256::digest(&ser[32..1120]);
            ser[1120..].copy_from_slice(&h);
        }
        _ => {
            let h: Array<U32> = fill();
            ser[1120..].copy_from_slice(&h);
        }
    }
    let good = ser[1120..] == Sha3_256::digest(&ser[32..1120])[..];
    let point = <curve25519_dalek::edwards::EdwardsPoint as LineValid>::try_clone_array(Array::from_slice(&ser[..32]));
    let got: Result<PublicKey, _> = bincode::deserialize(&ser);
    match got {
        Ok(k) => {
            check!(good && point.is_ok(), "an inconsistent key is refused");
            check!(k.lattice()[..] == ser[32..1120], "lattice part");
            check!(k.lattice_hash()[..] == ser[1120..], "hash of the lattice part");
            check!(k.elliptic() == point.unwrap().clone_line(), "elliptic part");
        }
        Err(_) => check!(!good || point.is_err(), "a consistent key is accepted"),
    }
}
/// both sides of both exchanges agree
pub fn key_agreement() {
    let ((a, x), (b, y)) = (pair(), pair());
    check!(a.dh(&y) == b.dh(&x), "elliptic shared secret");
    let c = a.encapsulate(&fill());
    check!(a.decapsulate(&x, &c.ct) == c.ss, "lattice shared secret");
    let c2 = a.encapsulate(&fill());
    check!(c2.ss != c.ss || c2.ct.clone_line() == c.ct.clone_line(), "another seed, another secret");
    check!(b.decapsulate(&y, &c.ct) != c.ss || flat(&a) == flat(&b), "another key decapsulates something else");
}
/// seeds that differ only in bits which the scalar ignores give the same elliptic key
pub fn key_scalar() {
    let mut seed: Array<U96> = fill();
    let (pk, _) = PublicKey::gen(&seed);
    seed[0] ^= any::<u8>() & 7;
    seed[31] ^= any::<u8>() & 0xc0;
    let (pk2, _) = PublicKey::gen(&seed);
    check!(pk.elliptic() == pk2.elliptic(), "clamped scalar");
    let i = below(32);
    let m = [0xf8, 0xff, 0x3f][(i > 0) as usize + (i == 31) as usize];
    let bit = any::<u8>() & m;
    seed[i] ^= bit;
    let (pk3, _) = PublicKey::gen(&seed);
    check!((pk3.elliptic() == pk.elliptic()) == (bit == 0), "every other bit of the seed matters");
    check!(pk3.lattice() == pk.lattice(), "the lattice part does not depend on it");
}
/// a peer that sends arbitrary keys gets an error, never a panic
pub fn malformed_peer() {
    let ((i_pk, i_sk), (r_pk, r_sk)) = (pair(), pair());
    let pi = r_pk.identity();
    let (i_state, m0) = out0(&fill(), &pi);
    let (r_state, mut m1) = take0_out1(&Concat(fill(), fill()), &pi, &r_pk, &r_sk, m0, fill::<U32>());
    type P = Array<U32>;
    if below(2) == 0 {
        // arbitrary ephemeral key of the responder
        if any() {
            (m1.1).0 = fill();
        } else {
            (m1.1).1 = fill();
        }
        let got = take1_out2::<P, P, P>(&Concat(fill(), fill()), i_state, &i_pk, &i_sk, m1, fill(), fill());
        check!(got.is_err(), "refused");
    } else {
        let (_, _, _, mut m2) = match take1_out2::<P, P, P>(&Concat(fill(), fill()), i_state, &i_pk, &i_sk, m1, fill(), fill()) {
            Ok(x) => x,
            Err(_) => panic!("honest second message refused"),
        };
        (m2.2).0 = Concat(fill(), fill());
        check!(take2_out3::<P, P, P, vru_session::handshake::TrivialRotor>(&fill(), r_state, &r_pk, &r_sk, m2, fill()).is_err(), "refused");
    }
}
