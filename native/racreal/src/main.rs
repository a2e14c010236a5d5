//! rac with the real curve libraries.
use curve25519_dalek::{
    constants::ED25519_BASEPOINT_POINT,
    edwards::{CompressedEdwardsY, EdwardsPoint},
    montgomery::MontgomeryPoint,
    scalar::Scalar as S25519,
    traits::IsIdentity,
};
use rac::{
    generic_array::{typenum::*, GenericArray},
    Array, Concat, Curve, Line, LineLike, LineValid, Scalar, Schnorr, Signature,
};
use secp256k1::{PublicKey, SecretKey, Signature as SecpSignature};
use sha3::{Digest, Sha3_256};
use vnd::{any, bytes, check};

fn ga<N: rac::generic_array::ArrayLength<u8>>(b: &[u8]) -> Array<N> {
    GenericArray::clone_from_slice(b)
}
type Sig = Schnorr<EdwardsPoint, Sha3_256>;
fn clamped(mut b: [u8; 32]) -> S25519 {
    b[0] &= 0xf8;
    b[31] = b[31] & 0x7f | 0x40;
    S25519::from_bits(b)
}
fn message() -> Vec<u8> {
    let n = vnd::below(200);
    (0..n).map(|_| any::<u8>()).collect()
}
fn signed() -> (EdwardsPoint, Vec<u8>, Sig) {
    let d = S25519::try_clone_array(&ga(&bytes::<32>())).unwrap();
    let k = S25519::try_clone_array(&ga(&bytes::<32>())).unwrap();
    let m = message();
    let y = EdwardsPoint::base().exp_ec(&d);
    let g = Sig::sign(&d, &m, &k);
    check!(g.is_ok(), "signing works");
    let g = g.unwrap();
    // what the signature is
    let l = g.clone_line();
    let mut r = (ED25519_BASEPOINT_POINT * k).compress().to_bytes();
    r[31] &= 0x7f;
    let mut h = [0; 32];
    h.copy_from_slice(&Sha3_256::new().chain(&r).chain(&m).finalize());
    let s = k - d * clamped(h);
    check!(l[..32] == r[..] && l[32..] == s.as_bytes()[..], "r || s");
    (y, m, g)
}
fn schnorr_25519() {
    let (y, m, g) = signed();
    check!(g.verify(&y, &m).is_ok(), "an honest signature is accepted");
    check!(g.clone().verify(&y, &m).is_ok(), "and its clone");
}
fn schnorr_25519_tamper() {
    let (y, mut m, g) = signed();
    match vnd::below(3) {
        0 => {
            if m.is_empty() {
                m.push(any());
            } else {
                let i = vnd::below(m.len());
                m[i] ^= 1 << vnd::below(8);
            }
            check!(g.verify(&y, &m).is_err(), "another message is refused");
        }
        1 => {
            let z = EdwardsPoint::base().exp_ec(&S25519::try_clone_array(&ga(&bytes::<32>())).unwrap());
            check!(z == y || g.verify(&z, &m).is_err(), "another key is refused");
        }
        _ => {
            let mut l = g.clone_line();
            let i = vnd::below(32);
            l[i] ^= 1 << vnd::below(8);
            if let Ok(t) = Sig::try_clone_array(&l) {
                check!(t.verify(&y, &m).is_err(), "another commitment is refused");
            }
        }
    }
}
/// known finding: the response is clamped when a signature is read
fn schnorr_25519_transfer() {
    let (y, m, g) = signed();
    let t = Sig::try_clone_array(&g.clone_line()).unwrap();
    check!(t.verify(&y, &m).is_ok(), "a transferred signature is accepted");
}
/// any scalar, often a special one: small, or just below the order of secp256k1
fn scalar() -> [u8; 32] {
    let mut b: [u8; 32] = bytes();
    match vnd::below(8) {
        0 => {
            let k = b[31] % 4;
            b = [0; 32];
            b[31] = k;
        }
        1 => {
            let k = b[31] % 4;
            b = [0; 32];
            b[0] = k;
        }
        2 => {
            let k = b[31] % 4;
            b[..16].copy_from_slice(&[255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254]);
            b[16..].copy_from_slice(&[0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41]);
            b[31] -= k;
        }
        3 => b = [b[0]; 32],
        _ => (),
    }
    b
}
fn curve_25519() {
    let (a, b): ([u8; 32], [u8; 32]) = (scalar(), scalar());
    let (x, y) = (S25519::try_clone_array(&ga(&a)).unwrap(), S25519::try_clone_array(&ga(&b)).unwrap());
    check!(x == clamped(a) && x.clone_line()[..] == clamped(a).as_bytes()[..], "clamped");
    check!(x.add_ff(&y) == Ok(x + y) && x.sub_ff(&y) == Ok(x - y) && x.mul_ff(&y) == Ok(x * y), "field operations");
    let g = EdwardsPoint::base();
    check!(g == ED25519_BASEPOINT_POINT, "base point");
    let (p, q) = (g.exp_ec(&x), g.exp_ec(&y));
    check!(p == ED25519_BASEPOINT_POINT * x, "multiple of the base point");
    check!(p.exp_ec(&y) == q.exp_ec(&x), "both sides of an exchange agree");
    check!(p.mul_ec(&q) == p + q && p.mul_ec(&q) == q.mul_ec(&p), "addition");
    check!(EdwardsPoint::decompress(&Curve::compress(&p)) == Ok(p) && EdwardsPoint::try_clone_array(&p.clone_line()) == Ok(p), "there and back");
    check!(Curve::compress(&p)[..] == p.compress().as_bytes()[..] && p.clone_line() == Curve::compress(&p), "encoding");
    let mut c = p.compress().to_bytes();
    c[31] &= 0x7f;
    check!(p.x_coordinate()[..] == c[..], "coordinate");
    // any string
    let s: [u8; 32] = bytes();
    match (EdwardsPoint::try_clone_array(&ga(&s)), CompressedEdwardsY(s).decompress()) {
        (Ok(r), Some(t)) => check!(r == t, "decompressed"),
        (Err(()), None) => (),
        _ => check!(false, "only points are accepted"),
    }
    let mp = MontgomeryPoint::base();
    check!(mp == ED25519_BASEPOINT_POINT.to_montgomery(), "base point (Montgomery)");
    check!(mp.exp_ec(&x) == p.to_montgomery() && mp.exp_ec(&x).exp_ec(&y) == mp.exp_ec(&y).exp_ec(&x), "exchange (Montgomery)");
    let w = MontgomeryPoint::decompress(&ga(&s)).unwrap();
    check!(Curve::compress(&w)[..] == s[..] && w.clone_line()[..] == s[..], "encoding (Montgomery)");
    check!(!p.is_identity(), "a clamped scalar is no multiple of the order");
}
fn curve_secp() {
    let (a, b): ([u8; 32], [u8; 32]) = (scalar(), scalar());
    let (x, y) = match (SecretKey::try_clone_array(&ga(&a)), SecretKey::try_clone_array(&ga(&b))) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => {
            check!(x.is_err() == SecretKey::from_slice(&a).is_err() && y.is_err() == SecretKey::from_slice(&b).is_err(), "only scalars are accepted");
            return;
        }
    };
    check!(x.clone_line()[..] == a[..], "line of a scalar");
    let g = PublicKey::base();
    let (p, q) = (g.exp_ec(&x), g.exp_ec(&y));
    let ctx = secp256k1::Secp256k1::new();
    check!(p == PublicKey::from_secret_key(&ctx, &x), "multiple of the base point");
    check!(p.exp_ec(&y) == q.exp_ec(&x), "both sides of an exchange agree");
    if let Ok(s) = x.add_ff(&y) {
        check!(g.exp_ec(&s) == if p == q { g.exp_ec(&x.add_ff(&x).unwrap()) } else { p.mul_ec(&q) }, "addition");
        check!(p == q || p.mul_ec(&q) == q.mul_ec(&p), "addition commutes");
    }
    if let Ok(s) = x.mul_ff(&y) {
        check!(g.exp_ec(&s) == p.exp_ec(&y), "product");
        let mut z = p;
        check!(z.mul_assign(&ctx, &b).is_ok() && z == p.exp_ec(&y), "multiple of any point");
    }
    check!(PublicKey::try_clone_array(&p.clone_line()) == Ok(p), "line of a point");
    check!(p.clone_line()[..] == p.serialize_uncompressed()[1..], "coordinates of a point");
    check!(PublicKey::decompress(&Curve::compress(&p)) == Ok(p) && Curve::compress(&p)[..] == p.serialize()[..], "compressed point");
    check!(p.x_coordinate()[..] == p.serialize()[1..], "abscissa");
    let mut l = p.clone_line();
    l[vnd::below(64)] ^= 1 << vnd::below(8);
    check!(PublicKey::try_clone_array(&l).is_err(), "a string that is no point");
    let mut s = [0; 64];
    s.copy_from_slice(&bytes::<64>());
    match (SecpSignature::try_clone_array(&ga(&s)), SecpSignature::from_compact(&s)) {
        (Ok(t), Ok(u)) => check!(t == u && t.clone_line()[..] == s[..], "line of a signature"),
        (Err(()), Err(_)) => (),
        _ => check!(false, "only signatures are accepted"),
    }
}
fn lines() {
    let a: [u8; 96] = bytes();
    type C = Concat<Array<U32>, Concat<Array<U48>, Array<U16>>>;
    let c = C::clone_array(&ga(&a));
    check!(c.0[..] == a[..32] && (c.1).0[..] == a[32..80] && (c.1).1[..] == a[80..], "parts");
    check!(c.clone_line()[..] == a[..], "line");
    let l = LineLike(c);
    check!(l.clone().0.clone_line()[..] == a[..], "clone");
    // a point that is refused inside a concatenation
    type P = Concat<Array<U8>, EdwardsPoint>;
    let line: Array<U40> = ga(&a[..40]);
    match (P::try_clone_array(&line), EdwardsPoint::try_clone_array(&ga(&a[8..40]))) {
        (Ok(x), Ok(y)) => check!(x.1 == y && x.0[..] == a[..8], "point in a line"),
        (Err(()), Err(())) => (),
        _ => check!(false, "component in a line"),
    }
}

fn main() {
    vnd::native::main(&[
        ("schnorr_25519", schnorr_25519),
        ("schnorr_25519_tamper", schnorr_25519_tamper),
        ("schnorr_25519_transfer", schnorr_25519_transfer),
        ("curve_25519", curve_25519),
        ("curve_secp", curve_secp),
        ("lines", lines),
    ])
}
