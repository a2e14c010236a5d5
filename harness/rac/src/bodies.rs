use crate::{flat, toy};
use digest::generic_array::{typenum::*, ArrayLength, GenericArray};
use rac::{Array, Concat, Curve, Line, LineLike, LineValid, Scalar, Schnorr, Signature};
use vnd::{any, assume, bytes, check};

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
fn ga<N: ArrayLength<u8>>(b: &[u8]) -> Array<N> {
    GenericArray::clone_from_slice(b)
}

// ---- lines

pub fn line_array() {
    let a: [u8; 7] = bytes();
    let v: Array<U7> = ga(&a);
    check!(same(&v.clone_line(), &a), "line of an array");
    check!(same(&<Array<U7> as Line>::clone_array(&v), &a), "array from a line");
    match <Array<U7> as LineValid>::try_clone_array(&v) {
        Ok(w) => check!(same(&w, &a), "array from a line"),
        Err(()) => check!(false, "every line is an array"),
    }
    check!(<[u8; 0] as LineValid>::try_clone_array(&Array::default()).is_ok(), "the empty line");
    check!([0u8; 0].clone_line().len() == 0 && <[u8; 0] as Line>::clone_array(&Array::default()).len() == 0, "the empty line");
}
/// `U` and `V` of the given lengths, from one line
macro_rules! concat {
    ($a:expr, $u:ty, $v:ty, $n:ty) => {{
        let a = &$a;
        let (un, vn) = (<$u as Unsigned>::USIZE, <$v as Unsigned>::USIZE);
        let line: Array<$n> = ga(a);
        let c = <Concat<Array<$u>, Array<$v>> as Line>::clone_array(&line);
        check!(same(&c.0, &a[..un]) && same(&c.1, &a[un..un + vn]), "parts of a line");
        check!(same(c.as_ref_u(), &a[..un]) && same(c.as_ref_v(), &a[un..un + vn]), "references to the parts");
        check!(same(&c.clone_line(), a), "line of the parts");
        match <Concat<Array<$u>, Array<$v>> as LineValid>::try_clone_array(&line) {
            Ok(c) => check!(same(&c.0, &a[..un]) && same(&c.1, &a[un..un + vn]), "parts of a valid line"),
            Err(()) => check!(false, "parts that are always valid"),
        }
    }};
}
pub fn line_concat() {
    concat!(bytes::<8>(), U3, U5, U8);
    concat!(bytes::<8>(), U5, U3, U8);
    concat!(bytes::<2>(), U1, U1, U2);
    concat!(bytes::<48>(), U16, U32, U48);
}
pub fn line_concat_empty() {
    concat!(bytes::<4>(), U0, U4, U4);
    concat!(bytes::<4>(), U4, U0, U4);
    concat!(bytes::<0>(), U0, U0, U0);
}
pub fn line_concat_nested() {
    let a: [u8; 10] = bytes();
    type N = Concat<Array<U2>, Concat<Array<U3>, Concat<Array<U1>, Array<U4>>>>;
    type M = Concat<Concat<Array<U2>, Array<U3>>, Concat<Array<U1>, Array<U4>>>;
    let Concat(p, Concat(q, Concat(r, s))) = N::clone_array(&ga(&a));
    check!(same(&p, &a[..2]) && same(&q, &a[2..5]) && same(&r, &a[5..6]) && same(&s, &a[6..]), "nested parts");
    check!(same(&Concat(p, Concat(q, Concat(r, s))).clone_line(), &a), "line of nested parts");
    let Concat(Concat(p, q), Concat(r, s)) = M::clone_array(&ga(&a));
    check!(same(&p, &a[..2]) && same(&q, &a[2..5]) && same(&r, &a[5..6]) && same(&s, &a[6..]), "nested parts");
    check!(same(&Concat(Concat(p, q), Concat(r, s)).clone_line(), &a), "line of nested parts");
}
/// components that are not always valid
pub fn line_refuses() {
    let a: [u8; 7] = bytes();
    let (u, v) = (toy::is_scalar(&a[..2]), toy::is_scalar(&a[5..]));
    type C = Concat<toy::Sc, Concat<Array<U3>, toy::Sc>>;
    match C::try_clone_array(&ga(&a)) {
        Ok(c) => {
            check!(u && v, "an invalid component is refused");
            check!(same(&c.clone_line(), &a), "line of valid parts");
        }
        Err(()) => check!(!u || !v, "valid components are accepted"),
    }
}
pub fn line_like() {
    let a: [u8; 6] = bytes();
    let l = LineLike(<Concat<Array<U2>, Array<U4>> as Line>::clone_array(&ga(&a)));
    let m = l.clone();
    check!(same(&m.0.clone_line(), &a), "clone through the line");
    let mut w = flat::Writer { pos: 0 };
    let r = serde::Serialize::serialize(&l, &mut w);
    check!(r.is_ok() && w.pos == 6 && unsafe { same(&flat::BYTES[..6], &a) }, "serialized as the line");
    let b: [u8; 6] = bytes();
    unsafe { flat::BYTES[..6].copy_from_slice(&b) }
    let r: Result<LineLike<Concat<Array<U2>, Array<U4>>>, flat::Error> = serde::Deserialize::deserialize(&mut flat::Reader { pos: 0 });
    match r {
        Ok(l) => check!(same(&(l.0).0, &b[..2]) && same(&(l.0).1, &b[2..]), "deserialized from the line"),
        Err(_) => check!(false, "every line is deserialized"),
    }
}

// ---- signatures

type Sig = Schnorr<toy::Pt, toy::H>;
fn sc() -> toy::Sc {
    let b: [u8; 2] = bytes();
    assume(toy::is_scalar(&b));
    toy::Sc(b)
}
/// r = x(k G), s = k - d H(r || m)
pub fn sign_spec() {
    vru_uf::reset();
    let (d, k) = (sc(), sc());
    let m: [u8; 4] = bytes();
    let n = any::<u8>() as usize;
    assume(n <= 4);
    let got = Sig::sign(&d, &&m[..n], &k);
    vru_uf::align(8);
    let r = toy::Pt(toy::BASE).exp_ec(&k).x_coordinate();
    let h = toy::hash(&[&r, &m[..n]]);
    vru_uf::align(12);
    let want = if toy::is_scalar(&h) {
        match d.mul_ff(&toy::Sc(h)) {
            Ok(p) => k.sub_ff(&p).ok(),
            Err(()) => None,
        }
    } else {
        None
    };
    match (got, want) {
        (Ok(g), Some(s)) => {
            let l = g.clone_line();
            check!(l.len() == 5 && same(&l[..3], &r), "the commitment is the abscissa of k G");
            check!(same(&l[3..], &s.0), "the response is k - d H(r || m)");
        }
        (Ok(_), None) => check!(false, "no signature if an operation fails"),
        (Err(()), Some(_)) => check!(false, "a signature unless an operation fails"),
        (Err(()), None) => (),
    }
}
/// accepted exactly if x(H(r || m) Y + s G) = r
pub fn verify_spec() {
    vru_uf::reset();
    let l: [u8; 5] = bytes();
    assume(toy::is_scalar(&l[3..]));
    let y = toy::Pt(bytes());
    let m: [u8; 4] = bytes();
    let n = any::<u8>() as usize;
    assume(n <= 4);
    let g = match Sig::try_clone_array(&ga(&l)) {
        Ok(g) => g,
        Err(()) => {
            check!(false, "a line with a valid response is a signature");
            return;
        }
    };
    let got = g.verify(&y, &&m[..n]);
    vru_uf::align(8);
    let h = toy::hash(&[&l[..3], &m[..n]]);
    let s = toy::Sc([l[3], l[4]]);
    let a = y.exp_ec(&toy::Sc(h)).mul_ec(&toy::Pt(toy::BASE).exp_ec(&s));
    let b = toy::Pt(toy::BASE).exp_ec(&s).mul_ec(&y.exp_ec(&toy::Sc(h)));
    // addition is commutative
    assume(same(&a.0, &b.0));
    let want = toy::is_scalar(&h) && same(&a.x_coordinate(), &l[..3]);
    check!(got.is_ok() == want, "accepted exactly if the equation holds");
}
pub fn signature_bytes() {
    vru_uf::reset();
    let l: [u8; 5] = bytes();
    match Sig::try_clone_array(&ga(&l)) {
        Ok(g) => {
            check!(toy::is_scalar(&l[3..]), "an invalid response is refused");
            check!(same(&g.clone_line(), &l), "the line of a signature is r || s");
            check!(same(&g.clone().clone_line(), &l), "a clone is the same signature");
        }
        Err(()) => check!(!toy::is_scalar(&l[3..]), "a line with a valid response is a signature"),
    }
}
/// in a cyclic group, with any hash
pub fn sign_then_verify() {
    vru_uf::reset();
    let (d, k): (u8, u8) = (any(), any());
    assume(d < toy::Q && k < toy::Q);
    let m: [u8; 4] = bytes();
    let n = any::<u8>() as usize;
    assume(n <= 4);
    let y = toy::Zp(1).exp_ec(&toy::Zs(d));
    let g = Schnorr::<toy::Zp, toy::H1>::sign(&toy::Zs(d), &&m[..n], &toy::Zs(k));
    vru_uf::align(1);
    if let Ok(g) = g {
        check!(g.verify(&y, &&m[..n]).is_ok(), "an honest signature is accepted");
        vru_uf::align(2);
        match Schnorr::<toy::Zp, toy::H1>::try_clone_array(&g.clone_line()) {
            Ok(g) => check!(g.verify(&y, &&m[..n]).is_ok(), "also after a transfer"),
            Err(()) => check!(false, "its line is refused"),
        }
    }
}

// ---- curve25519

use curve25519_dalek::{edwards::EdwardsPoint, montgomery::MontgomeryPoint, scalar::Scalar as S25519};

pub fn scalar_25519() {
    vru_uf::reset();
    let b: [u8; 32] = bytes();
    let s = S25519::try_clone_array(&ga(&b));
    check!(s.is_ok(), "every string is clamped to a scalar");
    if let Ok(s) = s {
        let l = s.clone_line();
        let mut c = b;
        c[0] &= 0xf8;
        c[31] = c[31] & 0x7f | 0x40;
        check!(same(&l, &c), "clamped as X25519 does");
    }
    let (x, y) = (S25519(bytes()), S25519(bytes()));
    check!(same(&x.clone_line(), &x.0), "line of a scalar");
    check!(x.add_ff(&y) == Ok(&x + &y) && x.sub_ff(&y) == Ok(&x - &y) && x.mul_ff(&y) == Ok(&x * &y), "field operations");
}
fn edwards() -> EdwardsPoint {
    let b: [u8; 32] = bytes();
    assume(curve25519_dalek::is_point(&b));
    EdwardsPoint(curve25519_dalek::canonical(b))
}
pub fn edwards_25519() {
    vru_uf::reset();
    let b: [u8; 32] = bytes();
    let valid = curve25519_dalek::is_point(&b);
    match (EdwardsPoint::try_clone_array(&ga(&b)), <EdwardsPoint as Curve>::decompress(&ga(&b))) {
        (Ok(p), Ok(q)) => {
            check!(valid && p == q, "only points are accepted");
            check!(same(&p.0, &curve25519_dalek::canonical(b)), "the point of the encoding");
        }
        (Err(()), Err(())) => check!(!valid, "every point is accepted"),
        _ => check!(false, "both ways accept the same points"),
    }
    let (p, q, s) = (edwards(), edwards(), S25519(bytes()));
    check!(same(&p.clone_line(), &p.0) && same(&Curve::compress(&p), &p.0), "encoding of a point");
    let x = p.x_coordinate();
    check!(same(&x[..31], &p.0[..31]) && x[31] == p.0[31] & 0x7f, "the coordinate is the encoding without its sign");
    check!(p.exp_ec(&s) == &p * &s, "multiplication by a scalar");
    let (a, c, d) = (p.mul_ec(&q), &p + &q, &q + &p);
    check!(a == c || a == d, "addition of points");
    check!(<EdwardsPoint as Curve>::base() == curve25519_dalek::edwards::BASE, "the base point");
}
pub fn montgomery_25519() {
    vru_uf::reset();
    let b: [u8; 32] = bytes();
    match (MontgomeryPoint::try_clone_array(&ga(&b)), <MontgomeryPoint as Curve>::decompress(&ga(&b))) {
        (Ok(p), Ok(q)) => {
            check!(same(&p.0, &b) && same(&q.0, &b), "the point of the encoding");
            check!(same(&p.clone_line(), &b) && same(&Curve::compress(&p), &b), "encoding of the point");
            let s = S25519(bytes());
            check!(p.exp_ec(&s) == &p * &s, "multiplication by a scalar");
        }
        _ => check!(false, "every string is a point"),
    }
    check!(<MontgomeryPoint as Curve>::base() == curve25519_dalek::edwards::BASE.to_montgomery(), "the base point");
}

// ---- secp256k1

use secp256k1::{PublicKey, Secp256k1, SecretKey, Signature as SecpSignature};

fn scalar_k() -> ([u8; 32], SecretKey) {
    let b: [u8; 32] = bytes();
    assume(secp256k1::is_scalar(&b));
    (b, SecretKey::from_slice(&b).unwrap())
}
pub fn scalar_secp() {
    vru_uf::reset();
    let b: [u8; 32] = bytes();
    match SecretKey::try_clone_array(&ga(&b)) {
        Ok(s) => check!(secp256k1::is_scalar(&b) && same(&s.clone_line(), &b), "line of a scalar"),
        Err(()) => check!(!secp256k1::is_scalar(&b), "every scalar is accepted"),
    }
    let ((_, x), (yb, y)) = (scalar_k(), scalar_k());
    let (mut sum, mut product) = (x, x);
    let (se, pe) = (sum.add_assign(&yb).is_ok(), product.mul_assign(&yb).is_ok());
    match x.add_ff(&y) {
        Ok(r) => check!(se && r == sum, "sum"),
        Err(()) => check!(!se, "a sum that is a scalar"),
    }
    match x.mul_ff(&y) {
        Ok(r) => check!(pe && r == product, "product"),
        Err(()) => check!(!pe, "a product that is a scalar"),
    }
}
fn point_k() -> PublicKey {
    let x: [u8; 32] = bytes();
    let y = secp256k1::ordinate(&x, any());
    assume(y.is_some());
    PublicKey(x, y.unwrap_or([0; 32]))
}
pub fn point_secp_line() {
    let (x, y): ([u8; 32], [u8; 32]) = (bytes(), bytes());
    let mut l = [0; 64];
    l[..32].copy_from_slice(&x);
    l[32..].copy_from_slice(&y);
    let valid = secp256k1::is_point(&x, &y);
    match PublicKey::try_clone_array(&ga(&l)) {
        Ok(p) => {
            check!(valid && same(&p.0, &x) && same(&p.1, &y), "the line of a point is its coordinates");
            check!(same(&p.clone_line(), &l), "line of a point");
        }
        Err(()) => check!(!valid, "every point is accepted"),
    }
    let p = point_k();
    check!(same(&p.x_coordinate(), &p.0), "abscissa");
}
pub fn point_secp_compressed() {
    let c: [u8; 33] = bytes();
    let mut x = [0; 32];
    x.copy_from_slice(&c[1..]);
    let valid = (c[0] == 2 || c[0] == 3) && secp256k1::ordinate(&x, c[0]).is_some();
    match <PublicKey as Curve>::decompress(&ga(&c)) {
        Ok(p) => {
            check!(valid, "only compressed points are accepted");
            check!(same(&p.0, &x) && p.1[31] & 1 == c[0] & 1, "the point of a compressed encoding");
            check!(same(&Curve::compress(&p), &c), "compressed point");
        }
        Err(()) => check!(!valid, "every compressed point is accepted"),
    }
    let g = <PublicKey as Curve>::base();
    check!(same(&g.0, &secp256k1::constants::GENERATOR_X) && same(&g.1, &secp256k1::constants::GENERATOR_Y), "the base point");
}
pub fn point_secp_exp() {
    vru_uf::reset();
    let p = point_k();
    let (sb, s) = scalar_k();
    let mut e = p;
    let _ = e.mul_assign(&Secp256k1::verification_only(), &sb);
    let r = p.exp_ec(&s);
    check!(same(&r.0, &e.0) && same(&r.1, &e.1), "multiplication by a scalar");
}
pub fn point_secp_add() {
    vru_uf::reset();
    let (p, q) = (point_k(), point_k());
    // the sum of a point and its negative is no point (see DESIGN)
    assume(!same(&p.0, &q.0) || p.1[31] & 1 == q.1[31] & 1);
    let (a, b) = (p.combine(&q), q.combine(&p));
    vru_uf::align(2);
    if let (Ok(a), Ok(b)) = (a, b) {
        let r = p.mul_ec(&q);
        check!(same(&r.0, &a.0) && same(&r.1, &a.1) || same(&r.0, &b.0) && same(&r.1, &b.1), "addition of points");
    }
}
pub fn signature_secp() {
    let b: [u8; 64] = bytes();
    match SecpSignature::try_clone_array(&ga(&b)) {
        Ok(s) => check!(secp256k1::is_signature(&b) && same(&s.clone_line(), &b), "line of a signature"),
        Err(()) => check!(!secp256k1::is_signature(&b), "every signature is accepted"),
    }
}
