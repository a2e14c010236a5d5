use crate::handshake::key::{self, Ct, Identity, PublicKey, PublicKeyBytes, SecretKey};
use crate::handshake::xx::*;
use crate::handshake::TrivialRotor;
use rac::{
    generic_array::{typenum::*, ArrayLength, GenericArray},
    Array, Concat,
};
use vnd::{assume, bytes, check};
use crate::handshake::noise::{Noise, SymmetricStateOps};
use vru_noise::{last, open, seal, start, step, Abs, Cipher, SymmetricState, KS, TAG};

pub const NAME: &str = "Noise_XX_25519+Kyber_ChaChaPoly_SHA256";

fn ga<N: ArrayLength<u8>>(b: &[u8]) -> Array<N> {
    GenericArray::clone_from_slice(b)
}
fn arr<N: ArrayLength<u8>, const M: usize>() -> Array<N> {
    ga(&bytes::<M>())
}
/// an arbitrary key pair (any seed)
fn pair() -> (PublicKey, SecretKey) {
    let b: [u8; 3] = bytes();
    assume(key::valid(b[0]));
    (PublicKey { e: b[0], l: [b[1], b[2]] }, SecretKey { e: b[0], l: [b[1], b[2]] })
}
fn pkc(b: &[u8]) -> PublicKeyBytes {
    Concat(ga(&b[..1]), ga(&b[1..]))
}
fn point(b: &[u8; 3]) -> (u8, [u8; 2]) {
    (b[0], [b[1], b[2]])
}
fn generated(seed: &Array<U96>) -> [u8; 3] {
    let mut p: [u8; 3] = key::uf(key::GEN, &[seed]);
    p[0] &= 0x7f;
    p
}
fn identity_of(p: &[u8; 3]) -> [u8; 2] {
    key::uf(key::IDENTITY, &[p])
}

/// the specification: a symmetric state driven by the tokens of the pattern
struct Spec(Abs);
impl Spec {
    fn new(pi: &[u8], e: &[u8; 3]) -> Self {
        let mut s = Spec(start(NAME));
        s.hash(pi);
        s.hash(e);
        s
    }
    fn hash(&mut self, d: &[u8]) {
        self.0 = step(&self.0, vru_noise::MIX_HASH, d).0
    }
    fn secret(&mut self, d: &[u8; 3]) {
        self.0 = step(&self.0, vru_noise::SECRET, d).0
    }
    fn enc<const N: usize>(&mut self, d: [u8; N]) -> ([u8; N], [u8; TAG]) {
        let mut d = d;
        let (n, t) = seal(&self.0, &mut d);
        self.0 = n;
        (d, t)
    }
    fn dec<const N: usize>(&mut self, d: [u8; N], t: [u8; TAG]) -> Option<[u8; N]> {
        let mut d = d;
        let (n, ok) = open(&self.0, &mut d, &t);
        self.0 = n;
        if ok {
            Some(d)
        } else {
            None
        }
    }
}
fn is_cipher(c: &Cipher<crate::handshake::noise::Noise, TrivialRotor>, send: [u8; KS], receive: [u8; KS]) -> bool {
    c.send.key == send && c.receive.key == receive
}

// ---- the operations on lines

/// encrypt_line and decrypt_line are encryption and decryption of the bytes of the line
fn line<N, const M: usize>()
where
    N: ArrayLength<u8> + core::ops::Add<U2>,
    <N as core::ops::Add<U2>>::Output: ArrayLength<u8>,
{
    vru_uf::reset();
    let secret: [u8; 3] = bytes();
    let state = || SymmetricState::<Noise, _>::new(NAME).mix_shared_secret(&secret);
    let mut spec = Spec(start(NAME));
    spec.secret(&secret);
    // encryption
    let d: [u8; M] = bytes();
    let (next, Concat(e, t)) = state().encrypt_line::<Array<N>>(ga(&d));
    let mut z = Spec(spec.0);
    let w = z.enc(d);
    check!(e[..] == w.0 && t[..] == w.1, "the line encrypted, then its tag");
    check!(next.abs == z.0, "the state after the encryption");
    // decryption of anything
    let (d, t): ([u8; M], [u8; TAG]) = (bytes(), bytes());
    let got = state().decrypt_line::<Array<N>>(Concat(ga(&d), ga(&t)));
    vru_uf::align(9);
    match (spec.dec(d, t), got) {
        (None, g) => check!(g.is_err(), "another tag is refused"),
        (Some(_), Err(_)) => check!(false, "the right tag is accepted"),
        (Some(w), Ok((next, l))) => {
            check!(l[..] == w, "the line decrypted");
            check!(next.abs == spec.0, "the state after the decryption");
        }
    }
}
pub fn line_empty() {
    line::<U0, 0>()
}
pub fn line_one() {
    line::<U1, 1>()
}
pub fn line_more() {
    line::<U6, 6>()
}

// ---- each step against the specification

pub fn out0_spec() {
    vru_uf::reset();
    let seed: Array<U96> = arr::<_, 96>();
    let pi = Identity { hash: bytes() };
    let (_, Concat(a, b)) = out0(&seed, &pi);
    let e = generated(&seed);
    check!(a[0] == e[0] && b[..] == e[1..], "the first message is the ephemeral key");
}

/// the responder's answer to an arbitrary first message with a valid key
struct First {
    spec: Spec,
    e_seed: Array<U96>,
    e: [u8; 3],
    peer: [u8; 3],
}
/// expected answer: (ciphertext, payload, tag, ephemeral, static key, tag)
fn first(pi: &[u8], s: &[u8; 3], e_seed: Array<U96>, c_seed: &[u8; 32], peer: [u8; 3], p: [u8; 2]) -> (First, ([u8; 2], ([u8; 2], [u8; TAG]), ([u8; 3], [u8; TAG]))) {
    let mut spec = Spec::new(pi, &peer);
    let (pe, pl) = point(&peer);
    let c = key::ct(pl, c_seed);
    spec.secret(&key::ss(pl, pl, &c));
    let ep = spec.enc(p);
    let e = generated(&e_seed);
    spec.hash(&e);
    spec.secret(&key::dh(pe, e[0]));
    let es = spec.enc(*s);
    spec.secret(&key::dh(pe, s[0]));
    (First { spec, e_seed, e, peer }, (c, ep, es))
}
pub fn responder_first_spec() {
    vru_uf::reset();
    let (s_pk, s_sk) = pair();
    let (pi, peer, p): ([u8; 2], [u8; 3], [u8; 2]) = (bytes(), bytes(), bytes());
    assume(key::valid(peer[0]));
    let (e_seed, c_seed): (Array<U96>, [u8; 32]) = (arr::<_, 96>(), bytes());
    let seed = Concat(e_seed.clone(), ga(&c_seed));
    let (_, m): (_, Message1<Array<U2>>) =
        take0_out1(&seed, &Identity { hash: pi }, &s_pk, &s_sk, pkc(&peer), ga(&p));
    let (Concat(ct, Concat(ep, tp)), Concat(ee, el), Concat(es, ts)) = m;
    let (f, (c, wp, ws)) = first(&pi, &s_pk.bytes(), e_seed, &c_seed, peer, p);
    check!(ct[..] == c, "ciphertext to the initiator's ephemeral key");
    check!(ep[..] == wp.0 && tp[..] == wp.1, "payload p under the ephemeral secret");
    check!(ee[0] == f.e[0] && el[..] == f.e[1..], "the responder's ephemeral key");
    check!(vru_noise_bytes(&es) == ws.0 && ts[..] == ws.1, "static key under the exchange of the ephemeral keys");
}
fn vru_noise_bytes<N: ArrayLength<u8>>(b: &Array<N>) -> [u8; 3] {
    [b[0], b[1], b[2]]
}

type M1 = Message1<Array<U2>>;
type M2 = Message2<Array<U1>, Array<U3>>;

/// an arbitrary second message against the initiator
fn any_m1() -> (M1, ([u8; 2], [u8; 2], [u8; TAG], [u8; 3], [u8; 3], [u8; TAG])) {
    let w: ([u8; 2], [u8; 2], [u8; TAG], [u8; 3], [u8; 3], [u8; TAG]) = (bytes(), bytes(), bytes(), bytes(), bytes(), bytes());
    let m = (Concat(ga(&w.0), Concat(ga(&w.1), ga(&w.2))), pkc(&w.3), Concat(ga(&w.4), ga(&w.5)));
    (m, w)
}
enum Second {
    P,
    Key,
    Mac,
    Identity,
    Ok {
        spec: Spec,
        p: [u8; 2],
        peer: [u8; 3],
        c_e: [u8; 2],
        q: ([u8; 1], [u8; TAG]),
        c_s: [u8; 2],
        s: ([u8; 3], [u8; TAG]),
        r: ([u8; 3], [u8; TAG]),
    },
}
#[allow(clippy::too_many_arguments)]
fn second(
    pi: [u8; 2],
    e: [u8; 3],
    s: [u8; 3],
    seeds: [&[u8; 32]; 2],
    w: &([u8; 2], [u8; 2], [u8; TAG], [u8; 3], [u8; 3], [u8; TAG]),
    q: [u8; 1],
    r: [u8; 3],
) -> Second {
    let mut spec = Spec::new(&pi, &e);
    let (ee, el) = point(&e);
    spec.secret(&key::ss(el, el, &w.0));
    let p = match spec.dec(w.1, w.2) {
        Some(p) => p,
        None => return Second::P,
    };
    spec.hash(&w.3);
    let (pe, pl) = point(&w.3);
    if !key::valid(pe) {
        return Second::Key;
    }
    spec.secret(&key::dh(pe, ee));
    let peer = match spec.dec(w.4, w.5) {
        Some(p) => p,
        None => return Second::Mac,
    };
    let (se, sl) = point(&peer);
    if !key::valid(se) {
        return Second::Key;
    }
    if identity_of(&peer) != pi {
        return Second::Identity;
    }
    spec.secret(&key::dh(se, ee));
    let c_e = key::ct(pl, seeds[0]);
    spec.secret(&key::ss(pl, pl, &c_e));
    let q = spec.enc(q);
    let c_s = key::ct(sl, seeds[1]);
    spec.secret(&key::ss(sl, sl, &c_s));
    let es = spec.enc(s);
    spec.secret(&key::dh(pe, s[0]));
    let r = spec.enc(r);
    Second::Ok { spec, p, peer, c_e, q, c_s, s: es, r }
}
pub fn initiator_second_spec() {
    vru_uf::reset();
    let e_seed: Array<U96> = arr::<_, 96>();
    let pi: [u8; 2] = bytes();
    let (state, _) = out0(&e_seed, &Identity { hash: pi });
    let e = generated(&e_seed);
    let (s_pk, s_sk) = pair();
    let (s0, s1): ([u8; 32], [u8; 32]) = (bytes(), bytes());
    let (q, r): ([u8; 1], [u8; 3]) = (bytes(), bytes());
    let (m, w) = any_m1();
    let want = second(pi, e, s_pk.bytes(), [&s0, &s1], &w, q, r);
    vru_uf::align(30);
    let got = take1_out2::<Array<U2>, Array<U1>, Array<U3>>(&Concat(ga(&s0), ga(&s1)), state, &s_pk, &s_sk, m, ga(&q), ga(&r));
    match (want, got) {
        (Second::P, g) => check!(matches!(g, Err(InitiatorsError::PayloadPMac(_))), "a wrong tag of payload p is reported"),
        (Second::Mac, g) => check!(matches!(g, Err(InitiatorsError::StaticKeyMac(_))), "a wrong tag of the static key is reported"),
        (Second::Key, g) => check!(g.is_err(), "an invalid public key is rejected"),
        (Second::Identity, g) => check!(g.is_err(), "a static key of another identity is rejected"),
        (Second::Ok { p, peer, c_e, q, c_s, s, r, .. }, g) => match g {
            Err(_) => check!(false, "the right message is accepted"),
            Ok((_, pk, gp, (Concat(ge, Concat(gq, tq)), gs, Concat(Concat(gk, tk), Concat(gr, tr))))) => {
                check!(gp[..] == p, "payload p");
                check!(pk.bytes() == peer, "static key of the responder");
                check!(ge[..] == c_e && gs[..] == c_s, "ciphertexts to the ephemeral and the static key");
                check!(gq[..] == q.0 && tq[..] == q.1, "payload q");
                check!(vru_noise_bytes(&gk) == s.0 && tk[..] == s.1, "static key of the initiator");
                check!(gr[..] == r.0 && tr[..] == r.1, "payload r");
            }
        },
    }
}

/// an arbitrary third message against the responder
pub fn responder_second_spec() {
    vru_uf::reset();
    let (s_pk, s_sk) = pair();
    let (pi, peer, p): ([u8; 2], [u8; 3], [u8; 2]) = (bytes(), bytes(), bytes());
    assume(key::valid(peer[0]));
    let (e_seed, c_seed): (Array<U96>, [u8; 32]) = (arr::<_, 96>(), bytes());
    let seed = Concat(e_seed.clone(), ga(&c_seed));
    let (state, _): (_, M1) = take0_out1(&seed, &Identity { hash: pi }, &s_pk, &s_sk, pkc(&peer), ga(&p));
    let (f, _) = first(&pi, &s_pk.bytes(), e_seed, &c_seed, peer, p);
    let mut spec = f.spec;
    // the message
    let (c_e, q, tq): ([u8; 2], [u8; 1], [u8; TAG]) = (bytes(), bytes(), bytes());
    let (c_s, k, tk): ([u8; 2], [u8; 3], [u8; TAG]) = (bytes(), bytes(), bytes());
    let (r, tr): ([u8; 3], [u8; TAG]) = (bytes(), bytes());
    let m: M2 = (
        Concat(ga(&c_e), Concat(ga(&q), ga(&tq))),
        ga(&c_s),
        Concat(Concat(ga(&k), ga(&tk)), Concat(ga(&r), ga(&tr))),
    );
    let (seed, s): ([u8; 32], [u8; 2]) = (bytes(), bytes());
    let got = take2_out3::<Array<U1>, Array<U3>, Array<U2>, TrivialRotor>(&ga(&seed), state, &s_pk, &s_sk, m, ga(&s));
    vru_uf::align(48);
    // the specification
    let (_, el) = point(&f.e);
    spec.secret(&key::ss(el, el, &c_e));
    let q = match spec.dec(q, tq) {
        Some(q) => q,
        None => return check!(matches!(got, Err(RespondersError::PayloadQMac(_))), "a wrong tag of payload q is reported"),
    };
    spec.secret(&key::ss(s_pk.l, s_pk.l, &c_s));
    let k = match spec.dec(k, tk) {
        Some(k) => k,
        None => return check!(matches!(got, Err(RespondersError::StaticKeyMac(_))), "a wrong tag of the static key is reported"),
    };
    let (ke, kl) = point(&k);
    if !key::valid(ke) {
        return check!(got.is_err(), "an invalid public key is rejected");
    }
    spec.secret(&key::dh(ke, f.e[0]));
    let r = match spec.dec(r, tr) {
        Some(r) => r,
        None => return check!(matches!(got, Err(RespondersError::PayloadRMac(_))), "a wrong tag of payload r is reported"),
    };
    let c = key::ct(kl, &seed);
    spec.secret(&key::ss(kl, kl, &c));
    let es = spec.enc(s);
    let ([a, b], h) = last(&spec.0);
    match got {
        Err(_) => check!(false, "the right message is accepted"),
        Ok((cipher, hash, pk, gq, gr, Concat(ct, Concat(gs, ts)))) => {
            check!(is_cipher(&cipher, b, a), "the responder sends with the second key");
            check!(hash[..] == h, "handshake hash");
            check!(pk.bytes() == k, "static key of the initiator");
            check!(gq[..] == q && gr[..] == r, "payloads q and r");
            check!(ct[..] == c && gs[..] == es.0 && ts[..] == es.1, "last message");
        }
    }
}
/// an arbitrary last message against the initiator
pub fn initiator_last_spec() {
    vru_uf::reset();
    let e_seed: Array<U96> = arr::<_, 96>();
    let pi: [u8; 2] = bytes();
    let (state, _) = out0(&e_seed, &Identity { hash: pi });
    let e = generated(&e_seed);
    let (s_pk, s_sk) = pair();
    let (s0, s1): ([u8; 32], [u8; 32]) = (bytes(), bytes());
    let (q, r): ([u8; 1], [u8; 3]) = (bytes(), bytes());
    let (m, w) = any_m1();
    let got = take1_out2::<Array<U2>, Array<U1>, Array<U3>>(&Concat(ga(&s0), ga(&s1)), state, &s_pk, &s_sk, m, ga(&q), ga(&r));
    vru_uf::align(30);
    let want = second(pi, e, s_pk.bytes(), [&s0, &s1], &w, q, r);
    vru_uf::align(55);
    let (state, mut spec) = match (got, want) {
        (Ok((state, ..)), Second::Ok { spec, .. }) => (state, spec),
        _ => return,
    };
    let (c, s, t): ([u8; 2], [u8; 2], [u8; TAG]) = (bytes(), bytes(), bytes());
    let got = take_3::<Array<U2>, TrivialRotor>(state, &s_pk, &s_sk, Concat(ga(&c), Concat(ga(&s), ga(&t))));
    vru_uf::align(59);
    spec.secret(&key::ss(s_pk.l, s_pk.l, &c));
    match spec.dec(s, t) {
        None => check!(matches!(got, Err(InitiatorsError::PayloadSMac(_))), "a wrong tag of payload s is reported"),
        Some(s) => match got {
            Err(_) => check!(false, "the right message is accepted"),
            Ok((cipher, hash, gs)) => {
                let ([a, b], h) = last(&spec.0);
                check!(is_cipher(&cipher, a, b), "the initiator sends with the first key");
                check!(hash[..] == h, "handshake hash");
                check!(gs[..] == s, "payload s");
            }
        },
    }
}

// ---- honest runs

fn run<P, Q, R, S>(p: Array<P>, q: Array<Q>, r: Array<R>, s: Array<S>)
where
    P: ArrayLength<u8> + core::ops::Add<U2>,
    Q: ArrayLength<u8> + core::ops::Add<U2>,
    R: ArrayLength<u8> + core::ops::Add<U2>,
    S: ArrayLength<u8> + core::ops::Add<U2>,
    <P as core::ops::Add<U2>>::Output: ArrayLength<u8>,
    <Q as core::ops::Add<U2>>::Output: ArrayLength<u8>,
    <R as core::ops::Add<U2>>::Output: ArrayLength<u8>,
    <S as core::ops::Add<U2>>::Output: ArrayLength<u8>,
{
    vru_uf::reset();
    let ((i_pk, i_sk), (r_pk, r_sk)) = (pair(), pair());
    let (i_seed, r_seed): (Array<U96>, Array<U96>) = (arr::<_, 96>(), arr::<_, 96>());
    let r_pi = r_pk.identity();
    let (i_state, m) = out0(&i_seed, &r_pi);
    let (r_state, m) = take0_out1(&Concat(r_seed, arr::<_, 32>()), &r_pi, &r_pk, &r_sk, m, p.clone());
    let got =
        take1_out2::<Array<P>, _, _>(&Concat(arr::<_, 32>(), arr::<_, 32>()), i_state, &i_pk, &i_sk, m, q.clone(), r.clone());
    vru_uf::align(40);
    let (i_state, rr_pk, gp, m) = match got {
            Ok(x) => x,
            Err(_) => return check!(false, "the initiator accepts the second message"),
        };
    let got =
        take2_out3::<Array<Q>, Array<R>, _, TrivialRotor>(&arr::<_, 32>(), r_state, &r_pk, &r_sk, m, s.clone());
    vru_uf::align(57);
    let (r_cipher, r_hash, ri_pk, gq, gr, m) = match got {
            Ok(x) => x,
            Err(_) => return check!(false, "the responder accepts the third message"),
        };
    let (i_cipher, i_hash, gs) = match take_3::<Array<S>, TrivialRotor>(i_state, &i_pk, &i_sk, m) {
        Ok(x) => x,
        Err(_) => return check!(false, "the initiator accepts the last message"),
    };
    check!(i_hash == r_hash, "both sides have the same handshake hash");
    check!(i_cipher.send.key == r_cipher.receive.key, "the initiator's sending key is the responder's receiving key");
    check!(i_cipher.receive.key == r_cipher.send.key, "the responder's sending key is the initiator's receiving key");
    check!(gp == p && gq == q && gr == r && gs == s, "payloads arrive");
    check!(rr_pk.bytes() == r_pk.bytes() && ri_pk.bytes() == i_pk.bytes(), "each side learns the other's static key");
}
pub fn agreement() {
    run::<U2, U1, U3, U2>(arr::<_, 2>(), arr::<_, 1>(), arr::<_, 3>(), arr::<_, 2>())
}
pub fn agreement_other_payloads() {
    run::<U1, U4, U2, U3>(arr::<_, 1>(), arr::<_, 4>(), arr::<_, 2>(), arr::<_, 3>())
}
/// a responder that runs the protocol with a static key of another identity is not accepted
pub fn wrong_identity() {
    vru_uf::reset();
    let ((i_pk, i_sk), (r_pk, r_sk)) = (pair(), pair());
    let (i_seed, r_seed): (Array<U96>, Array<U96>) = (arr::<_, 96>(), arr::<_, 96>());
    let pi = Identity { hash: bytes() };
    assume(pi != r_pk.identity());
    let (i_state, m) = out0(&i_seed, &pi);
    // the responder claims the dialled identity
    let claimed = pi.clone();
    let (_, m) = take0_out1(&Concat(r_seed, arr::<_, 32>()), &claimed, &r_pk, &r_sk, m, arr::<U2, 2>());
    let got = take1_out2::<Array<U2>, Array<U1>, Array<U1>>(&Concat(arr::<_, 32>(), arr::<_, 32>()), i_state, &i_pk, &i_sk, m, arr::<_, 1>(), arr::<_, 1>());
    check!(got.is_err(), "the initiator rejects a responder of another identity");
}
#[allow(dead_code)]
fn _types(_: Ct) {}
