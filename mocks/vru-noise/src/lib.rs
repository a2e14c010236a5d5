//! Contract of vru-noise as the handshake sees it: a symmetric state is determined by the sequence
//! of operations so far (each operation maps it to a new state through an uninterpreted function),
//! encryption is a keystream and a tag of the current state, decryption accepts exactly that tag,
//! and the final keys and hash are functions of the state.  Discharged on the real crate under N01-N05.
use core::{fmt, marker::PhantomData, ops::Add};
use generic_array::typenum::{Unsigned, U0, U1, U2, U32};
use generic_array::{ArrayLength, GenericArray};

pub use generic_array::typenum;

pub trait Config {
    type TagSize: ArrayLength<u8>;
    type HashSize: ArrayLength<u8>;
}
impl<D, E, A> Config for (D, E, A) {
    type TagSize = U2;
    type HashSize = U32;
}
pub type Tag<C> = GenericArray<u8, <C as Config>::TagSize>;
pub type ChainingKey<C> = GenericArray<u8, <C as Config>::HashSize>;

#[derive(Debug)]
pub struct MacMismatch;
impl fmt::Display for MacMismatch {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("mac mismatch")
    }
}
impl std::error::Error for MacMismatch {}

pub trait Rotor<C> {
    const INTERVAL: u64;
}
impl<C> Rotor<C> for PhantomData<C> {
    const INTERVAL: u64 = u64::MAX;
}

pub const STEP: u8 = 100;
pub const ID: usize = 6;
pub const KS: usize = 6;
pub const TAG: usize = 2;
/// state after `n` operations: identity, keystream of the next encryption
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Abs {
    pub n: u8,
    pub id: [u8; ID],
    pub ks: [u8; KS],
}
/// one operation: 0 new, 1 mix hash, 2 mix secret, 3 mix psk, 4 encrypt, 5 finish
/// (a function of its own for every operation and position, which covers the case of one function)
pub fn step(s: &Abs, op: u8, data: &[u8]) -> (Abs, [u8; TAG]) {
    let mut i = [0; 64];
    i[..ID].copy_from_slice(&s.id);
    i[ID..ID + data.len()].copy_from_slice(data);
    let mut o = [0; ID + KS + TAG];
    vru_uf::apply(STEP + 6 * s.n + op, &i[..ID + data.len()], &mut o);
    let mut r = Abs { n: s.n + 1, id: [0; ID], ks: [0; KS] };
    let mut t = [0; TAG];
    r.id.copy_from_slice(&o[..ID]);
    r.ks.copy_from_slice(&o[ID..ID + KS]);
    t.copy_from_slice(&o[ID + KS..]);
    (r, t)
}
pub const NEW: u8 = 0;
pub const MIX_HASH: u8 = 1;
pub const SECRET: u8 = 2;
pub const PSK: u8 = 3;
pub const ENCRYPT: u8 = 4;
pub const FINISH: u8 = 5;
pub fn start(name: &str) -> Abs {
    step(&Abs { n: 0, id: [0; ID], ks: [0; KS] }, NEW, name.as_bytes()).0
}
fn xor(d: &mut [u8], ks: &[u8; KS]) {
    let mut i = 0;
    while i < d.len() {
        d[i] ^= ks[i];
        i += 1;
    }
}
pub fn seal(s: &Abs, d: &mut [u8]) -> (Abs, [u8; TAG]) {
    xor(d, &s.ks);
    step(s, ENCRYPT, d)
}
pub fn open(s: &Abs, d: &mut [u8], tag: &[u8]) -> (Abs, bool) {
    let (n, t) = step(s, ENCRYPT, d);
    let ok = (t[0] ^ tag[0]) | (t[1] ^ tag[1]) == 0;
    if ok {
        xor(d, &s.ks);
    }
    (n, ok)
}
/// (keys of the sender and the receiver, hash)
pub fn last(s: &Abs) -> ([[u8; KS]; 2], [u8; 32]) {
    let (n, _) = step(s, FINISH, &[]);
    let mut h = [0; 32];
    h[..ID].copy_from_slice(&s.id);
    let mut a = [0; KS];
    a.copy_from_slice(&n.id);
    ([a, n.ks], h)
}

pub struct Key<C, N>(PhantomData<(C, N)>);
impl<C: Config, N> From<Key<C, N>> for ChainingKey<C> {
    fn from(_: Key<C, N>) -> Self {
        unreachable!()
    }
}
pub struct SymmetricState<C, K> {
    pub abs: Abs,
    p: PhantomData<(C, K)>,
}
impl<C, K> Clone for SymmetricState<C, K> {
    fn clone(&self) -> Self {
        Self::at(self.abs)
    }
}
impl<C, K> SymmetricState<C, K> {
    fn at(abs: Abs) -> Self {
        SymmetricState { abs, p: PhantomData }
    }
}
impl<C: Config> SymmetricState<C, ChainingKey<C>> {
    pub fn new(name: &str) -> Self {
        Self::at(start(name))
    }
}
fn hash_of<C: Config>(s: &Abs) -> GenericArray<u8, C::HashSize> {
    let mut h = GenericArray::default();
    h[..ID].copy_from_slice(&s.id);
    h
}
impl<C: Config, K> SymmetricState<C, K> {
    pub fn hash(&self) -> GenericArray<u8, C::HashSize> {
        hash_of::<C>(&self.abs)
    }
    pub fn mix_hash(self, data: &[u8]) -> Self {
        Self::at(step(&self.abs, MIX_HASH, data).0)
    }
}
impl<C: Config, K: Into<ChainingKey<C>>> SymmetricState<C, K> {
    pub fn mix_shared_secret(self, data: &[u8]) -> SymmetricState<C, Key<C, U0>> {
        SymmetricState::at(step(&self.abs, SECRET, data).0)
    }
    pub fn mix_psk(self, data: &[u8]) -> SymmetricState<C, Key<C, U0>> {
        SymmetricState::at(step(&self.abs, PSK, data).0)
    }
    pub fn finish<R: Rotor<C>>(self) -> (Cipher<C, R>, GenericArray<u8, C::HashSize>) {
        let ([send, receive], _) = last(&self.abs);
        (
            Cipher { send: Unidirectional { key: send, p: PhantomData }, receive: Unidirectional { key: receive, p: PhantomData } },
            hash_of::<C>(&self.abs),
        )
    }
}
impl<C: Config, N: Unsigned + Add<U1>> SymmetricState<C, Key<C, N>>
where
    <N as Add<U1>>::Output: Unsigned,
{
    pub fn encrypt(self, data: &mut [u8]) -> (SymmetricState<C, Key<C, <N as Add<U1>>::Output>>, Tag<C>) {
        let (n, t) = seal(&self.abs, data);
        let mut tag = GenericArray::default();
        tag.copy_from_slice(&t);
        (SymmetricState::at(n), tag)
    }
    pub fn decrypt(self, data: &mut [u8], tag: Tag<C>) -> Result<SymmetricState<C, Key<C, <N as Add<U1>>::Output>>, MacMismatch> {
        let (n, ok) = open(&self.abs, data, &tag);
        if ok {
            Ok(SymmetricState::at(n))
        } else {
            Err(MacMismatch)
        }
    }
}
pub struct Unidirectional<C, R> {
    pub key: [u8; KS],
    p: PhantomData<(C, R)>,
}
pub struct Cipher<C, R> {
    pub send: Unidirectional<C, R>,
    pub receive: Unidirectional<C, R>,
}
impl<C, R> Cipher<C, R> {
    pub fn swap(self) -> Self {
        Cipher { send: self.receive, receive: self.send }
    }
}
