//! Contract of the session keys: an elliptic part whose shared secret is a symmetric function of
//! the two public points, and a lattice part whose decapsulated secret is a function of the key
//! pair and the ciphertext.  Discharged on the real key.rs under S04 and on the real KEM under C09.
use rac::{generic_array::typenum, Array, Concat};

pub const GEN: u8 = 70;
pub const DH: u8 = 71;
pub const CT: u8 = 72;
pub const SS: u8 = 73;
pub const IDENTITY: u8 = 74;

pub type PublicKeyLatticeBytes = Array<typenum::U2>;
pub type PublicKeyBytes = Concat<Array<typenum::U1>, PublicKeyLatticeBytes>;
pub type Ct = Array<typenum::U2>;
pub type SharedSecret = Array<typenum::U3>;

pub struct Encapsulated {
    pub ss: SharedSecret,
    pub ct: Ct,
}
#[derive(Clone, Debug)]
pub struct PublicKey {
    pub e: u8,
    pub l: [u8; 2],
}
#[derive(Clone, Debug)]
pub struct SecretKey {
    pub e: u8,
    pub l: [u8; 2],
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Identity {
    pub hash: [u8; 2],
}
impl AsRef<[u8]> for Identity {
    fn as_ref(&self) -> &[u8] {
        &self.hash
    }
}
/// not every byte is a point
pub fn valid(e: u8) -> bool {
    e < 0xf0
}
pub fn uf<const N: usize>(tag: u8, parts: &[&[u8]]) -> [u8; N] {
    let mut i = [0; 96];
    let mut n = 0;
    for p in parts {
        i[n..n + p.len()].copy_from_slice(p);
        n += p.len();
    }
    let mut o = [0; N];
    vru_uf::apply(tag, &i[..n], &mut o);
    o
}
fn ga<N: rac::generic_array::ArrayLength<u8>>(b: &[u8]) -> Array<N> {
    Array::clone_from_slice(b)
}
pub fn dh(a: u8, b: u8) -> [u8; 3] {
    uf(DH, &[&[a.min(b), a.max(b)]])
}
pub fn ct(l: [u8; 2], seed: &[u8]) -> [u8; 2] {
    uf(CT, &[&l, seed])
}
pub fn ss(l: [u8; 2], secret: [u8; 2], ct: &[u8]) -> [u8; 3] {
    uf(SS, &[&l, &secret, ct])
}
impl PublicKey {
    pub fn gen(seed: &Array<typenum::U96>) -> (Self, SecretKey) {
        let [mut e, a, b]: [u8; 3] = uf(GEN, &[seed]);
        e &= 0x7f;
        (PublicKey { e, l: [a, b] }, SecretKey { e, l: [a, b] })
    }
    pub fn decompress(bytes: PublicKeyBytes) -> Self {
        Self::try_decompress(bytes).unwrap()
    }
    pub fn try_decompress(bytes: PublicKeyBytes) -> Option<Self> {
        let Concat(e, l) = bytes;
        if valid(e[0]) {
            Some(PublicKey { e: e[0], l: [l[0], l[1]] })
        } else {
            None
        }
    }
    pub fn elliptic(&self) -> Array<typenum::U1> {
        ga(&[self.e])
    }
    pub fn lattice(&self) -> PublicKeyLatticeBytes {
        ga(&self.l)
    }
    pub fn compress(&self) -> PublicKeyBytes {
        Concat(self.elliptic(), self.lattice())
    }
    pub fn bytes(&self) -> [u8; 3] {
        [self.e, self.l[0], self.l[1]]
    }
    pub fn dh(&self, other: &SecretKey) -> SharedSecret {
        ga(&dh(self.e, other.e))
    }
    pub fn encapsulate(&self, seed: &Array<typenum::U32>) -> Encapsulated {
        let c = ct(self.l, seed);
        Encapsulated { ss: ga(&ss(self.l, self.l, &c)), ct: ga(&c) }
    }
    pub fn decapsulate(&self, sk: &SecretKey, ct: &Ct) -> SharedSecret {
        ga(&ss(self.l, sk.l, ct))
    }
    pub fn identity(&self) -> Identity {
        Identity { hash: uf(IDENTITY, &[&self.bytes()]) }
    }
}
