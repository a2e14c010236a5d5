//! Key generation as database.rs sees it: the pair is its seed (S04).
pub mod handshake {
    use rac::{generic_array::typenum, Array};
    pub struct PublicKey(pub Array<typenum::U96>);
    pub struct SecretKey(pub Array<typenum::U96>);
    impl PublicKey {
        pub fn gen(seed: &Array<typenum::U96>) -> (Self, SecretKey) {
            (PublicKey(seed.clone()), SecretKey(seed.clone()))
        }
    }
}
