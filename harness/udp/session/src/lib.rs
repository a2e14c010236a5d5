#![allow(static_mut_refs)]
pub mod ghost {
    pub static mut CALLS: usize = 0;
    pub static mut SEED: [u8; 96] = [0; 96];
    pub static mut PI: u8 = 0;
    /// the message that will be made
    pub static MESSAGE: [u8; 1120] = table();
    const fn table() -> [u8; 1120] {
        let mut m = [0; 1120];
        let mut i = 0;
        while i < 1120 {
            m[i] = (i * 7 + i / 128) as u8;
            i += 1;
        }
        m
    }
    /// keys that are given to the node
    pub const KEY: u8 = 77;
}
pub mod handshake {
    use rac::{generic_array::typenum::*, Array, Concat, LineValid};
    use serde::{Deserialize, Serialize};
    #[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct Identity(pub u8);
    #[derive(Clone, Debug)]
    pub struct PublicKey(pub u8);
    #[derive(Clone)]
    pub struct SecretKey(pub u8);
    type Lattice = <U32 as std::ops::Mul<U34>>::Output;
    pub type Message0 = Concat<Array<U32>, Array<Lattice>>;
    pub mod xx {
        use super::*;
        use crate::ghost;
        pub struct InitiatorsEphemeral(pub u8);
        pub fn out0(seed: &Array<U96>, pi: &Identity) -> (InitiatorsEphemeral, Message0) {
            unsafe {
                ghost::CALLS += 1;
                ghost::SEED.copy_from_slice(seed);
                ghost::PI = pi.0;
                let (mut a, mut b) = (Array::default(), Array::default());
                a.copy_from_slice(&ghost::MESSAGE[..32]);
                b.copy_from_slice(&ghost::MESSAGE[32..]);
                (InitiatorsEphemeral(pi.0), Concat(a, b))
            }
        }
    }
    #[allow(dead_code)]
    fn _line(m: &Message0) -> usize {
        m.clone_line().len()
    }
}
