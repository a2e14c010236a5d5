//! The real handshake (xx.rs, noise.rs) over contracts of the keys and of vru-noise.
#![allow(static_mut_refs, dead_code, clippy::type_complexity)]
pub mod handshake {
    pub mod key;
    pub use self::key::{Identity, PublicKey, SecretKey};
    #[path = "/repo/vru-session/src/handshake/noise.rs"]
    pub mod noise;
    pub use self::noise::{TrivialCipher, TrivialRotor, TrivialUnidirectional};
    #[path = "/repo/vru-session/src/handshake/xx.rs"]
    pub mod xx;
}
pub mod bodies;

vnd::harnesses! {
    line_empty,
    line_one,
    line_more,
    out0_spec,
    responder_first_spec,
    initiator_second_spec,
    responder_second_spec,
    initiator_last_spec,
    agreement,
    agreement_other_payloads,
    wrong_identity,
}
