//! The real vru-noise modules, compiled with contracts of the hash, the key derivation and the AEAD.
#![allow(static_mut_refs, dead_code, clippy::type_complexity)]
#[path = "/repo/vru-noise/src/config.rs"]
pub mod config;
#[path = "/repo/vru-noise/src/hash.rs"]
pub mod hash;
#[path = "/repo/vru-noise/src/cipher_state.rs"]
pub mod cipher_state;
#[allow(non_shorthand_field_patterns)]
#[path = "/repo/vru-noise/src/symmetric_state.rs"]
pub mod symmetric_state;
pub mod model;
pub mod bodies;

vnd::harnesses! {
    mix_parts_3,
    mix_parts_2,
    mix_hash_spec,
    split_spec,
    state_new,
    state_encrypt,
    state_psk,
    state_decrypt,
    state_pair,
    state_finish,
    cipher_encrypt_1,
    cipher_encrypt_3,
    cipher_encrypt_max,
    cipher_decrypt_1,
    cipher_decrypt_3,
    cipher_decrypt_max,
    cipher_tamper,
    cipher_directions,
    cipher_ext,
    cipher_ext_short,
    cipher_ext_any,
}
