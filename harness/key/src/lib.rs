//! The real key.rs (and the real glue of rac to curve25519-dalek) over contracts of the curve, the
//! KEM, the hash and base64.
#![allow(static_mut_refs, dead_code, clippy::type_complexity)]
pub mod handshake {
    #[path = "/repo/vru-session/src/handshake/key.rs"]
    pub mod key;
}
pub mod bodies;
pub mod flat;

vnd::harnesses! {
    gen_spec,
    decompress_spec,
    identity_spec,
    clone_spec,
    write_spec,
    read_spec,
    exchange_spec,
    text_roundtrip,
    text_parse,
}
