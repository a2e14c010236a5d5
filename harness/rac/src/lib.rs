//! The real crate rac over contracts of the curve libraries.
#![allow(static_mut_refs, dead_code, clippy::type_complexity)]
pub mod bodies;
pub mod flat;
pub mod toy;

vnd::harnesses! {
    line_array,
    line_concat,
    line_concat_empty,
    line_concat_nested,
    line_refuses,
    line_like,
    sign_spec,
    verify_spec,
    signature_bytes,
    sign_then_verify,
    scalar_25519,
    edwards_25519,
    montgomery_25519,
    scalar_secp,
    point_secp_line,
    point_secp_compressed,
    point_secp_exp,
    point_secp_add,
    signature_secp,
}
