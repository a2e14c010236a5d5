//! The real `indcpa.rs` and `poly.rs`, compiled next to a model of the coefficient ring
//! (integers modulo 512 instead of 7681, two coefficients, the transform is the identity) and of
//! the encodings (contracts: decoding inverts encoding on lines; rounding is lossy).
#![allow(static_mut_refs, dead_code)]
pub mod coefficient;
pub mod poly_inner;
pub mod size;
#[path = "/repo/vru-kyber/src/poly.rs"]
pub mod poly;
#[path = "/repo/vru-kyber/src/indcpa.rs"]
pub mod indcpa;
pub mod ntt;
pub mod bodies;

vnd::harnesses! {
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    key_pair_w2,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    encrypt_w2,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    decrypt_w2,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    correct_w2,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    key_in_memory_w2,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    lines_w2,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    key_pair_w3,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    encrypt_w3,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    decrypt_w3,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    lines_w3,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    key_pair_w4,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    encrypt_w4,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    decrypt_w4,
    #[cfg_attr(kani, kani::stub(crate::indcpa::gen_matrix, crate::bodies::gen_matrix))]
    lines_w4,
}
