vnd::harnesses! {
    // coefficient arithmetic
    arith_freeze, arith_barrett, arith_montgomery, arith_add, arith_sub,
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    arith_acc_range2,
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    arith_acc_range3,
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    arith_acc_range4,
    arith_acc_additive2,
    // number-theoretic transform: every intermediate value in range
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    ntt_forward_range_u1,
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    ntt_forward_range_u4,
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    ntt_forward_range_u8,
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    ntt_inverse_range_u1,
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    ntt_inverse_range_u4,
    #[kani::stub_verified(Coefficient::montgomery_reduce)]
    ntt_inverse_range_u8,
    // matrix sampling
    #[kani::unwind(42)]
    matrix_first,
    #[kani::unwind(350)]
    matrix_boundary,
    #[kani::unwind(42)]
    matrix_order_w2,
    #[kani::unwind(42)]
    matrix_order_w3,
    #[kani::unwind(42)]
    matrix_order_w4,
    // 13-bit packing
    pack13_u1, pack13_u2, pack13_u32, pack13_u32_first, pack13_u32_mid, pack13_u32_last, unpack13_u32,
    // 11-bit compression
    comp11_round_u1, comp11_format_u1, comp11_decode_u1, comp11_stable_u1, comp11_stable_u2,
    comp11_decode_u32, comp11_u32_first, comp11_u32_mid, comp11_u32_last,
    // 3-bit compression
    comp3_round_u1, comp3_decode_u1, comp3_stable_u1, comp3_stable_u2,
    comp3_decode_u32, comp3_u32_first, comp3_u32_mid, comp3_u32_last,
    // message encoding
    msg_exact_u1, msg_noise_u1, msg_noise_u2, msg_encode_u32, msg_decode_u32,
    // noise sampling
    cbd_w2_u1, cbd_w3_u1, cbd_w4_u1, cbd_w2_u32, cbd_w3_u32, cbd_w4_u32,
}
