"""Which obligations decide which property."""

TRUSTED = {
    'common': [
        'rustc/Kani translation of the compiled crate to goto programs, CBMC 6.11 and CaDiCaL',
        'machine integers are modelled exactly (no mathematical-integer abstraction)',
    ],
    'garray': 'model of generic-array 0.14 (flat array instead of nested structs; same public contract), '
              'mocks/generic-array, used only inside the verifier; native runs use the real crate',
    'pke': 'contract of the public-key encryption (key_pair, encapsulate, decapsulate are functions of exactly their arguments; '
           'lines round trip), discharged on the real indcpa.rs under C10 and C11',
    'ring': 'model of the coefficient ring (integers modulo 512, two coefficients per polynomial, identity transform) and of the '
            'lossy encodings; the contracts of the real arithmetic, transform and encodings are C01-C07',
    'uf': 'hashes, XOFs, MACs and key agreement are uninterpreted functions (mocks/vru-uf): equal inputs give equal outputs',
    'matrix': 'contract of gen_matrix (stub): entry (i, j) is an arbitrary function of the seed and the position; discharged under C08',
    'hash': 'the hash is an uninterpreted function of the absorbed bytes (8 bytes wide, block size 4)',
    'aead': 'the AEAD is a keystream and a tag, uninterpreted functions of (key, nonce) and (key, nonce, associated data, ciphertext)',
    'hkdf': 'HKDF extract and expand are uninterpreted functions of their arguments (mocks/hkdf)',
    'symmetric': 'contract of vru-noise (mocks/vru-noise): symmetric state steps are uninterpreted functions of the state and the data, '
                 'discharged on the real vru-noise under N01-N05',
    'keys': 'contract of the key pairs (harness/session/src/handshake/key.rs): generation, exchange, encapsulation and identity are '
            'functions of exactly their arguments, the exchange is commutative; discharged under S03-S04 and C09',
    'curve': 'contract of curve25519-dalek 3 (mocks/curve25519-dalek): an encoding denotes a point or not, multiplication is an '
             'uninterpreted function of point and scalar; the glue of rac on top of it is the real code',
    'kem': 'contract of the KEM (mocks/vru-kyber): keys and ciphertexts are their lines, results are arbitrary and the arguments recorded; '
           'discharged under C09-C11; in the verifier the opaque line of the lattice key has 32 bytes instead of 1088',
    'secp': 'contract of secp256k1 0.20 (mocks/secp256k1): which strings are scalars, points and signatures is a fixed predicate, operations are '
            'uninterpreted functions of their operands that may fail; the glue of rac on top of it is the real code',
    'group': 'the abstract curve of the generic code (harness/rac/src/toy.rs): operations are uninterpreted functions, lengths all different',
    'store': 'contract of sled 0.34 (mocks/sled): a map; any operation may fail; what was flushed survives a crash, the rest may or may not',
    'gen': 'contract of key generation (mocks/vru-session): the pair is a function of the seed; discharged under S04',
    'modelstd': 'contract of std::thread, std::sync::{mpsc, Mutex}, HashMap, UdpSocket and of popol, log, rand (mocks/model-std, popol, log, rand): the '
                'dispatcher thread runs to its end when it is joined, waiting for a message that nobody can send is a failure, datagrams arrive as the '
                'scenario says and what is sent is recorded; io::Error is its kind',
    'firstmsg': 'contract of the first handshake message (harness/udp/session): a fixed string of 1120 bytes, its seed and identity recorded; '
                'the real one is decided by S02',
    'base64': 'contract of base64 0.13: a text decodes to an arbitrary string or an error, encoding is inverse to decoding',
    'sha3': 'model of sha3 0.9: hashes and XOFs are uninterpreted functions of the absorbed bytes',
}

REALNOISE = ['ref_chacha_sha3', 'ref_chacha_sha2', 'ref_aes_sha512']

P = 'proofs::'


def ps(*names):
    return [P + n for n in names]


def kyber(quick, thorough=(), **kw):
    return dict(crate='kyber', quick=quick, thorough=list(thorough), **kw)


CRATES = {}

PROPS = {
    'C01': dict(
        level='proof',
        kani=[kyber(['contracts::contract_montgomery_reduce', 'contracts::contract_barrett_reduce',
                     'contracts::contract_freeze']
                    + ps('arith_freeze', 'arith_barrett', 'arith_montgomery', 'arith_add', 'arith_sub',
                         'arith_acc_range2', 'arith_acc_range3', 'arith_acc_range4'),
                    ps('arith_acc_additive2'))],
        native=dict(crate='kyber', exhaustive=['ex_coefficient_unary', 'ex_acc_single'],
                    search=['acc_random', 'arith_montgomery', 'arith_add', 'arith_sub'], seconds=8),
        functions=['Coefficient::montgomery_reduce', 'Coefficient::barrett_reduce', 'Coefficient::freeze',
                   'Coefficient::acc', 'Coefficient::{add, sub, add_assign, sub_assign}'],
        trusted=['garray'],
        bounded={'ex_acc_single': 'exhaustive native enumeration of all pairs of reduced coefficients (2^27), not a proof obligation',
                 'acc_random': 'sampled'},
        assumptions=['operands of additions and subtractions are reduced (<= 11768), the left operand of an addition at most '
                     'one lazy addition above; products given to the Montgomery reduction are <= 1.07e9 (every call path is below)',
                     'the value (not the range) of a 2..4 term inner product in the quick tier: single pairs '
                     'exhaustively evaluated natively; additivity discharged in the thorough tier'],
    ),
    'C02': dict(
        level='proof',
        kani=[kyber(ps('pack13_u1', 'pack13_u2', 'unpack13_u32', 'pack13_u32_first', 'pack13_u32_mid', 'pack13_u32_last'),
                    ps('pack13_u32'))],
        native=dict(crate='kyber', search=['pack13_u32', 'unpack13_u32', 'pack13_u1', 'ref_lines'], seconds=15),
        functions=['PolyInner::to_bytes', 'PolyInner::from_bytes', 'Coefficient::freeze'],
        trusted=['garray'],
        bounded={b: 'full-size polynomial, 32 consecutive coefficients arbitrary, the others fixed'
                 for b in ('pack13_u32_first', 'pack13_u32_mid', 'pack13_u32_last')},
        assumptions=[],
    ),
    'C03': dict(
        level='proof',
        kani=[kyber(ps('comp11_round_u1', 'comp11_format_u1', 'comp11_decode_u1', 'comp11_stable_u1', 'comp11_stable_u2',
                       'comp11_decode_u32', 'comp11_u32_first', 'comp11_u32_mid', 'comp11_u32_last'))],
        native=dict(crate='kyber', search=['comp11_round_u1', 'comp11_stable_u2', 'comp11_decode_u32', 'ref_lines'], seconds=15),
        functions=['PolyInner::compress_slightly', 'PolyInner::decompress_slightly', 'Coefficient::freeze'],
        trusted=['garray'],
        bounded={b: 'full-size polynomial, one group of 8 coefficients arbitrary, the others fixed'
                 for b in ('comp11_u32_first', 'comp11_u32_mid', 'comp11_u32_last')},
        assumptions=[],
    ),
    'C04': dict(
        level='proof',
        kani=[kyber(ps('comp3_round_u1', 'comp3_decode_u1', 'comp3_stable_u1', 'comp3_stable_u2', 'comp3_decode_u32',
                       'comp3_u32_first', 'comp3_u32_mid', 'comp3_u32_last'))],
        native=dict(crate='kyber', search=['comp3_round_u1', 'comp3_stable_u2', 'comp3_decode_u32', 'ref_lines'], seconds=15),
        functions=['PolyInner::compress', 'PolyInner::decompress', 'Coefficient::freeze'],
        trusted=['garray'],
        bounded={b: 'full-size polynomial, four groups of 8 coefficients arbitrary, the others fixed'
                 for b in ('comp3_u32_first', 'comp3_u32_mid', 'comp3_u32_last')},
        assumptions=[],
    ),
    'C05': dict(
        level='proof',
        kani=[kyber(ps('msg_exact_u1', 'msg_noise_u1', 'msg_noise_u2', 'msg_encode_u32', 'msg_decode_u32'))],
        native=dict(crate='kyber', search=['msg_noise_u1', 'msg_noise_u2', 'msg_encode_u32', 'msg_decode_u32'], seconds=15),
        functions=['PolyInner::to_message', 'PolyInner::from_message', 'Coefficient::freeze'],
        trusted=['garray'],
        assumptions=[],
    ),
    'C06': dict(
        level='proof',
        kani=[kyber(ps('cbd_w2_u1', 'cbd_w3_u1', 'cbd_w4_u1', 'cbd_w2_u32', 'cbd_w3_u32', 'cbd_w4_u32'))],
        native=dict(crate='kyber', search=['cbd_w2_u32', 'cbd_w3_u32', 'cbd_w4_u32', 'ref_pair'], seconds=15),
        functions=['<PolyInner as Cbd<_, U2>>::cbd', '<PolyInner as Cbd<_, U3>>::cbd', '<PolyInner as Cbd<_, U4>>::cbd'],
        trusted=['garray'],
        assumptions=[],
    ),
    'C07': dict(
        level='other',
        kani=[kyber(['contracts::contract_montgomery_reduce']
                    + ps('ntt_forward_range_u1', 'ntt_inverse_range_u1', 'ntt_forward_range_u4', 'ntt_inverse_range_u4'),
                    ps('ntt_forward_range_u8', 'ntt_inverse_range_u8'))],
        native=dict(crate='kyber', exhaustive=['ex_ntt_forward_basis', 'ex_ntt_inverse_basis'],
                    search=['ntt_linear', 'ntt_roundtrip'], seconds=30),
        functions=['Poly::ntt_inner', 'Ntt::ntt', 'Coefficient::montgomery_reduce (by contract)'],
        trusted=['garray'],
        bounded={'ntt_*_range_*': 'polynomial sizes 8, 32 and (thorough) 64 of the same generic function; the size used is 256',
                 'ex_ntt_*_basis': 'exhaustive over the 256 basis vectors, native'},
        assumptions=['the transform is linear modulo q (each step is a sum or a product with a table entry, no data-dependent '
                     'branch), so its values on the basis determine it; linearity is sampled, not discharged'],
    ),
    'C08': dict(
        level='proof',
        kani=[kyber(ps('matrix_first', 'matrix_boundary', 'matrix_order_w2'), ps('matrix_order_w3', 'matrix_order_w4'))],
        native=dict(crate='kyber', search=['matrix_first', 'ref_pair', 'ref_encapsulate'], seconds=30),
        functions=['gen_matrix'],
        trusted=['garray', 'sha3'],
        bounded={'matrix_first': 'polynomial of 8 coefficients, first 12 candidates arbitrary',
                 'matrix_boundary': '12 arbitrary candidates around the end of the fourth block',
                 'matrix_order_*': 'all positions, arbitrary seed'},
        assumptions=['only the first five XOF blocks are specified (the fifth is reached with probability < 2^-100)'],
    ),
    'C09': dict(
        level='proof',
        kani=[dict(crate='kem', quick=ps('generate_spec', 'encapsulate_spec', 'decapsulate_spec', 'agreement', 'reject_differs'))],
        native=[dict(crate='kem', search=['generate_spec', 'encapsulate_spec', 'decapsulate_spec', 'agreement', 'reject_differs'],
                     seconds=6),
                dict(crate='kyber', search=['ref_encapsulate', 'ref_decapsulate', 'ref_in_memory', 'ref_pair'], seconds=40)],
        functions=['<Kyber as Kem>::generate_pair', '<Kyber as Kem>::encapsulate', '<Kyber as Kem>::decapsulate'],
        trusted=['garray', 'uf', 'pke', 'sha3'],
        assumptions=['agreement assumes that the public-key encryption decrypts (its failure probability is not zero)',
                     'reject_differs assumes that no two of the hashes computed collide',
                     'constant-time behaviour is not decided'],
    ),
    'C10': dict(
        level='proof',
        kani=[dict(crate='indcpa', quick=ps(*'key_pair_w2 encrypt_w2 decrypt_w2 key_pair_w3 encrypt_w3 decrypt_w3 key_pair_w4 encrypt_w4 decrypt_w4 correct_w2'.split()))],
        native=[dict(crate='indcpa', search='key_pair_w2 encrypt_w3 decrypt_w4 encrypt_w4 correct_w2'.split(), seconds=5),
                dict(crate='kyber', search=['ref_pair', 'ref_encapsulate', 'ref_decapsulate', 'ref_in_memory'], seconds=30)],
        functions=['key_pair', 'encapsulate', 'decapsulate', 'Poly::functor_2', 'Poly::functor_2_a', 'Poly::functor_3', 'Poly::get_noise'],
        trusted=['garray', 'uf', 'ring', 'matrix', 'sha3'],
        bounded={'correct_w2': 'cancellation of the noise: matrix entries below 4; the general identity follows from the three specifications'},
        assumptions=['the model ring stands for the real one: the functions are generic in it and use it only through the contracts of C01-C07'],
    ),
    'C11': dict(
        level='proof',
        kani=[dict(crate='indcpa', quick=ps('lines_w2', 'lines_w3', 'lines_w4', 'key_in_memory_w2'))],
        native=[dict(crate='indcpa', search=['lines_w2', 'lines_w3', 'lines_w4', 'key_in_memory_w2'], seconds=5),
                dict(crate='kyber', search=['ref_lines', 'ref_malformed', 'ref_in_memory', 'ref_pair'], seconds=30)],
        functions=['<SecretKey as LineValid>::{try_clone_array, clone_line}', '<PublicKey as LineValid>::{try_clone_array, clone_line}',
                   '<CipherText as LineValid>::{try_clone_array, clone_line}'],
        trusted=['garray', 'uf', 'ring', 'matrix', 'sha3'],
        assumptions=['the encodings of single polynomials are C02-C04'],
    ),
    'N01': dict(
        level='proof',
        kani=[dict(crate='noise', quick=ps('mix_parts_2', 'mix_parts_3', 'mix_hash_spec'))],
        native=[dict(crate='noise', search=['mix_parts_2', 'mix_parts_3', 'mix_hash_spec'], seconds=5),
                dict(crate='noisereal', exhaustive=['ex_lengths'], search=REALNOISE, seconds=10)],
        functions=['MixHash::init', 'MixHash::mix_hash', 'MixHash::mix_parts'],
        trusted=['garray', 'hash'],
        bounded={'mix_parts_*': 'block size 4, two and three parts of every length up to 9 bytes each; the function is generic in the block size',
                 'ex_lengths': 'native, every ciphertext length below three blocks, real block sizes'},
        assumptions=[],
    ),
    'N02': dict(
        level='proof',
        kani=[dict(crate='noise', quick=ps('state_new', 'state_encrypt', 'state_decrypt', 'state_pair'))],
        native=[dict(crate='noise', search=['state_new', 'state_encrypt', 'state_decrypt', 'state_pair'], seconds=5),
                dict(crate='noisereal', search=REALNOISE, seconds=15)],
        functions=['SymmetricState::new', 'SymmetricState::mix_hash', 'SymmetricState::mix_shared_secret', 'SymmetricState::encrypt',
                   'SymmetricState::decrypt', 'SymmetricState::hash'],
        trusted=['garray', 'hash', 'aead', 'hkdf'],
        bounded={'state_*': 'sequences of at most four messages of at most nine bytes; the nonce is part of the type, so longer '
                            'sequences are other instances of the same code'},
        assumptions=[],
    ),
    'N03': dict(
        level='proof',
        kani=[dict(crate='noise', quick=ps('cipher_encrypt_1', 'cipher_encrypt_3', 'cipher_encrypt_max', 'cipher_decrypt_1',
                                           'cipher_decrypt_3', 'cipher_decrypt_max', 'cipher_tamper', 'cipher_directions'))],
        native=[dict(crate='noise', search=['cipher_encrypt_3', 'cipher_decrypt_3', 'cipher_tamper', 'cipher_directions'], seconds=5),
                dict(crate='noisereal', search=REALNOISE, seconds=15)],
        functions=['Unidirectional::encrypt', 'Unidirectional::decrypt', 'Unidirectional::next', 'Cipher::{encrypt, decrypt, swap}'],
        trusted=['garray', 'aead', 'hash', 'hkdf'],
        bounded={'cipher_*': 'messages of three bytes with two bytes of associated data (lengths play no part in the code); '
                             'rotation intervals 1, 3 and 2^64-1; nonce, key and rotor state arbitrary, so the step contract covers every history'},
        assumptions=['fewer than 2^64-1 messages are sent under one cipher'],
    ),
    'N04': dict(
        level='proof',
        kani=[dict(crate='noise', quick=ps('cipher_ext', 'cipher_ext_short', 'cipher_ext_any'))],
        native=[dict(crate='noise', search=['cipher_ext', 'cipher_ext_short', 'cipher_ext_any'], seconds=5),
                dict(crate='noisereal', search=REALNOISE, seconds=15)],
        functions=['Cipher::encrypt_ext', 'Cipher::decrypt_ext'],
        trusted=['garray', 'aead', 'hash', 'hkdf'],
        bounded={'cipher_ext*': 'tag of 3 bytes, buffers of 0, 1, 2, 3, 4, 5 and 7 bytes; longer ones natively'},
        assumptions=[],
    ),
    'N05': dict(
        level='proof',
        kani=[dict(crate='noise', quick=ps('split_spec', 'state_psk', 'state_finish'))],
        native=[dict(crate='noise', search=['split_spec', 'state_psk', 'state_finish'], seconds=5),
                dict(crate='noisereal', search=REALNOISE, seconds=15)],
        functions=['HkdfSplit::hkdf_split', 'HkdfSplitExt::{split_final, split_2, split_3}', 'truncate', 'SymmetricState::mix_psk',
                   'SymmetricState::mix_shared_secret', 'SymmetricState::finish', 'Cipher::new', 'Unidirectional::new'],
        trusted=['garray', 'aead', 'hash', 'hkdf'],
        assumptions=[],
    ),
    'S01': dict(
        level='proof',
        kani=[dict(crate='session', quick=ps('agreement'), thorough=ps('agreement_other_payloads'))],
        native=[dict(crate='session', search=['agreement', 'agreement_other_payloads'], seconds=5),
                dict(crate='sessionreal', search=['ref_handshake', 'ref_handshake_sizes', 'ref_handshake_large'], seconds=15)],
        functions=['out0', 'take0_out1', 'take1_out2', 'take2_out3', 'take3'],
        trusted=['garray', 'symmetric', 'keys'],
        bounded={'agreement*': 'payload types of one to three bytes (lengths play no part in the code); other sizes natively'},
        assumptions=['both sides are given the same seeds and keys they generated; the key encapsulation decapsulates correctly (C09)'],
    ),
    'S02': dict(
        level='proof',
        kani=[dict(crate='session', quick=ps('line_empty', 'line_one', 'line_more', 'out0_spec', 'responder_first_spec', 'initiator_second_spec', 'responder_second_spec',
                                             'initiator_last_spec', 'wrong_identity'))],
        native=[dict(crate='session', search=['line_empty', 'line_one', 'line_more', 'out0_spec', 'responder_first_spec', 'initiator_second_spec', 'responder_second_spec',
                                              'initiator_last_spec', 'wrong_identity'], seconds=5),
                dict(crate='sessionreal', search=['ref_handshake', 'ref_handshake_sizes', 'tamper', 'impostor'], seconds=15)],
        functions=['out0', 'take0_out1', 'take1_out2', 'take2_out3', 'take_3', 'SymmetricStateOps::encrypt_line', 'SymmetricStateOps::decrypt_line'],
        trusted=['garray', 'symmetric', 'keys'],
        bounded={'line_*': 'lines of 0, 1 and 6 bytes', '*_spec': 'payload types of one to three bytes (lengths play no part in the code); other sizes natively'},
        assumptions=['that a modified message has another tag is a property of the cipher; here every message whose tag is not the specified one is refused'],
    ),
    'S03': dict(
        level='proof',
        kani=[dict(crate='key', quick=ps('identity_spec', 'text_roundtrip', 'text_parse'))],
        native=[dict(crate='key', search=['identity_spec', 'text_roundtrip', 'text_parse'], seconds=4),
                dict(crate='sessionreal', search=['identity_text', 'identity_parse', 'identity_hash'], seconds=10)],
        functions=['PublicKey::identity', 'PublicKey::compress', 'Concat::clone_line', 'Identity: Display', 'Identity: FromStr'],
        trusted=['garray', 'curve', 'kem', 'base64', 'sha3'],
        bounded={'text_parse': 'decoded texts of at most 40 bytes; longer ones natively'},
        assumptions=['that different keys have different identities is collision resistance of SHA3-256'],
    ),
    'S04': dict(
        level='proof',
        kani=[dict(crate='key', quick=ps('gen_spec', 'decompress_spec', 'clone_spec', 'write_spec', 'read_spec', 'exchange_spec'))],
        native=[dict(crate='key', search=['gen_spec', 'decompress_spec', 'clone_spec', 'write_spec', 'read_spec', 'exchange_spec'], seconds=4),
                dict(crate='sessionreal', search=['key_routes', 'key_parse', 'key_agreement', 'key_scalar'], seconds=15)],
        functions=['PublicKey::{gen, try_decompress, elliptic, lattice, lattice_hash, compress, dh, encapsulate, decapsulate, clone}',
                   'SecretKey::clone', 'PublicKey: Serialize, Deserialize', 'LineLike: Serialize, Deserialize', 'Concat (rac)',
                   'EdwardsPoint: Curve, LineValid; Scalar: LineValid (rac)'],
        trusted=['garray', 'curve', 'kem', 'sha3'],
        bounded={'write_spec, read_spec': 'one serialization format without framing (the byte sequence the format is given is what is specified)'},
        assumptions=['serde and its derived code for tuples and newtypes'],
    ),
    'S05': dict(
        level='proof',
        kani=[dict(crate='session', quick=ps('initiator_second_spec', 'responder_second_spec')),
              dict(crate='key', quick=ps('decompress_spec', 'read_spec', 'text_parse'))],
        native=[dict(crate='session', search=['initiator_second_spec', 'responder_second_spec'], seconds=4),
                dict(crate='key', search=['decompress_spec', 'read_spec', 'text_parse'], seconds=4),
                dict(crate='sessionreal', search=['malformed_peer', 'key_parse', 'identity_parse', 'tamper'], seconds=15)],
        functions=['take1_out2', 'take2_out3', 'PublicKey::try_decompress', 'PublicKey: Deserialize', 'Identity: FromStr'],
        trusted=['garray', 'symmetric', 'keys', 'curve', 'kem', 'base64', 'sha3'],
        bounded={'*_spec': 'payload types of one to three bytes (lengths play no part in the code); other sizes natively'},
        assumptions=['the first message: see the known finding'],
    ),
    'R01': dict(
        level='proof',
        kani=[dict(crate='rac', quick=ps('line_array', 'line_concat', 'line_concat_empty', 'line_concat_nested', 'line_refuses', 'line_like'))],
        native=[dict(crate='rac', search=['line_array', 'line_concat', 'line_concat_empty', 'line_concat_nested', 'line_refuses', 'line_like'], seconds=2),
                dict(crate='racreal', search=['lines'], seconds=5)],
        functions=['Array: LineValid, Line', '[u8; 0]: LineValid, Line', 'Concat: LineValid, Line', 'LineLike: Clone, Serialize, Deserialize'],
        trusted=['garray'],
        bounded={'line_*': 'the lengths are type parameters: fixed instances (0 to 48 bytes, all orders, nesting in both directions)'},
        assumptions=['serde and its derived code for tuples and newtypes'],
    ),
    'R02': dict(
        level='proof',
        kani=[dict(crate='rac', quick=ps('sign_spec', 'verify_spec', 'sign_then_verify'))],
        native=[dict(crate='rac', search=['sign_spec', 'verify_spec', 'sign_then_verify'], seconds=4),
                dict(crate='racreal', search=['schnorr_25519', 'schnorr_25519_tamper'], seconds=15)],
        functions=['Schnorr::sign', 'Schnorr::verify'],
        trusted=['garray', 'group'],
        bounded={'sign_spec, verify_spec': 'messages of at most 4 bytes (they are only absorbed); longer ones natively',
                 'sign_then_verify': 'one group (order 13); for any group acceptance follows from the two specifications by h Y + (k - d h) G = k G'},
        assumptions=['unforgeability is a property of the hash and the group'],
    ),
    'R03': dict(
        level='proof',
        kani=[dict(crate='rac', quick=ps('signature_bytes', 'sign_then_verify'))],
        native=[dict(crate='rac', search=['signature_bytes', 'sign_then_verify'], seconds=4),
                dict(crate='racreal', search=['schnorr_25519'], seconds=10)],
        functions=['Schnorr: LineValid'],
        trusted=['garray', 'group'],
        bounded={'sign_then_verify': 'one group (order 13)'},
        assumptions=['scalars of the curve are read back as they were written; for curve25519 they are not: see the known finding'],
    ),
    'R04': dict(
        level='proof',
        kani=[dict(crate='rac', quick=ps('scalar_25519', 'edwards_25519', 'montgomery_25519', 'scalar_secp', 'point_secp_line',
                                         'point_secp_compressed', 'point_secp_exp', 'point_secp_add', 'signature_secp'))],
        native=[dict(crate='rac', search=['scalar_25519', 'edwards_25519', 'montgomery_25519', 'scalar_secp', 'point_secp_line',
                                          'point_secp_compressed', 'point_secp_exp', 'point_secp_add', 'signature_secp'], seconds=3),
                dict(crate='racreal', search=['curve_25519', 'curve_secp'], seconds=20)],
        functions=['curve25519_dalek_m: Scalar, EdwardsPoint, MontgomeryPoint', 'secp256k1_m: SecretKey, PublicKey, Signature'],
        trusted=['garray', 'curve', 'secp'],
        assumptions=['sub_ff and inv_ff of secp256k1, inv_ff of curve25519, mul_ec and x_coordinate of Montgomery points are not implemented and not claimed',
                     'mul_ec of a point and its negative on secp256k1 panics (no representation of the neutral element) and is not claimed'],
    ),
    'D01': dict(
        level='proof',
        kani=[dict(crate='node', quick=ps('key_history', 'key_failure'))],
        native=[dict(crate='node', search=['key_history', 'key_failure'], seconds=3),
                dict(crate='nodereal', search=['key_survives'], seconds=10)],
        functions=['Database::open', 'Database::key_or_insert'],
        trusted=['garray', 'store', 'gen'],
        bounded={'key_history': 'three starts with a crash between any two; from the second start on the state of the store no longer changes, '
                                'so further starts are the same step again',
                 'key_failure': 'two starts, any operation of the first one fails'},
        assumptions=['nothing else writes the entry of the key'],
    ),
    'U01': dict(
        level='proof',
        kani=[dict(crate='udp', quick=ps('dial_answer', 'dial_refused', 'dial_other', 'dial_error', 'dial_twice'))],
        native=[dict(crate='udp', search=['dial_answer', 'dial_refused', 'dial_other', 'dial_error', 'dial_twice', 'dial_two', 'dial_once',
                                          'local_commands', 'shutdown'], seconds=2)],
        functions=['Node::spawn', 'Node::command', 'Node::join', 'NodeRef::try_recv', 'NodeState::run', 'NodeState::process', 'Peer::spawn', 'Peer::send',
                   'Peer::join', 'PeerHandle::send', 'PeerState::run', 'EventSender::report', 'Datagram::link'],
        trusted=['garray', 'modelstd', 'firstmsg'],
        bounded={'dial_answer': 'one arrival (a dispatcher handles one datagram at a time)', 'dial_refused': 'one arrival', 'dial_other': 'one arrival',
                 'dial_error': 'one arrival', 'dial_twice': 'two connections to one address, one arrival'},
        assumptions=['two dialled addresses, repeated datagrams, local commands and shutdown during a datagram are evaluated natively over the same '
                     'contracts (dial_two, dial_once, local_commands, shutdown), never counted as proved: the solver does not finish on them',
                     'threads are run one after another; the locks of the dispatcher are never held while it waits',
                     'a datagram longer than 1280 bytes arrives cut to 1280 (the socket gives no other sign)'],
    ),
}
