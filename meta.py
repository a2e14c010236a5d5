#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, subprocess, os

HERE = os.path.dirname(os.path.abspath(__file__))
K = 'vru-kyber/src/'
N = 'vru-noise/src/'
S = 'vru-session/src/'
R = 'rac/src/'


def M(*pairs):
    return [dict(name=n, where=w) for n, w in pairs]


PROPERTIES = [
    dict(id='C01', title='Modular arithmetic on lattice coefficients is exact and never overflows',
         statement='Every reduction, addition, subtraction and inner product of coefficients returns the mathematically '
                   'correct residue modulo 7681, in a range that the next operation accepts, for every coefficient value the '
                   'scheme can produce. No intermediate computation overflows its machine type.',
         over=['inputs'], text='all 16-bit coefficients, all 32-bit products in the admissible range, inner products of 2, 3 and 4 terms',
         why='The existing tests run three fixed key pairs; an error that only shows for rare operand values (a missed '
             'reduction, an off-by-one bound) passes them.',
         files=[K + 'coefficient.rs'],
         mech=M(('Montgomery, Barrett and final reduction', K + 'coefficient.rs'), ('lazy inner product accumulation', K + 'coefficient.rs'))),
    dict(id='C02', title='Secret polynomials survive their 13-bit packing unchanged',
         statement='Packing any polynomial yields the little-endian string of its canonical 13-bit residues, and unpacking such a '
                   'string yields exactly these coefficients. Unpacking any byte string is total and reads each coefficient '
                   'from its own 13 bits.',
         over=['inputs'], text='every coefficient vector and every byte string of the packed length',
         why='One packed secret key per parameter set is compared with a fixed vector; other values and non-canonical '
             'coefficients are never tried.',
         files=[K + 'poly_inner.rs'], mech=M(('bit packing of eight coefficients into 13 bytes', K + 'poly_inner.rs'))),
    dict(id='C03', title='11-bit compression rounds to nearest and is stable under recompression',
         statement='Compressing a coefficient to 11 bits stores the nearest multiple of q/2048 in its own 11 bits, decompression '
                   'returns that multiple rounded to nearest, and compressing a decompressed line reproduces the line bit for bit.',
         over=['inputs'], text='every coefficient vector and every compressed line',
         why='Public keys and ciphertexts of three fixed seeds are compared; a rounding or bit position error for other values is not seen.',
         files=[K + 'poly_inner.rs'], mech=M(('slight compression and decompression', K + 'poly_inner.rs'))),
    dict(id='C04', title='3-bit compression rounds to nearest and is stable under recompression',
         statement='Compressing a coefficient to 3 bits stores the nearest multiple of q/8 in its own 3 bits, decompression '
                   'returns that multiple rounded to nearest, and compressing a decompressed line reproduces the line bit for bit.',
         over=['inputs'], text='every coefficient vector and every compressed line',
         why='Three fixed ciphertexts are compared; other values are never tried.',
         files=[K + 'poly_inner.rs'], mech=M(('compression and decompression of the message polynomial', K + 'poly_inner.rs'))),
    dict(id='C05', title='Message decoding tolerates every noise below a quarter of the modulus',
         statement='Decoding an encoded message returns the message when each coefficient is disturbed by any noise of magnitude '
                   'at most 1919 (below q/4), whatever representative of the residue is stored. Each message bit goes to its own coefficient, '
                   'and each decoded bit is the nearest codeword.',
         over=['inputs'], text='every 32-byte message, every noise vector within the bound, every coefficient vector',
         why='The tests decode three messages with one noise vector each; the boundary of the noise interval is never reached.',
         files=[K + 'poly_inner.rs'], mech=M(('message encoding and threshold decoding', K + 'poly_inner.rs'))),
    dict(id='C06', title='Noise sampling is the centred binomial of its seed stream',
         statement='Each noise coefficient equals the difference of the bit counts of two consecutive fields of the sampled '
                   'byte stream, 5, 4 or 3 bits wide for the three parameter sets, and every stream bit is used exactly once.',
         over=['inputs'], text='every byte stream, all three parameter sets',
         why='A wrong mask or field offset changes the distribution for streams other than the few in the fixed vectors.',
         files=[K + 'poly_inner.rs'], mech=M(('centred binomial samplers', K + 'poly_inner.rs'))),
    dict(id='C07', title='The number-theoretic transform is exact and invertible on every polynomial',
         statement='The forward transform maps every reduced polynomial to its evaluations at the 256 roots of x^256+1, and the inverse '
                   'transform maps evaluations back to the polynomial, modulo 7681. No intermediate value overflows, and the '
                   'outputs are in the range the arithmetic accepts.',
         over=['inputs'], text='every vector of 256 reduced coefficients',
         why='The fixed vectors transform a handful of polynomials; lazy reductions overflow only for particular coefficient patterns.',
         files=[K + 'poly.rs', K + 'coefficient.rs'],
         mech=M(('butterfly network with lazy reductions', K + 'poly.rs'), ('constant tables', K + 'poly.rs'))),
    dict(id='C08', title='The public matrix is the rejection-sampled expansion of its seed',
         statement='Every entry of the public matrix consists of the first 256 accepted 13-bit candidates of the stream '
                   'of the seed followed by its own position, all below the modulus. The transposed matrix has the same entries transposed, '
                   'and a candidate sequence that crosses a block boundary continues in the next block.',
         over=['inputs'], text='every seed and position, every candidate sequence within the first five blocks of the stream',
         why='Sequences with an unusual number of rejections, and non-square index mistakes, do not occur in the fixed vectors.',
         files=[K + 'indcpa.rs'], mech=M(('rejection sampling of the matrix', K + 'indcpa.rs'))),
    dict(id='C09', title='Decapsulation gives the shared secret, or an unrelated one after tampering',
         statement='For a matching key pair both sides obtain the same secret. A ciphertext that re-encryption does not reproduce '
                   'exactly yields instead a secret derived from the private reject value and the received ciphertext, never '
                   'the original one and never an error. The secret depends on the message, the key hash and the exact ciphertext line.',
         over=['inputs'], text='every seed, key pair, key hash and ciphertext line, including modified and arbitrary ones',
         why='The tests decapsulate three honest ciphertexts; the rejection branch is never executed.',
         files=[K + 'kem.rs'], mech=M(('re-encryption and implicit rejection', K + 'kem.rs'))),
    dict(id='C10', title='The lattice encryption computes its defining equations and the noise cancels',
         statement='Key generation computes t = A s + e, encryption u = A^T r + e1 and v = t r + e2 + message, decryption decodes v - s u, '
                   'each noise term with its own nonce and each part rounded as its line says. Hence decryption with the '
                   'generated key returns the encrypted message.',
         over=['inputs'], text='every seed, message, matrix and noise vector, all three widths',
         why='A swapped index or nonce gives consistent but weaker or rarely failing encryption that three fixed vectors need not show.',
         files=[K + 'indcpa.rs', K + 'poly.rs'],
         mech=M(('key generation, encryption, decryption', K + 'indcpa.rs'), ('pointwise operations', K + 'poly.rs'))),
    dict(id='C11', title='Every key and ciphertext line is accepted and reproduced exactly',
         statement='Parsing any line of the right length succeeds without a panic and writing it out gives the same line (secret keys up to canonical '
                   'residues). A key used as generated behaves exactly like the key parsed from its own line.',
         over=['inputs', 'histories'], text='every line of every key and ciphertext type, all three widths',
         why='The tests round trip three honest lines; arbitrary peer-supplied lines and unserialized keys are not tried.',
         files=[K + 'indcpa.rs'], mech=M(('LineValid of keys and ciphertexts', K + 'indcpa.rs'))),
    dict(id='N01', title='The handshake transcript hash absorbs exactly the bytes it is given',
         statement='Mixing data into the handshake hash yields the hash of the previous value followed by all the bytes, in order, '
                   'each exactly once, however they are split into parts and whatever their lengths relative to the block size of the hash.',
         over=['inputs'], text='every list of parts, every length including zero, exact multiples of the block and longer ones',
         why='Both peers run the same code, so a byte that is skipped or repeated is not noticed by a round trip; the vectors use few lengths.',
         files=[N + 'hash.rs'], mech=M(('block-wise buffering of the parts', N + 'hash.rs'))),
    dict(id='N02', title='Handshake encryption follows the Noise symmetric state, both sides in lockstep',
         statement='The n-th message under a key is encrypted with nonce n and the current transcript hash as associated data, and its ciphertext and '
                   'tag are then mixed into the hash. The receiver accepts exactly the right tag and then has the same hash and keys as the sender.',
         over=['inputs', 'histories'], text='every protocol name, key material, message, ciphertext and tag',
         why='The vectors run one handshake pattern; a wrong nonce, hash or tag check that both sides share passes a round trip.',
         files=[N + 'symmetric_state.rs'],
         mech=M(('encrypt and decrypt with typed nonce', N + 'symmetric_state.rs'), ('initial hash from the protocol name', N + 'symmetric_state.rs'))),
    dict(id='N03', title='Transport uses each nonce once, rotates keys in step, survives rejected messages',
         statement='Every message of a direction uses the next nonce, the key is rotated exactly when the message count reaches a multiple of the '
                   'rotor interval, and the two directions are independent. A rejected message changes nothing, so the next honest message is accepted.',
         over=['inputs', 'histories'], text='every state reached by any number of messages, every message, associated data and tag, honest or not',
         why='The tests send a few honest messages; rejected messages in between and rotation never occur.',
         files=[N + 'cipher_state.rs'], mech=M(('nonce counter and rotor', N + 'cipher_state.rs'))),
    dict(id='N04', title='Whole-buffer encryption appends the tag and rejects every malformed buffer',
         statement='Encrypting a buffer in place appends exactly the tag, decrypting removes it and restores the message. Any other '
                   'buffer, of any length including shorter than a tag, is rejected with the MAC error and never with a panic.',
         over=['inputs'], text='every buffer content and length',
         why='The buffer comes from the network; no test gives a short or modified one.',
         files=[N + 'cipher_state.rs'], mech=M(('tag at the end of the buffer', N + 'cipher_state.rs'))),
    dict(id='N05', title='The key schedule derives every key from the chaining key as Noise prescribes',
         statement='Mixing a secret replaces the chaining key and the cipher key by the first and second HKDF output, mixing a pre-shared key also '
                   'mixes the middle output into the hash. Finishing gives the initiator the first output for sending and the second for receiving, '
                   'each truncated to the key length, and gives the rotor of each direction the chaining key and that key.',
         over=['inputs'], text='every chaining key and secret of every length',
         why='The vectors use neither pre-shared keys nor rotors, and an exchange of keys common to both sides is invisible to a round trip.',
         files=[N + 'hash.rs', N + 'symmetric_state.rs', N + 'cipher_state.rs'],
         mech=M(('HKDF splitting and truncation', N + 'hash.rs'), ('mix_shared_secret, mix_psk, finish', N + 'symmetric_state.rs'))),
    dict(id='S01', title='Two honest peers always complete the handshake with the same keys',
         statement='When the initiator dials the identity of the responder and no message is changed, all four steps succeed, each side '
                   'receives exactly the payloads and the static key the other one sent, both compute the same transcript hash, and '
                   'each one\'s sending key is the other\'s receiving key.',
         over=['inputs', 'histories'], text='every pair of key pairs, every seed of both sides, all payloads',
         why='The single handshake test uses one pair of keys and one payload each.',
         files=[S + 'handshake/xx.rs', S + 'handshake/noise.rs', S + 'handshake/key.rs'],
         mech=M(('four handshake steps', S + 'handshake/xx.rs'))),
    dict(id='S02', title='Each handshake step follows the XX pattern and refuses every other message',
         statement='The tokens of each message are mixed in pattern order, each secret part is encrypted under all secrets mixed so far, and '
                   'the final keys depend on all three elliptic exchanges and all three encapsulations. A message that is not the one the pattern '
                   'prescribes is refused with the error of the first part that does not fit, and a peer whose static key is not the dialled identity is refused.',
         over=['inputs', 'histories'], text='every message against every state: honest, modified in any bit, replayed, from another key pair',
         why='Tests run honest messages only; a token both sides skip or a check that is not made passes them.',
         files=[S + 'handshake/xx.rs'],
         mech=M(('mixing order and checks of take0_out1, take1_out2, take2_out3, take3', S + 'handshake/xx.rs'))),
    dict(id='S03', title='An identity is the hash of the whole public key, and its text form is exact',
         statement='The identity of a public key is SHA3-256 of its compressed bytes, elliptic and lattice part, independent of how the key was obtained. '
                   'Displaying an identity and parsing the text gives the same identity; a text whose base64 value is not 33 bytes long is refused with an error.',
         over=['inputs'], text='every public key, every identity, every text',
         why='No test covers identities; an identity that ignores part of the key passes the whole suite.',
         files=[S + 'handshake/key.rs', 'rac/src/concat.rs'],
         mech=M(('identity, Display and FromStr', S + 'handshake/key.rs'))),
    dict(id='S04', title='A public key is the same key however it was obtained',
         statement='A key that was generated, cloned, compressed and decompressed, or serialized and deserialized shows the same bytes and lattice hash, '
                   'and gives the same shared secrets and ciphertexts. The hash in a key always is the hash of its lattice part: bytes that are '
                   'inconsistent or no point are refused. The two exchange directions agree.',
         over=['inputs'], text='every seed, every byte string offered as a key',
         why='The handshake test generates both keys in memory and never serializes or clones one.',
         files=[S + 'handshake/key.rs', 'rac/src/line.rs', 'rac/src/concat.rs', 'rac/src/curve25519_dalek_m.rs'],
         mech=M(('gen, try_decompress, Clone, Serialize, Deserialize', S + 'handshake/key.rs'))),
    dict(id='S05', title='Nothing a peer sends makes the handshake panic',
         statement='Whatever bytes arrive as a handshake message, a public key or an identity text, the code returns an error or a result and does not panic; '
                   'an authenticated message that carries an invalid public key is refused with an error.',
         over=['inputs', 'histories'], text='every message of an authenticated or unauthenticated peer, at every step of the handshake',
         why='Tests never send malformed data.',
         files=[S + 'handshake/xx.rs', S + 'handshake/key.rs'],
         mech=M(('decompression of received keys', S + 'handshake/xx.rs'), ('try_decompress, Deserialize, FromStr', S + 'handshake/key.rs'))),
    dict(id='R01', title='Lines round trip, and a concatenation is its parts in order',
         statement='A value made from a line gives the same line again; a concatenation has the line of its first part followed by that of its second, for every '
                   'pair of lengths including zero and for every nesting; a line with a component that is not valid is refused; cloning and serialization '
                   'through the line keep the value.',
         over=['inputs'], text='all lines, all lengths and nestings of the component types',
         why='Lengths are type parameters; tests only use 32 + 32 bytes.',
         files=['rac/src/line.rs', 'rac/src/concat.rs'],
         mech=M(('Concat::clone_array, try_clone_array, clone_line', 'rac/src/concat.rs'), ('LineLike', 'rac/src/line.rs'))),
    dict(id='R02', title='Schnorr signatures satisfy the signature equation, and only those are accepted',
         statement='Signing gives r = x(kG), s = k - d H(r || m), or an error if a curve operation fails. A signature is accepted for a key Y and a message '
                   'exactly if x(H(r || m) Y + s G) = r; so an honest signature is always accepted.',
         over=['inputs'], text='every key, nonce, message and every byte string offered as a signature',
         why='The one test signs four bytes with random keys and never offers a wrong signature; a verification that accepts everything passes it.',
         files=['rac/src/schnorr.rs'],
         mech=M(('sign, verify', 'rac/src/schnorr.rs'))),
    dict(id='R03', title='A signature survives its byte form',
         statement='The line of a signature is r followed by s for coordinates and scalars of any lengths; reading it gives the same signature, accepted for '
                   'the same messages; a line with an invalid scalar is refused.',
         over=['inputs'], text='every signature, every line, curves whose coordinate and scalar lengths differ',
         why='No test converts a signature to bytes.',
         files=['rac/src/schnorr.rs', 'rac/src/concat.rs'],
         mech=M(('LineValid for Schnorr', 'rac/src/schnorr.rs'))),
    dict(id='R04', title='Scalars and points of both curves keep their meaning in encodings and operations',
         statement='Scalars of curve25519 are clamped as X25519 does, those of secp256k1 are accepted exactly if valid; points are accepted exactly if they are on '
                   'the curve, and encoding, compression, coordinate, base point, addition and multiplication are those of the curve library.',
         over=['inputs'], text='every scalar, every string offered as a point, all operands',
         why='Only one curve is used in one test, with random scalars.',
         files=['rac/src/curve25519_dalek_m.rs', 'rac/src/secp256k1_m.rs'],
         mech=M(('LineValid, Scalar, Curve', 'rac/src/curve25519_dalek_m.rs'), ('LineValid, Scalar, Curve', 'rac/src/secp256k1_m.rs'))),
    dict(id='D01', title='A node draws its key pair once and keeps it',
         statement='The first start of a node with an empty database draws a seed once and stores it; every later start gives the same key pair without drawing '
                   'again, also if the process crashed at any point after the pair was given out. If the database reports a failure, no pair is given out.',
         over=['histories', 'crash_points'], text='every sequence of starts, crashes and database failures',
         why='No test opens the database; a key that is not stored, or not yet on disk, only shows after a restart or crash.',
         files=['vru-node/src/database.rs'],
         mech=M(('key_or_insert', 'vru-node/src/database.rs'))),
    dict(id='U01', title='A dialled address is answered once with the first message for its identity',
         statement='After Connect the first whole datagram (1280 bytes) that comes from the address is answered exactly once: one whole datagram to that address '
                   'that starts with the whole first handshake message for the dialled identity, made from a freshly drawn seed. A second Connect to a pending '
                   'address is reported as failed and changes nothing. A datagram of another size, from an address that is not dialled, a failed receive or send '
                   'is reported and never answered. Local commands and shutdown never panic or hang the node.',
         over=['inputs', 'histories'], text='every datagram, sender, length, identity, drawn token; sequences of connections, datagrams, commands and shutdown',
         why='No test starts the dispatcher; a lost message half, an answer to the wrong address or a worker that ends early only shows between two running nodes.',
         files=['vru-udp/src/global.rs', 'vru-udp/src/local.rs', 'vru-udp/src/command.rs', 'vru-udp/src/linkage/datagram.rs'],
         mech=M(('Node::command, NodeState::run, NodeState::process', 'vru-udp/src/global.rs'), ('Peer, PeerHandle, PeerState', 'vru-udp/src/local.rs'))),
]

NOTES = {
    'C01': 'in-place Kani contracts and full-domain harnesses: all inputs; values of multi-term inner products need the thorough tier or the exhaustive native table',
}
DEFAULT_NOTE = ('Kani obligations over the compiled crate for all inputs of the stated domain; see evidence for bounded '
                'stand-ins; generic-array (and sha3 where used) replaced by models in the verifier; native replay uses the real dependencies')

NOT_APPLICABLE = []


def main():
    import sys
    sys.path.insert(0, HERE)
    from props import PROPS
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
    ids = [p['id'] for p in PROPERTIES]
    assert len(set(ids)) == len(ids)
    commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
    hooks = [c.split()[0] for c in commits if 'verif hook:' in c]
    na = {x['property'] for x in NOT_APPLICABLE}
    checks = []
    for i in ids:
        if i in na:
            continue
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
                           thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique=PROPS[i].get('technique', 'Kani function contracts and full-domain proof harnesses on the compiled code'),
                           level=PROPS[i]['level'], level_note=NOTES.get(i, PROPS[i].get('note', DEFAULT_NOTE))))
    m = dict(version=1, setup_cmd='python3 setup.py',
             hooks=dict(guard='cfg(vru_verif)', enable="RUSTFLAGS='--cfg vru_verif'", source_commits=hooks),
             checks=checks, not_applicable=NOT_APPLICABLE,
             notes='run.py decides one property; props.py lists its obligations; meta.py regenerates this file and properties.jsonl')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
