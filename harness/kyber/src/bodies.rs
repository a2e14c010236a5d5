use core::ops::Not;
use rac::generic_array::{typenum::*, ArrayLength, GenericArray};
use vnd::{any, assume, below, check};
use vru_kyber::verif::*;

pub const Q: u32 = 7681;

fn q(a: u16) -> u32 {
    (a as u32) % Q
}

// ---------------------------------------------------------------- coefficient arithmetic

pub fn arith_freeze() {
    let a: u16 = any();
    check!(Coefficient(a).freeze() as u32 == q(a), "freeze is the canonical residue");
}
pub fn arith_barrett() {
    let a: u16 = any();
    let r = Coefficient::barrett_reduce(a);
    check!(q(r.0) == q(a), "barrett_reduce keeps the residue");
    check!(r.0 <= 11768, "barrett_reduce output range");
}
/// every input for which the sum `a + u*q` fits
pub fn arith_montgomery() {
    #[cfg(kani)]
    {
        let a: u32 = any();
        assume(a <= 1_070_000_000);
        let r = Coefficient::montgomery_reduce(a).0;
        let k = (a.wrapping_mul(7679) & 0x3ffff) as u64;
        let n = a as u64 + k * 7681;
        let (m, r) = (n >> 18, r as u64);
        check!(n & 0x3ffff == 0, "witness");
        check!(r == m || r + 7681 == m || r == m + 7681, "montgomery_reduce residue");
        check!(r << 18 <= a as u64 + 2_013_520_383, "montgomery_reduce output range");
    }
    #[cfg(not(kani))]
    {
        let a: u32 = any::<u32>() % 1_070_000_001;
        let r = Coefficient::montgomery_reduce(a).0;
        check!(((r as u64) << 18) % 7681 == a as u64 % 7681, "montgomery_reduce residue");
        check!((r as u64) << 18 <= a as u64 + 2_013_520_383, "montgomery_reduce output range");
    }
}
/// the left operand may be one lazy addition above the reduced range
pub fn arith_add() {
    let (a, b) = (vnd::upto_u16(23535), vnd::upto_u16(REDUCED));
    let mut x = Coefficient(a);
    x += &Coefficient(b);
    let y = &Coefficient(a) + &Coefficient(b);
    check!(q(x.0) == (a as u32 + b as u32) % Q && x.0 <= 11768, "add_assign");
    check!(q(y.0) == (a as u32 + b as u32) % Q && y.0 <= 11768, "add");
}
pub fn arith_sub() {
    let (a, b) = (vnd::upto_u16(REDUCED), vnd::upto_u16(REDUCED));
    let mut x = Coefficient(a);
    x -= &Coefficient(b);
    let y = &Coefficient(a) - &Coefficient(b);
    let want = (a as u32 + 3 * Q - b as u32) % Q;
    check!(q(x.0) == want && x.0 <= 11768, "sub_assign");
    check!(q(y.0) == want && y.0 <= 11768, "sub");
}
const REDUCED: u16 = 11768;
fn acc_range<const W: usize>() {
    let mut a: [Coefficient; W] = core::array::from_fn(|_| Coefficient(0));
    let mut b: [Coefficient; W] = core::array::from_fn(|_| Coefficient(0));
    let mut i = 0;
    while i < W {
        a[i] = Coefficient(vnd::upto_u16(REDUCED));
        b[i] = Coefficient(vnd::upto_u16(REDUCED));
        i += 1;
    }
    // no overflow anywhere inside is part of the obligation
    let r = Coefficient::acc(a.iter().zip(b.iter()));
    check!(r.0 <= 11768, "acc output range");
    #[cfg(not(kani))]
    {
        let want = (0..W).map(|i| a[i].0 as u64 * b[i].0 as u64).sum::<u64>() % 7681;
        check!(r.0 as u64 % 7681 == want, "acc is the inner product");
    }
}
pub fn arith_acc_range2() {
    acc_range::<2>()
}
pub fn arith_acc_range3() {
    acc_range::<3>()
}
pub fn arith_acc_range4() {
    acc_range::<4>()
}
/// acc of two pairs is the sum of the accs of the single pairs (with the exhaustive evaluation of
/// the single-pair case this decides the inner product)
pub fn arith_acc_additive2() {
    let a = [Coefficient(vnd::upto_u16(REDUCED)), Coefficient(vnd::upto_u16(REDUCED))];
    let b = [Coefficient(vnd::upto_u16(REDUCED)), Coefficient(vnd::upto_u16(REDUCED))];
    let r = Coefficient::acc(a.iter().zip(b.iter())).0;
    let x = Coefficient::acc(a[..1].iter().zip(b[..1].iter())).0;
    let y = Coefficient::acc(a[1..].iter().zip(b[1..].iter())).0;
    check!(q(r) == (x as u32 + y as u32) % Q, "acc is additive");
}

// ---------------------------------------------------------------- helpers

/// `w` bits at bit offset `off` of a little-endian bit string
fn bits(b: &[u8], off: usize, w: usize) -> u32 {
    let mut r = 0u32;
    let mut k = 0;
    while k < 4 {
        let p = off / 8 + k;
        if p < b.len() && 8 * k < w + off % 8 {
            r |= (b[p] as u32) << (8 * k);
        }
        k += 1;
    }
    (r >> (off % 8)) & ((1 << w) - 1)
}
fn poly<S: PolySize>(c: &[u16]) -> PolyInner<S> {
    let mut v: GenericArray<Coefficient, S::C> = GenericArray::default();
    let mut i = 0;
    while i < c.len() {
        v[i] = Coefficient(c[i]);
        i += 1;
    }
    PolyInner { c: v }
}
fn copy<N: ArrayLength<u8>>(b: &[u8]) -> GenericArray<u8, N> {
    GenericArray::from_slice(b).clone()
}
fn filler(i: usize) -> u8 {
    (i as u8).wrapping_mul(37).wrapping_add(11)
}

// ---------------------------------------------------------------- 13-bit packing

/// the packing of any polynomial is the little-endian 13-bit string of its canonical residues,
/// and unpacking returns these residues
fn pack13<S: PolySize, const C: usize>() {
    let c: [u16; C] = any();
    let b = poly::<S>(&c).to_bytes();
    check!(b.len() == 13 * C / 8, "13-bit packing length");
    let p = PolyInner::<S>::from_bytes(&b);
    let mut i = 0;
    while i < C {
        check!(bits(&b, 13 * i, 13) == q(c[i]), "13-bit packing format");
        check!(p.c[i].0 as u32 == q(c[i]), "13-bit packing is lossless");
        i += 1;
    }
}
pub fn pack13_u1() {
    pack13::<U1, 8>()
}
pub fn pack13_u2() {
    pack13::<U2, 16>()
}
pub fn pack13_u32() {
    pack13::<U32, 256>()
}
/// full-size polynomial, four arbitrary groups of 8 coefficients, the other groups fixed
fn pack13_group(g: usize) {
    let x: [u16; 32] = any();
    let mut c = [0u16; 256];
    let mut i = 0;
    while i < 256 {
        c[i] = (i as u16).wrapping_mul(7919) % 11769;
        i += 1;
    }
    c[8 * g..8 * g + 32].copy_from_slice(&x);
    let b = poly::<U32>(&c).to_bytes();
    let p = PolyInner::<U32>::from_bytes(&b);
    let mut i = 0;
    while i < 256 {
        check!(bits(&b, 13 * i, 13) == q(c[i]), "13-bit packing format (full size)");
        check!(p.c[i].0 as u32 == q(c[i]), "13-bit packing is lossless (full size)");
        i += 1;
    }
}
pub fn pack13_u32_first() {
    pack13_group(0)
}
pub fn pack13_u32_mid() {
    pack13_group(14)
}
pub fn pack13_u32_last() {
    pack13_group(28)
}
pub fn unpack13_u32() {
    let b: [u8; 416] = any();
    let p = PolyInner::<U32>::from_bytes(GenericArray::from_slice(&b));
    let mut i = 0;
    while i < 256 {
        let (v, w) = (p.c[i].0 as u32, bits(&b, 13 * i, 13));
        check!(v == w || v + Q == w, "13-bit unpacking format");
        i += 1;
    }
}

// ---------------------------------------------------------------- compression

/// t = round(2^d f / q) mod 2^d, without a division
fn is_rounded(f: u32, t: u32, d: u32) -> bool {
    let n = (f << d) + Q / 2;
    let lo = t * Q;
    let wrapped = (1 << d) * Q;
    (lo <= n && n < lo + Q) || (t == 0 && n >= wrapped)
}
/// exact decompression round(q t / 2^d)
fn unrounded(t: u32, d: u32) -> u32 {
    (t * Q + (1 << (d - 1))) >> d
}

pub fn comp11_round_u1() {
    // one symbolic position at a time, the other seven coefficients arbitrary too
    let c: [u16; 8] = any();
    let b = poly::<U1>(&c).compress_slightly();
    check!(b.len() == 11, "length");
    let i = below(8);
    check!(is_rounded(q(c[i]), bits(&b, 11 * i, 11), 11), "11-bit compression rounds to nearest");
}
pub fn comp11_format_u1() {
    // 11-bit values that are exactly representable are stored as the little-endian bit string
    let t: [u16; 8] = any();
    let mut c = [0u16; 8];
    let mut i = 0;
    while i < 8 {
        c[i] = unrounded((t[i] & 0x7ff) as u32, 11) as u16;
        i += 1;
    }
    let b = poly::<U1>(&c).compress_slightly();
    let i = below(8);
    check!(bits(&b, 11 * i, 11) == (t[i] & 0x7ff) as u32, "11-bit compression format");
}
pub fn comp11_decode_u1() {
    decode11::<U1, 11, 8>()
}
pub fn comp11_decode_u32() {
    decode11::<U32, 352, 256>()
}
fn decode11<S: PolySize, const B: usize, const C: usize>() {
    let b: [u8; B] = any();
    let p = PolyInner::<S>::decompress_slightly(&copy(&b));
    let mut i = 0;
    while i < C {
        check!(p.c[i].0 as u32 == unrounded(bits(&b, 11 * i, 11), 11), "11-bit decompression");
        i += 1;
    }
}
fn stable11<S: PolySize, const B: usize>() {
    let b: [u8; B] = any();
    let c = PolyInner::<S>::decompress_slightly(&copy(&b)).compress_slightly();
    let mut i = 0;
    while i < B {
        check!(c[i] == b[i], "11-bit recompression is stable");
        i += 1;
    }
}
pub fn comp11_stable_u1() {
    stable11::<U1, 11>()
}
pub fn comp11_stable_u2() {
    stable11::<U2, 22>()
}
/// full-size polynomial, one arbitrary group of 8 coefficients, the other groups fixed
fn group11(g: usize) {
    let x: [u8; 11] = vnd::bytes();
    let mut b = [0u8; 352];
    let mut i = 0;
    while i < 352 {
        b[i] = filler(i);
        i += 1;
    }
    b[11 * g..11 * g + 11].copy_from_slice(&x);
    let c = PolyInner::<U32>::decompress_slightly(&copy(&b)).compress_slightly();
    let mut i = 0;
    while i < 352 {
        check!(c[i] == b[i], "11-bit recompression is stable (full size)");
        i += 1;
    }
}
pub fn comp11_u32_first() {
    group11(0)
}
pub fn comp11_u32_mid() {
    group11(17)
}
pub fn comp11_u32_last() {
    group11(31)
}

pub fn comp3_round_u1() {
    let c: [u16; 8] = any();
    let b = poly::<U1>(&c).compress();
    check!(b.len() == 3, "length");
    let i = below(8);
    check!(is_rounded(q(c[i]), bits(&b, 3 * i, 3), 3), "3-bit compression rounds to nearest");
}
fn decode3<S: PolySize, const B: usize, const C: usize>() {
    let b: [u8; B] = any();
    let p = PolyInner::<S>::decompress(&copy(&b));
    let mut i = 0;
    while i < C {
        check!(p.c[i].0 as u32 == unrounded(bits(&b, 3 * i, 3), 3), "3-bit decompression");
        i += 1;
    }
}
pub fn comp3_decode_u1() {
    decode3::<U1, 3, 8>()
}
pub fn comp3_decode_u32() {
    decode3::<U32, 96, 256>()
}
fn stable3<S: PolySize, const B: usize>() {
    let b: [u8; B] = any();
    let c = PolyInner::<S>::decompress(&copy(&b)).compress();
    let mut i = 0;
    while i < B {
        check!(c[i] == b[i], "3-bit recompression is stable");
        i += 1;
    }
}
pub fn comp3_stable_u1() {
    stable3::<U1, 3>()
}
pub fn comp3_stable_u2() {
    stable3::<U2, 6>()
}
fn group3(g: usize) {
    let x: [u8; 12] = vnd::bytes();
    let mut b = [0u8; 96];
    let mut i = 0;
    while i < 96 {
        b[i] = filler(i);
        i += 1;
    }
    b[3 * g..3 * g + 12].copy_from_slice(&x);
    let c = PolyInner::<U32>::decompress(&copy(&b)).compress();
    let mut i = 0;
    while i < 96 {
        check!(c[i] == b[i], "3-bit recompression is stable (full size)");
        i += 1;
    }
}
pub fn comp3_u32_first() {
    group3(0)
}
pub fn comp3_u32_mid() {
    group3(14)
}
pub fn comp3_u32_last() {
    group3(28)
}

// ---------------------------------------------------------------- message encoding

/// bit = 1 iff the residue is nearer to q/2 than to 0 (mod q)
fn message_bit(c: u16) -> u8 {
    (1921 <= q(c) && q(c) <= 5760) as u8
}
pub fn msg_exact_u1() {
    let c: [u16; 8] = any();
    let m = poly::<U1>(&c).to_message();
    let mut j = 0;
    while j < 8 {
        check!((m[0] >> j) & 1 == message_bit(c[j]), "message bit is the nearest codeword");
        j += 1;
    }
}
/// any noise below q/4 on every coefficient, any representative of the residue
fn noise<S: PolySize, const M: usize, const C: usize>() {
    let m: [u8; M] = any();
    let p = PolyInner::<S>::from_message(&copy(&m));
    let mut c = [0u16; C];
    let mut i = 0;
    while i < C {
        let e = vnd::upto_u16(3838); // e - 1919
        let lift = vnd::upto_u16(1) * 7681;
        c[i] = p.c[i].0 + 7681 + e - 1919 + lift;
        i += 1;
    }
    let r = poly::<S>(&c).to_message();
    let mut i = 0;
    while i < M {
        check!(r[i] == m[i], "noise below q/4 does not change the message");
        i += 1;
    }
}
pub fn msg_noise_u1() {
    noise::<U1, 1, 8>()
}
pub fn msg_noise_u2() {
    noise::<U2, 2, 16>()
}
pub fn msg_encode_u32() {
    let m: [u8; 32] = any();
    let p = PolyInner::<U32>::from_message(&copy(&m));
    let mut i = 0;
    while i < 256 {
        let bit = (m[i / 8] >> (i % 8)) & 1;
        check!(p.c[i].0 == (bit as u16) * 3841, "message encoding");
        i += 1;
    }
}
pub fn msg_decode_u32() {
    let c: [u16; 256] = any();
    let r = poly::<U32>(&c).to_message();
    let mut i = 0;
    while i < 256 {
        check!((r[i / 8] >> (i % 8)) & 1 == message_bit(c[i]), "message decoding");
        i += 1;
    }
}

// ---------------------------------------------------------------- noise sampling

fn popcount(x: u32) -> u32 {
    let mut n = 0;
    let mut k = 0;
    while k < 8 {
        n += (x >> k) & 1;
        k += 1;
    }
    n
}
fn cbd<S, W, const B: usize, const C: usize>(eta: usize)
where
    S: PolySize,
    PolyInner<S>: Cbd<S, W>,
{
    let b: [u8; B] = any();
    let p = <PolyInner<S> as Cbd<S, W>>::cbd(copy(&b));
    let mut i = 0;
    while i < C {
        let x = popcount(bits(&b, 2 * eta * i, eta));
        let y = popcount(bits(&b, 2 * eta * i + eta, eta));
        let s = p.c[i].0 as u32 + y;
        check!(s == Q + x || s == x || s == 2 * Q + x, "noise coefficient is the difference of two bit counts");
        i += 1;
    }
}
pub fn cbd_w2_u1() {
    cbd::<U1, U2, 10, 8>(5)
}
pub fn cbd_w3_u1() {
    cbd::<U1, U3, 8, 8>(4)
}
pub fn cbd_w4_u1() {
    cbd::<U1, U4, 6, 8>(3)
}
pub fn cbd_w2_u32() {
    cbd::<U32, U2, 320, 256>(5)
}
pub fn cbd_w3_u32() {
    cbd::<U32, U3, 256, 256>(4)
}
pub fn cbd_w4_u32() {
    cbd::<U32, U4, 192, 256>(3)
}

// ---------------------------------------------------------------- number-theoretic transform

fn coefficients<N: ArrayLength<Coefficient>>(max: u16) -> GenericArray<Coefficient, N> {
    let mut v: GenericArray<Coefficient, N> = GenericArray::default();
    let mut i = 0;
    while i < N::USIZE {
        v[i] = Coefficient(vnd::upto_u16(max));
        i += 1;
    }
    v
}
/// reduced input, any table of residues: no intermediate overflow, reduced output
fn ntt_range<S: PolySize, P: Bit + Not>()
where
    P::Output: Bit,
{
    let p = Poly::<S, P>::verif_new(PolyInner { c: coefficients(REDUCED) });
    let r = p.verif_ntt_inner(coefficients(7680), coefficients(7680), coefficients(7680));
    let mut i = 0;
    while i < S::c_range().end {
        check!(r.verif_inner().c[i].0 <= REDUCED, "transform output range");
        i += 1;
    }
}
pub fn ntt_forward_range_u1() {
    ntt_range::<U1, B1>()
}
pub fn ntt_inverse_range_u1() {
    ntt_range::<U1, B0>()
}
pub fn ntt_forward_range_u4() {
    ntt_range::<U4, B1>()
}
pub fn ntt_inverse_range_u4() {
    ntt_range::<U4, B0>()
}
pub fn ntt_forward_range_u8() {
    ntt_range::<U8, B1>()
}
pub fn ntt_inverse_range_u8() {
    ntt_range::<U8, B0>()
}

// ---------------------------------------------------------------- matrix sampling

/// the bytes of SHAKE-128(seed || a || b) that `gen_matrix` looks at: the first four blocks, then
/// the next one
#[cfg(not(kani))]
fn stream(seed: &[u8; 32], a: u8, b: u8, out: &mut [u8]) {
    use digest::{ExtendableOutput, Update, XofReader};
    sha3::Shake128::default().chain(seed).chain(&[a, b]).finalize_xof().read(out)
}
/// the model's stream for this input, for the harness to fill in
#[cfg(kani)]
fn stream_mut(seed: &[u8; 32], a: u8, b: u8) -> &'static mut [u8; 2048] {
    let mut input = [0u8; 34];
    input[..32].copy_from_slice(seed);
    input[32] = a;
    input[33] = b;
    let id = sha3::xof::open(sha3::TAG_SHAKE128, &input);
    unsafe { &mut (*core::ptr::addr_of_mut!(sha3::xof::STREAMS[id])).bytes }
}
fn candidate(s: &[u8], k: usize) -> u16 {
    (s[2 * k] as u16 | (s[2 * k + 1] as u16) << 8) & 0x1fff
}
/// every accepted candidate of the stream is the next coefficient, until C of them are found
fn expect_entry<S: PolySize, const C: usize>(p: &Poly<S, B0>, s: &[u8], from: usize, to: usize) {
    let mut ok = true;
    let mut n = 0;
    let mut k = from;
    while k < to {
        let v = candidate(s, k);
        if (v as u32) < Q && n < C {
            ok &= p.verif_inner().c[n].0 == v;
            n += 1;
        }
        k += 1;
    }
    assume(n == C);
    check!(ok, "matrix entry is the sequence of accepted candidates of its stream");
}
#[cfg(kani)]
fn enough(s: &[u8], from: usize, to: usize, c: usize) {
    let mut n = 0;
    let mut k = from;
    while k < to {
        n += ((candidate(s, k) as u32) < Q) as usize;
        k += 1;
    }
    assume(n >= c);
}
/// the first candidates, all arbitrary
pub fn matrix_first() {
    #[cfg(kani)]
    {
        let seed = [7u8; 32];
        let st = stream_mut(&seed, 0, 0);
        enough(st, 0, 12, 8);
        let m = indcpa::matrix::<U1, U1, B0>(GenericArray::from_slice(&seed));
        expect_entry::<U1, 8>(&m[0][0], st, 0, 12);
    }
    #[cfg(not(kani))]
    matrix_native()
}
/// arbitrary candidates around the end of the fourth block, none accepted before
pub fn matrix_boundary() {
    #[cfg(kani)]
    {
        let seed = [7u8; 32];
        let st = stream_mut(&seed, 0, 0);
        // refused before, accepted after (a change that skips one of them finds enough others)
        let mut all = [0xffu8; 2048];
        let some: [u8; 24] = any();
        let mut k = 0;
        while k < 24 {
            all[660 + k] = some[k];
            k += 1;
        }
        while k < 64 {
            all[660 + k] = 0;
            k += 1;
        }
        *st = all;
        enough(st, 330, 342, 8);
        let m = indcpa::matrix::<U1, U1, B0>(GenericArray::from_slice(&seed));
        expect_entry::<U1, 8>(&m[0][0], st, 330, 342);
    }
    #[cfg(not(kani))]
    matrix_native()
}
/// entry (i, j) reads the stream of (j, i), or of (i, j) when transposed, for any seed
fn order<W, T>(transposed: bool)
where
    W: ArrayLength<Poly<U1, B0>> + ArrayLength<GenericArray<Poly<U1, B0>, W>>,
    T: Bit,
{
    #[cfg(kani)]
    {
        let seed: [u8; 32] = any();
        // a stream is a repetition of the last two bytes of its seed
        sha3::xof::echo(&seed);
        let m = indcpa::matrix::<U1, W, T>(GenericArray::from_slice(&seed));
        let mut ok = true;
        let mut i = 0;
        while i < W::USIZE {
            let mut j = 0;
            while j < W::USIZE {
                let (a, b) = if transposed { (i, j) } else { (j, i) };
                let v = a as u16 | (b as u16) << 8;
                ok &= m[i][j].verif_inner().c[0].0 == v;
                ok &= m[i][j].verif_inner().c[7].0 == v;
                j += 1;
            }
            i += 1;
        }
        check!(ok, "matrix entry reads the stream of its own position");
    }
    #[cfg(not(kani))]
    {
        let _ = (transposed, core::marker::PhantomData::<(W, T)>);
        matrix_native()
    }
}
pub fn matrix_order_w2() {
    order::<U2, B0>(false);
    order::<U2, B1>(true);
}
pub fn matrix_order_w3() {
    order::<U3, B0>(false);
    order::<U3, B1>(true);
}
pub fn matrix_order_w4() {
    order::<U4, B0>(false);
    order::<U4, B1>(true);
}
#[cfg(not(kani))]
fn matrix_native() {
    use vru_kyber::verif::indcpa::matrix;
    let seed: [u8; 32] = any();
    fn go<W>(seed: &[u8; 32], m: [GenericArray<GenericArray<Poly<U32, B0>, W>, W>; 2])
    where
        W: ArrayLength<Poly<U32, B0>> + ArrayLength<GenericArray<Poly<U32, B0>, W>>,
    {
        for i in 0..m[0].len() {
            for j in 0..m[0].len() {
                let mut st = [0; 840];
                stream(seed, j as u8, i as u8, &mut st);
                expect_entry::<U32, 256>(&m[0][i][j], &st, 0, 420);
                stream(seed, i as u8, j as u8, &mut st);
                expect_entry::<U32, 256>(&m[1][i][j], &st, 0, 420);
            }
        }
    }
    let s = GenericArray::from_slice(&seed);
    go::<U2>(&seed, [matrix::<U32, U2, B0>(s), matrix::<U32, U2, B1>(s)]);
    go::<U3>(&seed, [matrix::<U32, U3, B0>(s), matrix::<U32, U3, B1>(s)]);
    go::<U4>(&seed, [matrix::<U32, U4, B0>(s), matrix::<U32, U4, B1>(s)]);
}
