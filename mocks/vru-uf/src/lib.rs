//! Uninterpreted functions: `apply(tag, input, out)` returns arbitrary output bytes, the same
//! ones whenever the same (tag, input) is queried again during one execution.
//!
//! A property proved with it holds for *every* function in place of the modelled primitive
//! (hash, XOF, MAC, key agreement), hence for the real one.  Under Kani the outputs are symbolic;
//! natively they are drawn from the recorded counterexample (or at random).
//!
//! Inputs and outputs are stored as words, so that one comparison costs an eighth.
const MANY: bool = cfg!(feature = "many");
const WIDE: bool = cfg!(all(feature = "wide", not(kani)));
pub const MAX_IN: usize = if WIDE { 1216 } else if MANY { 96 } else { 192 };
pub const MAX_OUT: usize = if WIDE { 32 } else if MANY { 16 } else { 64 };
pub const MAX_ENTRIES: usize = if WIDE { 16 } else if MANY { 64 } else { 48 };
const WI: usize = MAX_IN / 8;
const WO: usize = MAX_OUT / 8;

#[derive(Clone, Copy)]
struct Entry {
    tag: u8,
    len: usize,
    input: [u64; WI],
    output: [u64; WO],
}

static mut COUNT: usize = 0;
static mut TABLE: [Entry; MAX_ENTRIES] = [Entry { tag: 0, len: 0, input: [0; WI], output: [0; WO] }; MAX_ENTRIES];

macro_rules! limit {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::assert($c, $m);
        #[cfg(not(kani))]
        vnd::assume($c);
    }};
}

/// forget everything (bodies call this first, so that native runs are independent)
pub fn reset() {
    unsafe { COUNT = 0 }
}

/// After a call that may have returned early: makes the next free entry a fixed one again, so that
/// the paths can be joined.  The entries in between stay as they are (tag 0 is never queried).
pub fn align(n: usize) {
    unsafe {
        limit!(COUNT <= n, "vru-uf: capacity");
        #[cfg(not(kani))]
        for i in COUNT..n {
            TABLE[i].tag = 0;
        }
        COUNT = n
    }
}

/// number of queries so far
pub fn count() -> usize {
    unsafe { COUNT }
}

fn pack<const W: usize>(b: &[u8]) -> [u64; W] {
    let mut w = [0u64; W];
    let mut i = 0;
    while i < b.len() {
        w[i / 8] |= (b[i] as u64) << (8 * (i % 8));
        i += 1;
    }
    w
}
fn words(n: usize) -> usize {
    (n + 7) / 8
}
fn same(i: usize, tag: u8, len: usize, input: &[u64; WI]) -> bool {
    let (t, l) = unsafe { (TABLE[i].tag, TABLE[i].len) };
    if t != tag || l != len {
        return false;
    }
    // no early exit: one comparison for the back end
    let mut d = 0;
    let mut k = 0;
    while k < words(len) {
        d |= unsafe { TABLE[i].input[k] } ^ input[k];
        k += 1;
    }
    d == 0
}

/// Every query makes an entry, so that the table has a fixed shape on all paths.
fn add(tag: u8, input: &[u8], mut output: [u64; WO], out_len: usize) -> [u64; WO] {
    limit!(input.len() <= MAX_IN && out_len <= MAX_OUT, "vru-uf: capacity");
    let len = input.len();
    let input: [u64; WI] = pack(input);
    unsafe {
        limit!(COUNT < MAX_ENTRIES, "vru-uf: table full");
        let n = COUNT;
        let mut i = n;
        while i > 0 {
            i -= 1;
            if same(i, tag, len, &input) {
                let mut k = 0;
                while k < words(out_len) {
                    output[k] = TABLE[i].output[k];
                    k += 1;
                }
            }
        }
        TABLE[n].tag = tag;
        TABLE[n].len = len;
        TABLE[n].input = input;
        TABLE[n].output = output;
        COUNT = n + 1;
    }
    output
}

pub fn apply(tag: u8, input: &[u8], out: &mut [u8]) {
    let fresh: [u64; WO] = vnd::any();
    let output = add(tag, input, fresh, out.len());
    let mut i = 0;
    while i < out.len() {
        out[i] = (output[i / 8] >> (8 * (i % 8))) as u8;
        i += 1;
    }
}

/// fixes the value at one input, unless it was used before
pub fn define(tag: u8, input: &[u8], out: &[u8]) {
    add(tag, input, pack(out), out.len());
}

/// assumes that no two different queries of `tag` so far have the same first `n` output bytes (n a multiple of 8)
pub fn assume_no_collision(t: u8, n: usize) {
    let count = unsafe { COUNT };
    let mut i = 0;
    while i < count {
        let mut j = 0;
        while j < i {
            unsafe {
                let mut d = 0;
                let mut k = 0;
                while k < n / 8 {
                    d |= TABLE[i].output[k] ^ TABLE[j].output[k];
                    k += 1;
                }
                let (tag, len, input) = (TABLE[j].tag, TABLE[j].len, TABLE[j].input);
                if tag == t && TABLE[i].tag == t {
                    vnd::assume(same(i, tag, len, &input) || d != 0);
                }
            }
            j += 1;
        }
        i += 1;
    }
}
