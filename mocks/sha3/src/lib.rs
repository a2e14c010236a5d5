//! Verification model of `sha3` 0.9.  Fixed-output hashes are uninterpreted functions of the
//! absorbed byte string; XOFs produce a byte stream that is a function of the absorbed string.
#![no_std]
pub use digest::{self, Digest};
macro_rules! limit {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::assert($c, $m);
        #[cfg(not(kani))]
        assert!($c, $m);
    }};
}
use digest::generic_array::{typenum::consts::*, GenericArray};
use digest::{BlockInput, ExtendableOutput, FixedOutput, Reset, Update, XofReader};

const WIDE: bool = cfg!(feature = "wide");
pub const CAP: usize = if !WIDE { 192 } else if cfg!(kani) { 64 } else { 1216 };

/// The absorbed bytes live in an arena so that moving a hasher is cheap for the back end.
const ARENA: usize = if WIDE { 8 } else { 48 };
static mut BUFS: [[u8; CAP]; ARENA] = [[0; CAP]; ARENA];
static mut USED: usize = 0;

/// native runs: start over
pub fn reset() {
    unsafe { USED = 0 }
}

pub struct Absorb {
    id: usize,
    len: usize,
}
impl Default for Absorb {
    fn default() -> Self {
        unsafe {
            limit!(USED < ARENA, "sha3 model: arena full");
            USED += 1;
            Absorb { id: USED - 1, len: 0 }
        }
    }
}
impl Clone for Absorb {
    fn clone(&self) -> Self {
        let mut n = Absorb::default();
        n.push(self.bytes());
        n
    }
}
impl Absorb {
    fn push(&mut self, d: &[u8]) {
        limit!(self.len + d.len() <= CAP, "sha3 model: capacity");
        let b = unsafe { &mut (*core::ptr::addr_of_mut!(BUFS))[self.id] };
        b[self.len..self.len + d.len()].copy_from_slice(d);
        self.len += d.len();
    }
    pub fn bytes(&self) -> &[u8] {
        let b = unsafe { &(*core::ptr::addr_of!(BUFS))[self.id] };
        &b[..self.len]
    }
}

macro_rules! fixed {
    ($name:ident, $out:ty, $block:ty, $tag:expr) => {
        #[derive(Clone, Default)]
        pub struct $name(Absorb);
        impl Update for $name {
            fn update(&mut self, d: impl AsRef<[u8]>) {
                self.0.push(d.as_ref())
            }
        }
        impl BlockInput for $name {
            type BlockSize = $block;
        }
        impl Reset for $name {
            fn reset(&mut self) {
                self.0 = Absorb::default()
            }
        }
        impl FixedOutput for $name {
            type OutputSize = $out;
            fn finalize_into(self, out: &mut GenericArray<u8, $out>) {
                vru_uf::apply($tag, self.0.bytes(), out)
            }
            fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, $out>) {
                vru_uf::apply($tag, self.0.bytes(), out);
                Reset::reset(self)
            }
        }
    };
}
pub const TAG_SHA3_256: u8 = 1;
pub const TAG_SHA3_512: u8 = 2;
pub const TAG_SHAKE128: u8 = 3;
pub const TAG_SHAKE256: u8 = 4;
fixed!(Sha3_256, U32, U136, TAG_SHA3_256);
fixed!(Sha3_512, U64, U72, TAG_SHA3_512);

pub mod xof {
    //! The harness chooses what the XOFs return.
    pub const SEED: usize = 34;
    pub const STREAM: usize = 2048;
    #[derive(Clone, Copy)]
    pub struct Stream {
        pub tag: u8,
        pub len: usize,
        pub seed: [u8; SEED],
        pub bytes: [u8; STREAM],
    }
    pub static mut STREAMS: [Stream; 4] =
        [Stream { tag: 0, len: 0, seed: [0; SEED], bytes: [0; STREAM] }; 4];
    pub static mut COUNT: usize = 0;
    pub static mut ECHO: bool = false;
    pub static mut ECHO_SEED: [u8; 32] = [0; 32];
    /// with `ROWS`: the stream of `seed || a || b` repeats the two 16-bit values `VALUES[a][b]`
    pub static mut ROWS: bool = false;
    pub static mut VALUES: [[[u16; 2]; 4]; 4] = [[[0; 2]; 4]; 4];
    /// Shake256 streams are the first 64 bytes of an uninterpreted function of the input
    pub static mut SHORT: bool = false;
    pub fn short() {
        unsafe { SHORT = true }
    }
    pub fn rows(seed: &[u8; 32], values: [[[u16; 2]; 4]; 4]) {
        echo(seed);
        unsafe {
            ROWS = true;
            VALUES = values;
        }
    }

    /// From now on the stream of `seed || a || b` is `a b a b ...`; any other input is an error.
    pub fn echo(seed: &[u8; 32]) {
        unsafe {
            ECHO = true;
            ECHO_SEED = *seed;
        }
    }

    #[cfg(kani)]
    pub fn open(tag: u8, input: &[u8]) -> usize {
        limit!(input.len() <= SEED, "xof model: capacity");
        unsafe {
            let mut i = 0;
            while i < COUNT {
                let s = &*core::ptr::addr_of!(STREAMS[i]);
                if s.tag == tag && s.len == input.len() && s.seed[..input.len()] == *input {
                    return i;
                }
                i += 1;
            }
            limit!(COUNT < 4, "xof model: table full");
            let s = &mut *core::ptr::addr_of_mut!(STREAMS[COUNT]);
            s.tag = tag;
            s.len = input.len();
            s.seed[..input.len()].copy_from_slice(input);
            s.bytes = kani::any();
            COUNT += 1;
            COUNT - 1
        }
    }
    #[cfg(not(kani))]
    pub fn open(_: u8, _: &[u8]) -> usize {
        unimplemented!()
    }
}

pub struct Reader {
    id: usize,
    pos: usize,
    pair: [u8; 2],
    short: Option<[u8; 64]>,
}
impl Reader {
    fn new(tag: u8, input: &[u8]) -> Self {
        if tag == TAG_SHAKE256 && unsafe { xof::SHORT } {
            let mut o = [0; 64];
            vru_uf::apply(tag, input, &mut o);
            return Reader { id: 0, pos: 0, pair: [0; 2], short: Some(o) };
        }
        if unsafe { xof::ECHO } {
            limit!(input.len() == 34, "xof input is seed || a || b");
            let s = unsafe { &*core::ptr::addr_of!(xof::ECHO_SEED) };
            let mut ok = true;
            let mut i = 0;
            while i < 32 {
                ok &= input[i] == s[i];
                i += 1;
            }
            limit!(ok, "xof input starts with the seed");
            if unsafe { xof::ROWS } {
                let [x, y] = unsafe { xof::VALUES[input[32] as usize][input[33] as usize] };
                let quad = [x as u8, (x >> 8) as u8, y as u8, (y >> 8) as u8];
                let mut o = [0; 64];
                let mut i = 0;
                while i < 64 {
                    o[i] = quad[i % 4];
                    i += 1;
                }
                return Reader { id: 0, pos: 0, pair: [0; 2], short: Some(o) };
            }
            Reader { id: usize::MAX, pos: 0, pair: [input[32], input[33]], short: None }
        } else {
            Reader { id: xof::open(tag, input), pos: 0, pair: [0; 2], short: None }
        }
    }
}
impl XofReader for Reader {
    fn read(&mut self, out: &mut [u8]) {
        if let Some(o) = &self.short {
            let mut i = 0;
            while i < out.len() && self.pos + i < 64 {
                out[i] = o[self.pos + i];
                i += 1;
            }
            self.pos += out.len();
            return;
        }
        if self.id == usize::MAX {
            // only the first 32 bytes of the pattern are needed
            let mut i = 0;
            while i < out.len() && i < 32 {
                out[i] = self.pair[(self.pos + i) % 2];
                i += 1;
            }
            self.pos += out.len();
            return;
        }
        limit!(self.pos + out.len() <= xof::STREAM, "xof model: stream length");
        let s = unsafe { &*core::ptr::addr_of!(xof::STREAMS[self.id]) };
        out.copy_from_slice(&s.bytes[self.pos..self.pos + out.len()]);
        self.pos += out.len();
    }
}
macro_rules! shake {
    ($name:ident, $block:ty, $tag:expr) => {
        #[derive(Clone, Default)]
        pub struct $name(Absorb);
        impl Update for $name {
            fn update(&mut self, d: impl AsRef<[u8]>) {
                self.0.push(d.as_ref())
            }
        }
        impl BlockInput for $name {
            type BlockSize = $block;
        }
        impl Reset for $name {
            fn reset(&mut self) {
                self.0 = Absorb::default()
            }
        }
        impl ExtendableOutput for $name {
            type Reader = Reader;
            fn finalize_xof(self) -> Reader {
                Reader::new($tag, self.0.bytes())
            }
            fn finalize_xof_reset(&mut self) -> Reader {
                let r = Reader::new($tag, self.0.bytes());
                Reset::reset(self);
                r
            }
        }
    };
}
shake!(Shake128, U168, TAG_SHAKE128);
shake!(Shake256, U136, TAG_SHAKE256);
