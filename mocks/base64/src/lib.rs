//! Verification model of base64 0.13: `decode(encode(b)) == b`; any other text decodes to an
//! arbitrary string of at most `MAX` bytes or to an error.
#![allow(static_mut_refs)]
pub const MAX: usize = 40;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid text")
    }
}
impl std::error::Error for DecodeError {}

pub const TEXT: &str = "T";
pub static mut LEN: usize = 0;
pub static mut BYTES: [u8; MAX] = [0; MAX];
/// what the next unknown text decodes to: `LEN` above `MAX` means an error
pub fn choose(len: usize, bytes: [u8; MAX]) {
    unsafe {
        LEN = len;
        BYTES = bytes;
    }
}
pub fn encode<T: AsRef<[u8]>>(input: T) -> String {
    let b = input.as_ref();
    unsafe {
        #[cfg(kani)]
        kani::assert(b.len() <= MAX, "model limit: length of the text");
        LEN = b.len();
        BYTES[..b.len()].copy_from_slice(b);
    }
    TEXT.to_string()
}
pub fn decode<T: AsRef<[u8]>>(_: T) -> Result<Vec<u8>, DecodeError> {
    unsafe {
        if LEN > MAX {
            return Err(DecodeError::InvalidByte(0, 0));
        }
        let mut v = Vec::with_capacity(MAX);
        v.extend_from_slice(&BYTES);
        v.truncate(LEN);
        Ok(v)
    }
}
