use crate::{coefficient::*, size::PolySize};
use rac::generic_array::{typenum::*, ArrayLength, GenericArray};

#[derive(Clone)]
pub struct PolyInner<S: PolySize> {
    pub c: GenericArray<Coefficient, S::C>,
}
impl<S: PolySize> PolyInner<S> {
    fn make(f: impl Fn(usize) -> u16) -> Self {
        let mut c = GenericArray::<Coefficient, S::C>::default();
        c[0] = Coefficient(f(0) & M);
        c[1] = Coefficient(f(1) & M);
        PolyInner { c }
    }
    fn get(&self, i: usize) -> u16 {
        self.c[i].0 & M
    }
    pub fn compress_slightly(&self) -> GenericArray<u8, S::CompressedSlightly> {
        let mut b = GenericArray::default();
        b[0] = (self.get(0) >> 1) as u8;
        b[1] = (self.get(1) >> 1) as u8;
        b
    }
    pub fn decompress_slightly(b: &GenericArray<u8, S::CompressedSlightly>) -> Self {
        Self::make(|i| (b[i] as u16) << 1)
    }
    pub fn compress(&self) -> GenericArray<u8, S::Compressed> {
        let mut b = GenericArray::default();
        b[0] = (self.get(0) >> 5) as u8 | ((self.get(1) >> 5) as u8) << 4;
        b
    }
    pub fn decompress(b: &GenericArray<u8, S::Compressed>) -> Self {
        Self::make(|i| ((b[0] >> (4 * i)) as u16 & 15) << 5)
    }
    pub fn to_bytes(&self) -> GenericArray<u8, S::Bytes> {
        let mut b = GenericArray::default();
        b[0] = self.get(0) as u8;
        b[1] = (self.get(0) >> 8) as u8;
        b[2] = self.get(1) as u8;
        b[3] = (self.get(1) >> 8) as u8;
        b
    }
    pub fn from_bytes(b: &GenericArray<u8, S::Bytes>) -> Self {
        Self::make(|i| b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8)
    }
    pub fn to_message(&self) -> GenericArray<u8, S> {
        let mut b = GenericArray::default();
        let bit = |v: u16| (v >= 128 && v <= 384) as u8;
        b[0] = bit(self.get(0)) | bit(self.get(1)) << 1;
        b
    }
    pub fn from_message(m: &GenericArray<u8, S>) -> Self {
        Self::make(|i| ((m[0] >> i) as u16 & 1) << 8)
    }
}
pub trait Cbd<S, W> {
    type Eta: ArrayLength<u8>;
    fn cbd(b: GenericArray<u8, Self::Eta>) -> Self;
}
macro_rules! cbd {
    ($w:ty, $e:ty) => {
        impl<S: PolySize> Cbd<S, $w> for PolyInner<S> {
            type Eta = $e;
            // values -1, 0, 1, 2
            fn cbd(b: GenericArray<u8, $e>) -> Self {
                Self::make(|i| (b[i] as u16 & 3).wrapping_sub(1))
            }
        }
    };
}
cbd!(U2, U2);
cbd!(U3, U3);
cbd!(U4, U4);
