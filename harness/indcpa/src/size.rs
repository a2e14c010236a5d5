use crate::coefficient::Coefficient;
use core::ops::Range;
use rac::generic_array::{typenum::*, ArrayLength};

pub trait PolySize
where
    Self: ArrayLength<u8>,
{
    type C: ArrayLength<Coefficient>;
    type Compressed: ArrayLength<u8>;
    type CompressedSlightly: ArrayLength<u8>;
    type Bytes: ArrayLength<u8>;
    type Omegas: ArrayLength<Coefficient>;
    fn range() -> Range<usize>;
    fn c_range() -> Range<usize>;
}
macro_rules! size {
    ($u:ty, $c:ty, $n:expr, $a:ty, $b:ty, $d:ty) => {
        impl PolySize for $u {
            type C = $c;
            type Compressed = $a;
            type CompressedSlightly = $b;
            type Bytes = $d;
            type Omegas = U128;
            fn range() -> Range<usize> {
                0..1
            }
            fn c_range() -> Range<usize> {
                0..$n
            }
        }
    };
}
size!(U1, U2, 2, U1, U2, U4);
// only so that the real transform of poly.rs type-checks; never executed
size!(U32, U256, 256, U96, U352, U416);
