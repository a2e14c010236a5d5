//! Verification model of curve25519-dalek 3: a point is its canonical encoding, not every encoding
//! is a point, some encodings have a twin that denotes the same point, and the operations are
//! uninterpreted functions of their operands.
#![allow(clippy::all)]
const EXP: u8 = 90;
const ADD: u8 = 92;
const FIELD: u8 = 93;

fn call(tag: u8, op: u8, a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut i = [0; 64];
    i[..32].copy_from_slice(a);
    i[32..64].copy_from_slice(b);
    let mut o = [0; 32];
    vru_uf::apply(tag + op, &i, &mut o);
    o
}
/// an operation that commutes
fn commute(tag: u8, op: u8, a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut less = false;
    let mut i = 0;
    while i < 32 {
        less = a[i] < b[i] || a[i] == b[i] && less;
        i += 1;
    }
    let (mut x, mut y) = ([0; 32], [0; 32]);
    let mut i = 0;
    while i < 32 {
        x[i] = if less { a[i] } else { b[i] };
        y[i] = if less { b[i] } else { a[i] };
        i += 1;
    }
    call(tag, op, &x, &y)
}
/// which encodings are points
pub fn is_point(b: &[u8; 32]) -> bool {
    b[31] & 1 == 0
}
/// the canonical encoding
pub fn canonical(mut b: [u8; 32]) -> [u8; 32] {
    b[30] &= 0xfe;
    b
}
/// the operators with operands by value
macro_rules! values {
    ($t:ident, $f:ident, $l:ty, $r:ty, $o:ty) => {
        impl $t<$r> for $l {
            type Output = $o;
            fn $f(self, rhs: $r) -> $o {
                $t::$f(&self, &rhs)
            }
        }
        impl<'b> $t<&'b $r> for $l {
            type Output = $o;
            fn $f(self, rhs: &'b $r) -> $o {
                $t::$f(&self, rhs)
            }
        }
        impl<'a> $t<$r> for &'a $l {
            type Output = $o;
            fn $f(self, rhs: $r) -> $o {
                $t::$f(self, &rhs)
            }
        }
    };
}
/// and with the scalar first
macro_rules! scalar_first {
    ($l:ty) => {
        impl<'a, 'b> Mul<&'b $l> for &'a Scalar {
            type Output = <&'a $l as Mul<&'b Scalar>>::Output;
            fn mul(self, rhs: &'b $l) -> Self::Output {
                rhs * self
            }
        }
    };
}
pub mod scalar {
    use super::*;
    use core::ops::{Add, Mul, Sub};
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
    pub struct Scalar(pub [u8; 32]);
    impl Scalar {
        pub fn from_bits(b: [u8; 32]) -> Self {
            Scalar(b)
        }
        pub fn as_bytes(&self) -> &[u8; 32] {
            &self.0
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn from_canonical_bytes(_: [u8; 32]) -> Option<Self> {
            panic!("model limit: canonical scalars")
        }
        pub fn from_bytes_mod_order(_: [u8; 32]) -> Self {
            panic!("model limit: reduction of scalars")
        }
        pub fn zero() -> Self {
            Scalar([0; 32])
        }
        pub fn one() -> Self {
            let mut b = [0; 32];
            b[0] = 1;
            Scalar(b)
        }
    }
    macro_rules! op {
        ($t:ident, $f:ident, $n:expr, $c:ident) => {
            impl<'a, 'b> $t<&'b Scalar> for &'a Scalar {
                type Output = Scalar;
                fn $f(self, rhs: &'b Scalar) -> Scalar {
                    Scalar($c(FIELD, $n, &self.0, &rhs.0))
                }
            }
            values!($t, $f, Scalar, Scalar, Scalar);
        };
    }
    op!(Add, add, 0, commute);
    op!(Sub, sub, 1, call);
    op!(Mul, mul, 2, commute);
}
pub mod edwards {
    use super::*;
    use crate::scalar::Scalar;
    use core::ops::{Add, Mul};
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct CompressedEdwardsY(pub [u8; 32]);
    impl CompressedEdwardsY {
        pub fn from_slice(b: &[u8]) -> Self {
            let mut a = [0; 32];
            a.copy_from_slice(b);
            CompressedEdwardsY(a)
        }
        pub fn as_bytes(&self) -> &[u8; 32] {
            &self.0
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn decompress(&self) -> Option<EdwardsPoint> {
            if is_point(&self.0) {
                Some(EdwardsPoint(canonical(self.0)))
            } else {
                None
            }
        }
    }
    /// the canonical encoding of a point
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct EdwardsPoint(pub [u8; 32]);
    pub fn point(mut b: [u8; 32]) -> EdwardsPoint {
        b[31] &= 0xfe;
        EdwardsPoint(canonical(b))
    }
    impl EdwardsPoint {
        pub fn compress(&self) -> CompressedEdwardsY {
            CompressedEdwardsY(self.0)
        }
        pub fn to_montgomery(&self) -> crate::montgomery::MontgomeryPoint {
            crate::montgomery::MontgomeryPoint(self.0)
        }
    }
    impl<'a, 'b> Mul<&'b Scalar> for &'a EdwardsPoint {
        type Output = EdwardsPoint;
        fn mul(self, rhs: &'b Scalar) -> EdwardsPoint {
            point(call(EXP, 0, &self.0, &rhs.0))
        }
    }
    values!(Mul, mul, EdwardsPoint, Scalar, EdwardsPoint);
    scalar_first!(EdwardsPoint);
    impl<'a, 'b> Add<&'b EdwardsPoint> for &'a EdwardsPoint {
        type Output = EdwardsPoint;
        fn add(self, rhs: &'b EdwardsPoint) -> EdwardsPoint {
            point(commute(ADD, 0, &self.0, &rhs.0))
        }
    }
    values!(Add, add, EdwardsPoint, EdwardsPoint, EdwardsPoint);
    pub struct EdwardsBasepointTable;
    pub const BASE: EdwardsPoint = EdwardsPoint([0x66; 32]);
    impl<'a, 'b> Mul<&'b Scalar> for &'a EdwardsBasepointTable {
        type Output = EdwardsPoint;
        fn mul(self, rhs: &'b Scalar) -> EdwardsPoint {
            // the basepoint itself is the first multiple
            let r = &BASE * rhs;
            if *rhs == Scalar::one() {
                BASE
            } else {
                r
            }
        }
    }
    impl<'a, 'b> Mul<&'b EdwardsBasepointTable> for &'a Scalar {
        type Output = EdwardsPoint;
        fn mul(self, rhs: &'b EdwardsBasepointTable) -> EdwardsPoint {
            rhs * self
        }
    }
    impl EdwardsBasepointTable {
        pub fn basepoint(&self) -> EdwardsPoint {
            BASE
        }
        pub fn basepoint_mul(&self, s: &Scalar) -> EdwardsPoint {
            self * s
        }
    }
}
pub mod montgomery {
    use super::*;
    use crate::scalar::Scalar;
    use core::ops::Mul;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct MontgomeryPoint(pub [u8; 32]);
    impl MontgomeryPoint {
        pub fn as_bytes(&self) -> &[u8; 32] {
            &self.0
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
    }
    impl<'a, 'b> Mul<&'b Scalar> for &'a MontgomeryPoint {
        type Output = MontgomeryPoint;
        fn mul(self, rhs: &'b Scalar) -> MontgomeryPoint {
            MontgomeryPoint(call(EXP, 1, &self.0, &rhs.0))
        }
    }
    values!(Mul, mul, MontgomeryPoint, Scalar, MontgomeryPoint);
    scalar_first!(MontgomeryPoint);
}
pub mod constants {
    pub static ED25519_BASEPOINT_TABLE: crate::edwards::EdwardsBasepointTable = crate::edwards::EdwardsBasepointTable;
    pub const ED25519_BASEPOINT_POINT: crate::edwards::EdwardsPoint = crate::edwards::BASE;
}
