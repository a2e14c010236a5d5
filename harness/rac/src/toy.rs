//! Curves for the generic code: one whose operations are uninterpreted functions (lengths all
//! different), and a cyclic group of prime order.
use digest::{
    generic_array::{typenum::*, GenericArray},
    BlockInput, FixedOutput, Reset, Update,
};
use rac::{Array, Curve, LineValid, Scalar};

const SUB: u8 = 120;
const MUL: u8 = 121;
const EXP: u8 = 122;
const SUM: u8 = 123;
const X: u8 = 124;
const HASH: u8 = 125;

fn uf<const N: usize>(tag: u8, a: &[u8], b: &[u8]) -> [u8; N] {
    let mut i = [0; 16];
    i[..a.len()].copy_from_slice(a);
    i[8..8 + b.len()].copy_from_slice(b);
    let mut o = [0; N];
    vru_uf::apply(tag, &i, &mut o);
    o
}
/// not every string is a scalar
pub fn is_scalar(b: &[u8]) -> bool {
    b[1] & 1 == 0
}
#[derive(Clone, Debug)]
pub struct Sc(pub [u8; 2]);
impl LineValid for Sc {
    type Length = U2;
    fn try_clone_array(a: &Array<U2>) -> Result<Self, ()> {
        if is_scalar(a) {
            Ok(Sc([a[0], a[1]]))
        } else {
            Err(())
        }
    }
    fn clone_line(&self) -> Array<U2> {
        self.0.into()
    }
}
fn op(tag: u8, a: &Sc, b: &Sc) -> Result<Sc, ()> {
    let o = uf(tag, &a.0, &b.0);
    if is_scalar(&o) {
        Ok(Sc(o))
    } else {
        Err(())
    }
}
impl Scalar for Sc {
    fn add_ff(&self, rhs: &Self) -> Result<Self, ()> {
        op(SUM, self, rhs)
    }
    fn sub_ff(&self, rhs: &Self) -> Result<Self, ()> {
        op(SUB, self, rhs)
    }
    fn mul_ff(&self, rhs: &Self) -> Result<Self, ()> {
        op(MUL, self, rhs)
    }
    fn inv_ff(&self) -> Result<Self, ()> {
        Err(())
    }
}
#[derive(Clone, Debug)]
pub struct Pt(pub [u8; 4]);
pub const BASE: [u8; 4] = [9, 9, 9, 9];
impl LineValid for Pt {
    type Length = U4;
    fn try_clone_array(a: &Array<U4>) -> Result<Self, ()> {
        Ok(Pt([a[0], a[1], a[2], a[3]]))
    }
    fn clone_line(&self) -> Array<U4> {
        self.0.into()
    }
}
impl Curve for Pt {
    type Scalar = Sc;
    type CompressedLength = U5;
    type CoordinateLength = U3;
    const NAME: &'static str = "toy";
    fn base() -> Self {
        Pt(BASE)
    }
    fn mul_ec(&self, rhs: &Self) -> Self {
        Pt(uf(SUM, &self.0, &rhs.0))
    }
    fn exp_ec(&self, rhs: &Sc) -> Self {
        Pt(uf(EXP, &self.0, &rhs.0))
    }
    fn decompress(_: &Array<U5>) -> Result<Self, ()> {
        Err(())
    }
    fn compress(&self) -> Array<U5> {
        Array::default()
    }
    fn x_coordinate(&self) -> Array<U3> {
        uf::<3>(X, &self.0, &[]).into()
    }
}

/// an uninterpreted hash of at most 8 bytes
#[derive(Clone, Default)]
pub struct H {
    pub data: [u8; 8],
    pub len: usize,
}
pub fn hash(parts: &[&[u8]]) -> [u8; 2] {
    let mut h = H::default();
    for p in parts {
        h.push(p);
    }
    h.out()
}
impl H {
    fn push(&mut self, d: &[u8]) {
        #[cfg(kani)]
        kani::assert(self.len + d.len() <= 8, "model limit: hashed bytes");
        self.data[self.len..self.len + d.len()].copy_from_slice(d);
        self.len += d.len();
    }
    fn out(&self) -> [u8; 2] {
        uf(HASH, &self.data, &[self.len as u8])
    }
}
impl Update for H {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.push(d.as_ref())
    }
}
impl BlockInput for H {
    type BlockSize = U4;
}
impl Reset for H {
    fn reset(&mut self) {
        *self = Default::default()
    }
}
impl FixedOutput for H {
    type OutputSize = U2;
    fn finalize_into(self, out: &mut GenericArray<u8, U2>) {
        out.copy_from_slice(&self.out())
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U2>) {
        out.copy_from_slice(&self.out());
        self.reset()
    }
}

/// the integers modulo a prime, as scalars and (written additively) as points
pub const Q: u8 = 13;
#[derive(Clone, Debug)]
pub struct Zs(pub u8);
impl LineValid for Zs {
    type Length = U1;
    fn try_clone_array(a: &Array<U1>) -> Result<Self, ()> {
        if a[0] < Q {
            Ok(Zs(a[0]))
        } else {
            Err(())
        }
    }
    fn clone_line(&self) -> Array<U1> {
        [self.0].into()
    }
}
impl Scalar for Zs {
    fn add_ff(&self, rhs: &Self) -> Result<Self, ()> {
        Ok(Zs((self.0 + rhs.0) % Q))
    }
    fn sub_ff(&self, rhs: &Self) -> Result<Self, ()> {
        Ok(Zs((self.0 + Q - rhs.0) % Q))
    }
    fn mul_ff(&self, rhs: &Self) -> Result<Self, ()> {
        Ok(Zs(self.0 * rhs.0 % Q))
    }
    fn inv_ff(&self) -> Result<Self, ()> {
        Err(())
    }
}
#[derive(Clone, Debug)]
pub struct Zp(pub u8);
impl LineValid for Zp {
    type Length = U1;
    fn try_clone_array(a: &Array<U1>) -> Result<Self, ()> {
        if a[0] < Q {
            Ok(Zp(a[0]))
        } else {
            Err(())
        }
    }
    fn clone_line(&self) -> Array<U1> {
        [self.0].into()
    }
}
impl Curve for Zp {
    type Scalar = Zs;
    type CompressedLength = U1;
    type CoordinateLength = U1;
    const NAME: &'static str = "13";
    fn base() -> Self {
        Zp(1)
    }
    fn mul_ec(&self, rhs: &Self) -> Self {
        Zp((self.0 + rhs.0) % Q)
    }
    fn exp_ec(&self, rhs: &Zs) -> Self {
        Zp(self.0 * rhs.0 % Q)
    }
    fn decompress(a: &Array<U1>) -> Result<Self, ()> {
        Self::try_clone_array(a)
    }
    fn compress(&self) -> Array<U1> {
        self.clone_line()
    }
    /// a point and its negative have the same one
    fn x_coordinate(&self) -> Array<U1> {
        [self.0.min((Q - self.0) % Q)].into()
    }
}
/// an uninterpreted hash with values below 16
#[derive(Clone, Default)]
pub struct H1(pub H);
impl Update for H1 {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.push(d.as_ref())
    }
}
impl FixedOutput for H1 {
    type OutputSize = U1;
    fn finalize_into(self, out: &mut GenericArray<u8, U1>) {
        out[0] = self.0.out()[0] & 15;
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U1>) {
        out[0] = self.0.out()[0] & 15;
        self.0.reset()
    }
}
