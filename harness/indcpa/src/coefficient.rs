//! integers modulo 512; sums and products as the contracts of the real coefficients state them
use core::ops::*;

#[derive(Default, Clone)]
pub struct Coefficient(pub u16);
pub const M: u16 = 511;

impl Coefficient {
    pub const Q: u16 = 7681;
    pub fn montgomery_reduce(_: u32) -> Self {
        unimplemented!()
    }
    pub fn barrett_reduce(a: u16) -> Self {
        Coefficient(a & M)
    }
    pub fn freeze(&self) -> u16 {
        self.0 & M
    }
    pub fn acc<'a, I>(i: I) -> Self
    where
        I: Iterator<Item = (&'a Self, &'a Self)>,
    {
        let mut s = 0u16;
        for (a, b) in i {
            s = s.wrapping_add(a.0.wrapping_mul(b.0));
        }
        Coefficient(s & M)
    }
}
impl<'a> AddAssign<&'a Coefficient> for Coefficient {
    fn add_assign(&mut self, r: &'a Coefficient) {
        self.0 = self.0.wrapping_add(r.0) & M
    }
}
impl<'a> SubAssign<&'a Coefficient> for Coefficient {
    fn sub_assign(&mut self, r: &'a Coefficient) {
        self.0 = self.0.wrapping_sub(r.0) & M
    }
}
impl<'a, 'b> Add<&'b Coefficient> for &'a Coefficient {
    type Output = Coefficient;
    fn add(self, r: &'b Coefficient) -> Coefficient {
        Coefficient(self.0.wrapping_add(r.0) & M)
    }
}
impl<'a, 'b> Sub<&'b Coefficient> for &'a Coefficient {
    type Output = Coefficient;
    fn sub(self, r: &'b Coefficient) -> Coefficient {
        Coefficient(self.0.wrapping_sub(r.0) & M)
    }
}
