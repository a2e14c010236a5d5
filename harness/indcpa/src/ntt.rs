//! the transform as a ring isomorphism that keeps products pointwise: the identity
use crate::poly::{Ntt, Poly};
use rac::generic_array::typenum::{B0, B1, U1};
impl Ntt for Poly<U1, B0> {
    type Output = Poly<U1, B1>;
    fn ntt(&self) -> Poly<U1, B1> {
        Poly::verif_new(self.verif_inner().clone())
    }
}
impl Ntt for Poly<U1, B1> {
    type Output = Poly<U1, B0>;
    fn ntt(&self) -> Poly<U1, B0> {
        Poly::verif_new(self.verif_inner().clone())
    }
}
