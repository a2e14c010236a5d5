//! The real `vru-kyber/src/kem.rs`, compiled next to contracts of the public-key encryption it uses.
#![allow(static_mut_refs)]
pub mod coefficient {
    #[derive(Default, Clone)]
    pub struct Coefficient;
}
pub mod size {}
pub mod poly_inner {
    pub struct PolyInner<S>(core::marker::PhantomData<S>);
    pub trait Cbd<S, W> {}
    impl<S, W> Cbd<S, W> for PolyInner<S> {}
}
pub mod poly {
    pub struct Poly<S, T>(core::marker::PhantomData<(S, T)>);
    pub trait Ntt {
        type Output;
    }
    use rac::generic_array::typenum::{B0, B1};
    impl<S> Ntt for Poly<S, B0> {
        type Output = Poly<S, B1>;
    }
    impl<S> Ntt for Poly<S, B1> {
        type Output = Poly<S, B0>;
    }
}
pub mod indcpa;
#[path = "/repo/vru-kyber/src/kem.rs"]
pub mod kem;
pub mod bodies;

vnd::harnesses! {
    generate_spec,
    encapsulate_spec,
    decapsulate_spec,
    agreement,
    reject_differs,
}
