//! Contracts of vru-kyber's arithmetic, encodings and sampling, checked on the compiled crate.
pub mod bodies;
#[cfg(kani)]
use vru_kyber::verif::Coefficient;

// `proof_for_contract`: the contracts annotated in place in /repo/vru-kyber/src/coefficient.rs
#[cfg(kani)]
mod contracts {
    use vru_kyber::verif::Coefficient;
    #[kani::proof_for_contract(Coefficient::montgomery_reduce)]
    fn contract_montgomery_reduce() {
        let _ = Coefficient::montgomery_reduce(kani::any());
        kani::cover!(true, "end of harness reached");
    }
    #[kani::proof_for_contract(Coefficient::barrett_reduce)]
    fn contract_barrett_reduce() {
        let _ = Coefficient::barrett_reduce(kani::any());
        kani::cover!(true, "end of harness reached");
    }
    #[kani::proof_for_contract(Coefficient::freeze)]
    fn contract_freeze() {
        let _ = Coefficient::freeze(&Coefficient(kani::any()));
        kani::cover!(true, "end of harness reached");
    }
}

include!("table.rs");
