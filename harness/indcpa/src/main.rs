#[cfg(not(kani))]
fn main() {
    vnd::native::main(n_indcpa::TABLE)
}
#[cfg(kani)]
fn main() {}
