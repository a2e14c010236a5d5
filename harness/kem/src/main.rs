#[cfg(not(kani))]
fn main() {
    vnd::native::main(n_kem::TABLE)
}
#[cfg(kani)]
fn main() {}
