#[cfg(not(kani))]
fn main() {
    vnd::native::main(n_key::TABLE)
}
#[cfg(kani)]
fn main() {}
