#[cfg(not(kani))]
fn main() {
    vnd::native::main(n_rac::TABLE)
}
#[cfg(kani)]
fn main() {}
