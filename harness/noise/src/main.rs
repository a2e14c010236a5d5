#[cfg(not(kani))]
fn main() {
    vnd::native::main(n_noise::TABLE)
}
#[cfg(kani)]
fn main() {}
