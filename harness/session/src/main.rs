#[cfg(not(kani))]
fn main() {
    vnd::native::main(n_session::TABLE)
}
#[cfg(kani)]
fn main() {}
