#[cfg(not(kani))]
fn main() {
    vnd::native::main(n_udp::TABLE)
}
#[cfg(kani)]
fn main() {}
