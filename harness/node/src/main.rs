#[cfg(not(kani))]
fn main() {
    vnd::native::main(n_node::TABLE)
}
#[cfg(kani)]
fn main() {}
