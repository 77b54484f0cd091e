#[cfg(not(kani))]
fn main() {
    kani_bind::nd::replay(kani_bind::run)
}
#[cfg(kani)]
fn main() {}
