#[cfg(not(kani))]
fn main() {
    kani_booth::nd::replay(kani_booth::run)
}
#[cfg(kani)]
fn main() {}
