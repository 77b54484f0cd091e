#[cfg(not(kani))]
fn main() {
    kani_unit::nd::replay(kani_unit::run)
}
#[cfg(kani)]
fn main() {}
