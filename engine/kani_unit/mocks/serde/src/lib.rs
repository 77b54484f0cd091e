pub use serde_derive::{Deserialize, Serialize};
pub trait Deserialize: Sized {
    fn make() -> Self;
}
