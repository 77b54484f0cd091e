pub use std::os::raw::*;
