//! Leaves the annotated item as it is.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn napi(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
