use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn async_trait(_a: TokenStream, item: TokenStream) -> TokenStream { item }
