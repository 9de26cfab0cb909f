use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn test(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut out: TokenStream = "#[::core::prelude::v1::test]".parse().unwrap();
    out.extend(item);
    out
}
