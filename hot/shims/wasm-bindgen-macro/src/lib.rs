//! `#[wasm_bindgen]` leaves its item as it is: nothing crosses a language boundary here. Only the
//! entry point of the live-reload client, which is private to Rust, gets a symbol to be called by.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = item;
    if item.to_string().contains("fn start_live_reload") {
        let hook = "const _: () = {
            #[unsafe(export_name = \"hotmeal_start_live_reload\")]
            fn hook(ws_url: &str, mount_selector: &str) -> Result<(), ::wasm_bindgen::JsValue> {
                start_live_reload(ws_url, mount_selector)
            }
        };";
        item.extend(hook.parse::<TokenStream>().unwrap());
    }
    item
}
