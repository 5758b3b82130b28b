//! The two helpers tokio's select! macro needs, for plain patterns.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro]
pub fn select_priv_declare_output_enum(input: TokenStream) -> TokenStream {
    let n = match input.into_iter().next() {
        Some(TokenTree::Group(g)) => g.stream().into_iter().count(),
        _ => panic!("branches"),
    };
    let names: Vec<String> = (0..n).map(|i| format!("_{i}")).collect();
    let mask = if n <= 8 { "u8" } else { "u64" };
    let variants: String = names.iter().map(|v| format!("{v}({v}),")).collect();
    format!("pub(super) enum Out<{}> {{ {variants} Disabled, }} pub(super) type Mask = {mask};", names.join(","))
        .parse()
        .expect("enum")
}

#[proc_macro]
pub fn select_priv_clean_pattern(input: TokenStream) -> TokenStream {
    input
}

// (not used, but tokio wants to re-export them)
#[proc_macro_attribute]
pub fn main_rt(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_attribute]
pub fn test_rt(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_attribute]
pub fn main_fail(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_attribute]
pub fn test_fail(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}
