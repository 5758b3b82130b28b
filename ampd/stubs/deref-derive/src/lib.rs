//! `#[derive(Deref)]` for a newtype.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Deref)]
pub fn deref(input: TokenStream) -> TokenStream {
    let mut tokens = input.into_iter().skip_while(|t| t.to_string() != "struct").skip(1);
    let name = tokens.next().expect("name").to_string();
    let inner = match tokens.next() {
        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
            g.stream().to_string().trim_start_matches("pub ").to_string()
        }
        _ => panic!("only for newtypes"),
    };
    format!(
        "impl ::core::ops::Deref for {name} {{ type Target = {inner}; fn deref(&self) -> &Self::Target {{ &self.0 }} }}"
    )
    .parse()
    .expect("impl")
}
