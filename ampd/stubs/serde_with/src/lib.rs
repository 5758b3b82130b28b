//! `#[derive(SerializeDisplay)]` for a type without parameters.
use proc_macro::TokenStream;

#[proc_macro_derive(SerializeDisplay)]
pub fn serialize_display(input: TokenStream) -> TokenStream {
    let mut tokens = input.into_iter().map(|t| t.to_string()).skip_while(|t| t != "struct" && t != "enum").skip(1);
    let name = tokens.next().expect("name");
    format!(
        "impl ::serde::Serialize for {name} {{
             fn serialize<S: ::serde::Serializer>(&self, s: S) -> ::core::result::Result<S::Ok, S::Error> {{
                 s.collect_str(self)
             }}
         }}"
    )
    .parse()
    .expect("impl")
}
