//! `#[derive(Builder)]` for a struct with named fields and no options.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, parse_quote, Data, DeriveInput, Fields};

#[proc_macro_derive(Builder)]
pub fn builder(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let (name, vis) = (&input.ident, &input.vis);
    let (builder, error) = (format_ident!("{}Builder", name), format_ident!("{}BuilderError", name));
    let fields = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => &f.named,
            _ => panic!("named fields"),
        },
        _ => panic!("a struct"),
    };
    let ids: Vec<_> = fields.iter().map(|f| f.ident.as_ref().expect("name")).collect();
    let tys: Vec<_> = fields.iter().map(|f| &f.ty).collect();
    let generics = &input.generics;
    let mut cloned = generics.clone();
    for p in cloned.type_params_mut() {
        p.bounds.push(parse_quote!(::core::clone::Clone));
    }
    let (_, ty, wh) = generics.split_for_impl();
    let (im, _, _) = generics.split_for_impl();
    let (imc, _, whc) = cloned.split_for_impl();
    quote! {
        #vis struct #builder #generics #wh { #(#ids: ::core::option::Option<#tys>,)* }

        #[derive(Debug)]
        #vis struct #error(&'static str);

        impl ::core::fmt::Display for #error {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                ::core::write!(f, "`{}` must be initialized", self.0)
            }
        }

        impl ::std::error::Error for #error {}

        impl #im ::core::default::Default for #builder #ty #wh {
            fn default() -> Self {
                Self { #(#ids: ::core::option::Option::None,)* }
            }
        }

        impl #imc #builder #ty #whc {
            #(
                #[allow(dead_code)]
                pub fn #ids(&mut self, value: #tys) -> &mut Self {
                    self.#ids = ::core::option::Option::Some(value);
                    self
                }
            )*

            pub fn build(&self) -> ::core::result::Result<#name #ty, #error> {
                ::core::result::Result::Ok(#name {
                    #(#ids: match &self.#ids {
                        ::core::option::Option::Some(v) => ::core::clone::Clone::clone(v),
                        ::core::option::Option::None => return ::core::result::Result::Err(#error(::core::stringify!(#ids))),
                    },)*
                })
            }
        }
    }
    .into()
}
