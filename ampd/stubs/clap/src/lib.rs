//! The command line is not read here.
use proc_macro::TokenStream;

#[proc_macro_derive(Subcommand, attributes(command, clap, arg))]
pub fn subcommand(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

#[proc_macro_derive(Args, attributes(command, clap, arg))]
pub fn args(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
