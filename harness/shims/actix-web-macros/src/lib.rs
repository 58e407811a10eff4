use proc_macro::{TokenStream, TokenTree, Ident};
/// route attributes leave the handler function as it is
#[proc_macro_attribute] pub fn get(_a: TokenStream, i: TokenStream) -> TokenStream { i }
#[proc_macro_attribute] pub fn post(_a: TokenStream, i: TokenStream) -> TokenStream { i }
#[proc_macro_attribute] pub fn put(_a: TokenStream, i: TokenStream) -> TokenStream { i }
#[proc_macro_attribute] pub fn delete(_a: TokenStream, i: TokenStream) -> TokenStream { i }
/// the service entry point is renamed (the harness has its own)
#[proc_macro_attribute] pub fn main(_a: TokenStream, i: TokenStream) -> TokenStream {
    i.into_iter().map(|t| match t { TokenTree::Ident(x) if x.to_string() == "main" => TokenTree::Ident(Ident::new("rb_service_main", x.span())), t => t }).collect()
}
