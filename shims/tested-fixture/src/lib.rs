//! Stand-in: a fixture is a lazily computed static, with a test that forces it.
use proc_macro::TokenStream;
use quote::quote;
use syn::parse::{Parse, ParseStream};
use syn::{parse_macro_input, Ident, ItemFn, ReturnType, Token, Type, Visibility};

struct Attr(Visibility, Ident, Option<Type>);
impl Parse for Attr {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let (v, n) = (i.parse()?, i.parse()?);
        let t = if i.parse::<Option<Token![:]>>()?.is_some() { Some(i.parse()?) } else { None };
        Ok(Self(v, n, t))
    }
}

#[proc_macro_attribute]
pub fn tested_fixture(attr: TokenStream, item: TokenStream) -> TokenStream {
    let Attr(vis, name, ty) = parse_macro_input!(attr as Attr);
    let f = parse_macro_input!(item as ItemFn);
    let fname = &f.sig.ident;
    let (test, ret) = (quote::format_ident!("{fname}_fixture"), &f.sig.output);
    let ret = match ret {
        ReturnType::Default => quote! { () },
        ReturnType::Type(_, t) => quote! { #t },
    };
    let (ty, init) = match ty {
        None => (ret, quote! { #fname() }),
        Some(t) => (quote! { #t }, quote! { #fname().unwrap() }),
    };
    quote! {
        #f
        #vis static #name: ::once_cell::sync::Lazy<&'static #ty> = ::once_cell::sync::Lazy::new(|| Box::leak(Box::new(#init)));
        #[test]
        fn #test() { ::once_cell::sync::Lazy::force(&#name); }
    }
    .into()
}
