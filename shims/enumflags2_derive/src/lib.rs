use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, ItemEnum};

#[proc_macro_attribute]
pub fn bitflags(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let e = parse_macro_input!(item as ItemEnum);
    let name = &e.ident;
    let variants: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    quote! {
        #e
        impl ::enumflags2::BitFlag for #name {
            const VARIANTS: &'static [Self] = &[#(#name::#variants),*];
            const ALL_BITS: u8 = 0 #(| #name::#variants as u8)*;
            fn bit(self) -> u8 { self as u8 }
        }
        impl ::core::ops::BitOr for #name {
            type Output = ::enumflags2::BitFlags<Self>;
            fn bitor(self, other: Self) -> Self::Output { ::enumflags2::BitFlags::from(self) | other }
        }
        impl ::core::ops::Not for #name {
            type Output = ::enumflags2::BitFlags<Self>;
            fn not(self) -> Self::Output { !::enumflags2::BitFlags::from(self) }
        }
    }
    .into()
}
