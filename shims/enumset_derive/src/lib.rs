use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

#[proc_macro_derive(EnumSetType, attributes(enumset))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let Data::Enum(e) = &d.data else { panic!("enum expected") };
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    quote! {
        impl ::core::clone::Clone for #name { fn clone(&self) -> Self { *self } }
        impl ::core::marker::Copy for #name {}
        impl ::core::cmp::PartialEq for #name { fn eq(&self, o: &Self) -> bool { *self as u32 == *o as u32 } }
        impl ::core::cmp::Eq for #name {}
        impl ::enumset::EnumSetType for #name {
            const ALL: &'static [Self] = &[#(#name::#vs),*];
            fn bit(self) -> u64 { 1u64 << (self as u32) }
        }
        #[allow(dead_code)]
        impl #name {
            #[doc(hidden)]
            pub const fn __impl_bit(self) -> u64 { 1u64 << (self as u32) }
        }
        impl ::core::ops::BitOr<#name> for #name {
            type Output = ::enumset::EnumSet<#name>;
            fn bitor(self, o: #name) -> ::enumset::EnumSet<#name> {
                ::enumset::EnumSet::only(self) | ::enumset::EnumSet::only(o)
            }
        }
    }
    .into()
}
