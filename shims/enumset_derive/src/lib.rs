use quote::quote;
#[proc_macro_derive(EnumSetType, attributes(enumset))]
pub fn derive(item: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = syn::parse_macro_input!(item as syn::DeriveInput);
    let n = &d.ident;
    let syn::Data::Enum(e) = &d.data else { panic!("enum expected") };
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let idx: Vec<u32> = (0..vs.len() as u32).collect();
    let cnt = vs.len() as u32;
    quote! {
        impl ::core::marker::Copy for #n {}
        impl ::core::clone::Clone for #n { fn clone(&self) -> Self { *self } }
        impl ::core::cmp::PartialEq for #n { fn eq(&self, o: &Self) -> bool { *self as u32 == *o as u32 } }
        impl ::core::cmp::Eq for #n {}
        unsafe impl ::enumset::EnumSetType for #n {
            const COUNT: u32 = #cnt;
            fn idx(self) -> u32 { match self { #(#n::#vs => #idx),* } }
            fn from_idx(i: u32) -> Self { match i { #(#idx => #n::#vs,)* _ => unreachable!() } }
        }
        impl #n {
            #[doc(hidden)] pub const fn __impl_enumset_bit(self) -> u64 { match self { #(#n::#vs => 1u64 << #idx),* } }
        }
        impl<O: Into<::enumset::EnumSet<#n>>> ::core::ops::BitOr<O> for #n { type Output = ::enumset::EnumSet<#n>; fn bitor(self, o: O) -> Self::Output { ::enumset::EnumSet::only(self) | o.into() } }
        impl<O: Into<::enumset::EnumSet<#n>>> ::core::ops::BitAnd<O> for #n { type Output = ::enumset::EnumSet<#n>; fn bitand(self, o: O) -> Self::Output { ::enumset::EnumSet::only(self) & o.into() } }
        impl<O: Into<::enumset::EnumSet<#n>>> ::core::ops::Sub<O> for #n { type Output = ::enumset::EnumSet<#n>; fn sub(self, o: O) -> Self::Output { ::enumset::EnumSet::only(self) - o.into() } }
        impl ::core::ops::Not for #n { type Output = ::enumset::EnumSet<#n>; fn not(self) -> Self::Output { !::enumset::EnumSet::only(self) } }
        impl ::core::cmp::PartialEq<::enumset::EnumSet<#n>> for #n { fn eq(&self, o: &::enumset::EnumSet<#n>) -> bool { ::enumset::EnumSet::only(*self) == *o } }
    }
    .into()
}
