//! Offline stand-in for `ssz_rs_derive`: SSZ codec / merkleization derives for containers,
//! single-field newtypes and transparent enums.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

struct Generics {
    imp: TS,
    ty: TS,
    wh: TS,
}

fn generics(input: &DeriveInput) -> Generics {
    let (a, b, c) = input.generics.split_for_impl();
    Generics { imp: quote!(#a), ty: quote!(#b), wh: quote!(#c) }
}

fn is_transparent(input: &DeriveInput) -> bool {
    input.attrs.iter().any(|a| {
        a.path().is_ident("ssz") && quote!(#a).to_string().contains("transparent")
    })
}

fn gen_serializable(input: &DeriveInput) -> TS {
    let name = &input.ident;
    let Generics { imp, ty, wh } = generics(input);
    match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let names: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                let types: Vec<_> = f.named.iter().map(|f| f.ty.clone()).collect();
                let n = names.len();
                quote! {
                    impl #imp ::ssz_rs::Sized for #name #ty #wh {
                        fn is_variable_size() -> bool { false #( || <#types as ::ssz_rs::Sized>::is_variable_size() )* }
                        fn size_hint() -> usize {
                            if <Self as ::ssz_rs::Sized>::is_variable_size() { 0 } else { 0 #( + <#types as ::ssz_rs::Sized>::size_hint() )* }
                        }
                    }
                    impl #imp ::ssz_rs::Serialize for #name #ty #wh {
                        fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                            let mut s = ::ssz_rs::__internal::Serializer::default();
                            #( s.field(&self.#names)?; )*
                            s.finish(buffer)
                        }
                    }
                    impl #imp ::ssz_rs::Deserialize for #name #ty #wh {
                        fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                            let layout: [(bool, usize); #n] = [ #( (<#types as ::ssz_rs::Sized>::is_variable_size(), <#types as ::ssz_rs::Sized>::size_hint()) ),* ];
                            let mut parts = ::ssz_rs::__internal::split(encoding, &layout)?.into_iter();
                            Ok(Self { #( #names: <#types as ::ssz_rs::Deserialize>::deserialize(parts.next().unwrap())?, )* })
                        }
                    }
                    impl #imp ::ssz_rs::Serializable for #name #ty #wh {}
                }
            }
            Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                let t = &f.unnamed[0].ty;
                quote! {
                    impl #imp ::ssz_rs::Sized for #name #ty #wh {
                        fn is_variable_size() -> bool { <#t as ::ssz_rs::Sized>::is_variable_size() }
                        fn size_hint() -> usize { <#t as ::ssz_rs::Sized>::size_hint() }
                    }
                    impl #imp ::ssz_rs::Serialize for #name #ty #wh {
                        fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                            ::ssz_rs::Serialize::serialize(&self.0, buffer)
                        }
                    }
                    impl #imp ::ssz_rs::Deserialize for #name #ty #wh {
                        fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                            Ok(Self(<#t as ::ssz_rs::Deserialize>::deserialize(encoding)?))
                        }
                    }
                    impl #imp ::ssz_rs::Serializable for #name #ty #wh {}
                }
            }
            _ => panic!("unsupported struct shape"),
        },
        Data::Enum(e) => {
            assert!(is_transparent(input), "only transparent enums are supported");
            let vars: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let types: Vec<_> = e
                .variants
                .iter()
                .map(|v| match &v.fields {
                    Fields::Unnamed(f) if f.unnamed.len() == 1 => f.unnamed[0].ty.clone(),
                    _ => panic!("unsupported variant"),
                })
                .collect();
            quote! {
                impl #imp ::ssz_rs::Sized for #name #ty #wh {
                    fn is_variable_size() -> bool { true }
                    fn size_hint() -> usize { 0 }
                }
                impl #imp ::ssz_rs::Serialize for #name #ty #wh {
                    fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                        match self { #( Self::#vars(inner) => ::ssz_rs::Serialize::serialize(inner, buffer), )* }
                    }
                }
                impl #imp ::ssz_rs::Deserialize for #name #ty #wh {
                    fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                        #( if let Ok(v) = <#types as ::ssz_rs::Deserialize>::deserialize(encoding) { return Ok(Self::#vars(v)) } )*
                        Err(::ssz_rs::DeserializeError::InvalidInput)
                    }
                }
                impl #imp ::ssz_rs::Serializable for #name #ty #wh {}
            }
        }
        _ => panic!("unsupported"),
    }
}

fn gen_htr(input: &DeriveInput) -> TS {
    let name = &input.ident;
    let Generics { imp, ty, wh } = generics(input);
    match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let names: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                quote! {
                    impl #imp ::ssz_rs::HashTreeRoot for #name #ty #wh {
                        fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                            let mut leaves: ::std::vec::Vec<[u8; 32]> = ::std::vec::Vec::new();
                            #( leaves.push(::ssz_rs::HashTreeRoot::hash_tree_root(&self.#names)?.into()); )*
                            let limit = leaves.len();
                            ::ssz_rs::__internal::merkleize(leaves, limit)
                        }
                    }
                }
            }
            Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                let t = &f.unnamed[0].ty;
                quote! {
                    impl #imp ::ssz_rs::HashTreeRoot for #name #ty #wh {
                        fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                            ::ssz_rs::HashTreeRoot::hash_tree_root(&self.0)
                        }
                        fn is_basic() -> bool { <#t as ::ssz_rs::HashTreeRoot>::is_basic() }
                        fn pack(&self, out: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<(), ::ssz_rs::MerkleizationError> {
                            ::ssz_rs::HashTreeRoot::pack(&self.0, out)
                        }
                    }
                }
            }
            _ => panic!("unsupported struct shape"),
        },
        Data::Enum(e) => {
            let vars: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            quote! {
                impl #imp ::ssz_rs::HashTreeRoot for #name #ty #wh {
                    fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                        match self { #( Self::#vars(inner) => ::ssz_rs::HashTreeRoot::hash_tree_root(inner), )* }
                    }
                }
            }
        }
        _ => panic!("unsupported"),
    }
}

fn gen_gi(input: &DeriveInput) -> TS {
    let name = &input.ident;
    let Generics { imp, ty, wh } = generics(input);
    match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let names: Vec<String> = f
                    .named
                    .iter()
                    .map(|f| f.ident.clone().unwrap().to_string())
                    .collect();
                let types: Vec<_> = f.named.iter().map(|f| f.ty.clone()).collect();
                let n = names.len();
                let idx: Vec<usize> = (0..n).collect();
                quote! {
                    impl #imp ::ssz_rs::GeneralizedIndexable for #name #ty #wh {
                        fn chunk_count() -> usize { #n }
                        fn compute_generalized_index(parent: usize, path: ::ssz_rs::Path<'_>) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                            if path.is_empty() { return Ok(parent) }
                            match &path[0] {
                                ::ssz_rs::PathElement::Field(name) => match name.as_str() {
                                    #( #names => {
                                        let child = parent * ::ssz_rs::__internal::next_pow2(#n) + #idx;
                                        <#types as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(child, &path[1..])
                                    } )*
                                    _ => Err(::ssz_rs::MerkleizationError::InvalidPathElement(path[0].clone())),
                                },
                                other => Err(::ssz_rs::MerkleizationError::InvalidPathElement(other.clone())),
                            }
                        }
                    }
                }
            }
            Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                let t = &f.unnamed[0].ty;
                quote! {
                    impl #imp ::ssz_rs::GeneralizedIndexable for #name #ty #wh {
                        fn chunk_count() -> usize { <#t as ::ssz_rs::GeneralizedIndexable>::chunk_count() }
                        fn compute_generalized_index(parent: usize, path: ::ssz_rs::Path<'_>) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                            <#t as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent, path)
                        }
                    }
                }
            }
            _ => panic!("unsupported"),
        },
        _ => {
            let _ = format_ident!("x");
            quote! {}
        }
    }
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn serializable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    gen_serializable(&input).into()
}

#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn hash_tree_root(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    gen_htr(&input).into()
}

#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn generalized_indexable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    gen_gi(&input).into()
}

#[proc_macro_derive(Prove, attributes(ssz))]
pub fn prove(_input: TokenStream) -> TokenStream {
    TokenStream::new()
}

#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn simple_serialize(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Generics { imp, ty, wh } = generics(&input);
    let a = gen_serializable(&input);
    let b = gen_htr(&input);
    let c = gen_gi(&input);
    quote! { #a #b #c impl #imp ::ssz_rs::SimpleSerialize for #name #ty #wh {} }.into()
}
