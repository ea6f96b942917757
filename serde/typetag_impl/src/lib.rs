//! `#[typetag::serde]` of the stand-in: on a trait it makes trait objects (de)serialisable, on an impl it gives the tag.
use proc_macro::TokenStream;
use proc_macro2::Ident;
use quote::{format_ident, quote};
use syn::{parse_macro_input, parse_quote, GenericParam, Item, ItemImpl, ItemTrait, Type};

#[proc_macro_attribute]
pub fn serde(args: TokenStream, input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as Item);
    match item {
        Item::Trait(t) => on_trait(args.to_string(), t).into(),
        Item::Impl(i) => on_impl(i).into(),
        other => syn::Error::new_spanned(other, "expected trait or impl").to_compile_error().into(),
    }
}

fn on_trait(args: String, mut t: ItemTrait) -> proc_macro2::TokenStream {
    // tag = "..."
    let tag = args.split('"').nth(1).unwrap_or("type").to_string();
    let name = t.ident.clone();
    let name_str = name.to_string();
    t.supertraits.push(parse_quote!(typetag::__private::ErasedSerialize));
    t.items.push(parse_quote! {
        #[doc(hidden)]
        fn typetag_name(&self) -> typetag::__private::String;
    });
    let reg = format_ident!("register_{}", name_str.to_lowercase());
    quote! {
        #t

        impl typetag::__private::serde::Serialize for dyn #name {
            fn serialize<S: typetag::__private::serde::Serializer>(&self, s: S) -> typetag::__private::Result<S::Ok, S::Error> {
                typetag::__private::serialize_dyn(#tag, typetag::__private::ErasedSerialize::erased_value(self), self.typetag_name(), s)
            }
        }
        impl<'de> typetag::__private::serde::Deserialize<'de> for typetag::__private::Box<dyn #name> {
            fn deserialize<D: typetag::__private::serde::Deserializer<'de>>(d: D) -> typetag::__private::Result<Self, D::Error> {
                typetag::__private::deserialize_dyn::<dyn #name, D>(#tag, #name_str, d)
            }
        }
        impl typetag::__private::Strictest for dyn #name {
            type Object = dyn #name;
        }
        impl dyn #name {
            #[doc(hidden)]
            pub fn typetag_register(name: &'static str, f: typetag::__private::DeserializeFn<dyn #name>) -> typetag::__private::Registration<dyn #name> {
                typetag::__private::Registration { name, f }
            }
        }
        #[doc(hidden)]
        #[macro_export]
        macro_rules! #reg {
            ($($t:ty),* $(,)?) => { $(
                typetag::__private::inventory::submit! {
                    <dyn #name>::typetag_register(
                        stringify!($t),
                        (|d| typetag::__private::Result::Ok(typetag::__private::Box::new(
                            typetag::__private::erased_serde::deserialize::<$t>(d)?)))
                        as typetag::__private::DeserializeFn<dyn #name>)
                }
            )* };
        }
    }
}

fn last_ident(t: &Type) -> Option<Ident> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.clone()),
        Type::Group(g) => last_ident(&g.elem),
        _ => None,
    }
}

fn on_impl(mut i: ItemImpl) -> proc_macro2::TokenStream {
    let ident = last_ident(&i.self_ty).expect("named type");
    let ident_str = ident.to_string();
    let params: Vec<GenericParam> = i.generics.params.iter().cloned().collect();
    let blanket = params.iter().any(|p| matches!(p, GenericParam::Type(t) if t.ident == ident));
    let mut parts = vec![];
    for p in &params {
        match p {
            GenericParam::Type(t) => {
                let id = &t.ident;
                i.generics.make_where_clause().predicates.push(parse_quote!(#id: typetag::Tagged));
                parts.push(quote!(<#id as typetag::Tagged>::tag()));
            }
            GenericParam::Const(c) => {
                let id = &c.ident;
                parts.push(quote!(#id.to_string()));
            }
            GenericParam::Lifetime(_) => {}
        }
    }
    let body = if blanket {
        quote!(<Self as typetag::Tagged>::tag())
    } else if parts.is_empty() {
        quote!(typetag::__private::String::from(#ident_str))
    } else {
        quote!(format!("{}<{}>", #ident_str, [#(#parts),*].join(", ")))
    };
    i.items.push(parse_quote! {
        #[doc(hidden)]
        fn typetag_name(&self) -> typetag::__private::String { #body }
    });
    let mut out = quote!(#i);
    if parts.is_empty() {
        let tr = &i.trait_.as_ref().expect("trait impl").1;
        let ty = &i.self_ty;
        out.extend(quote! {
            typetag::__private::inventory::submit! {
                <dyn #tr>::typetag_register(
                    #ident_str,
                    (|d| typetag::__private::Result::Ok(typetag::__private::Box::new(
                        typetag::__private::erased_serde::deserialize::<#ty>(d)?)))
                    as typetag::__private::DeserializeFn<dyn #tr>)
            }
        });
    }
    out
}
