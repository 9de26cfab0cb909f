//! Derive macro of the `facet` stand-in.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS;
use quote::{format_ident, quote};
use syn::{Attribute, Data, DeriveInput, Fields, GenericParam, parse_macro_input};

#[derive(Default)]
struct Attrs {
    transparent: bool,
    cow: bool,
    error: bool,
    proxy: Option<syn::Type>,
    skip: bool,
}

fn parse_attrs(attrs: &[Attribute]) -> Attrs {
    let mut out = Attrs::default();
    for a in attrs {
        if !a.path().is_ident("facet") {
            continue;
        }
        let syn::Meta::List(l) = &a.meta else { continue };
        let mut depth_items: Vec<Vec<proc_macro2::TokenTree>> = vec![vec![]];
        let mut angle = 0i32;
        for t in l.tokens.clone() {
            if let proc_macro2::TokenTree::Punct(p) = &t {
                match p.as_char() {
                    '<' => angle += 1,
                    '>' => angle -= 1,
                    ',' if angle == 0 => {
                        depth_items.push(vec![]);
                        continue;
                    }
                    _ => {}
                }
            }
            depth_items.last_mut().unwrap().push(t);
        }
        for item in depth_items {
            let Some(proc_macro2::TokenTree::Ident(id)) = item.first() else { continue };
            match id.to_string().as_str() {
                "transparent" => out.transparent = true,
                "cow" => out.cow = true,
                "skip" => out.skip = true,
                "derive" => {
                    if item.iter().any(|t| t.to_string().contains("Error")) {
                        out.error = true
                    }
                }
                "proxy" => {
                    let ts: TS = item.iter().skip(2).cloned().collect();
                    out.proxy = syn::parse2(ts).ok();
                }
                _ => {}
            }
        }
    }
    out
}

fn doc(attrs: &[Attribute]) -> String {
    let mut lines = Vec::new();
    for a in attrs {
        if a.path().is_ident("doc")
            && let syn::Meta::NameValue(nv) = &a.meta
            && let syn::Expr::Lit(l) = &nv.value
            && let syn::Lit::Str(s) = &l.lit
        {
            lines.push(s.value().trim().to_string());
        }
    }
    lines.join(" ").trim().to_string()
}

fn shape(f: &Fields) -> TS {
    match f {
        Fields::Unit => quote!(::facet::Shape::Unit),
        Fields::Unnamed(u) if u.unnamed.len() == 1 => quote!(::facet::Shape::Newtype),
        Fields::Unnamed(_) => quote!(::facet::Shape::Tuple),
        Fields::Named(_) => quote!(::facet::Shape::Struct),
    }
}

/// (bindings, ser code using the bindings as references, de code, constructor suffix)
fn fields_code(fields: &Fields) -> (TS, TS, TS, TS) {
    let mut names = vec![];
    let mut ser = TS::new();
    let mut de = TS::new();
    let mut inits = vec![];
    let n = fields.len();
    let sh = shape(fields);
    for (i, f) in fields.iter().enumerate() {
        let b = match &f.ident {
            Some(id) => format_ident!("f_{}", id),
            None => format_ident!("f_{}", i),
        };
        let label = match &f.ident {
            Some(id) => id.to_string(),
            None => i.to_string(),
        };
        let a = parse_attrs(&f.attrs);
        let ty = &f.ty;
        match a.proxy {
            Some(p) => {
                ser.extend(quote! {
                    s.field(#label);
                    { let p: #p = <#p as ::std::convert::From<&#ty>>::from(#b); ::facet::Facet::__ser(&p, s); }
                });
                de.extend(quote! {
                    d.field(#label)?;
                    let #b: #ty = { let p: #p = ::facet::Facet::__de(d)?;
                        <#ty as ::std::convert::TryFrom<#p>>::try_from(p).map_err(|_| ::facet::DeError("proxy conversion failed".into()))? };
                });
            }
            None => {
                ser.extend(quote! { s.field(#label); ::facet::Facet::__ser(#b, s); });
                de.extend(quote! { d.field(#label)?; let #b: #ty = ::facet::Facet::__de(d)?; });
            }
        }
        match &f.ident {
            Some(id) => {
                names.push(quote!(#id: #b));
                inits.push(quote!(#id: #b));
            }
            None => {
                names.push(quote!(#b));
                inits.push(quote!(#b));
            }
        }
    }
    let (pat, ctor) = match fields {
        Fields::Unit => (quote!(), quote!()),
        Fields::Unnamed(_) => (quote!( ( #(#names),* ) ), quote!( ( #(#inits),* ) )),
        Fields::Named(_) => (quote!( { #(#names),* } ), quote!( { #(#inits),* } )),
    };
    let ser = quote! { s.group_begin(#sh, #n); #ser s.group_end(); };
    let de = quote! { d.group_begin(#sh, #n)?; #de d.group_end()?; };
    (pat, ser, de, ctor)
}

#[proc_macro_derive(Facet, attributes(facet))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let at = parse_attrs(&input.attrs);
    let life = input.generics.params.iter().find_map(|p| match p {
        GenericParam::Lifetime(l) => Some(l.lifetime.clone()),
        _ => None,
    });
    let (_, ty_gen, _) = input.generics.split_for_impl();
    let (impl_gen, facet_life) = match life {
        Some(l) => (quote!(<#l>), quote!(#l)),
        None => (quote!(<'facet>), quote!('facet)),
    };
    let (ser, de, extra) = match &input.data {
        Data::Struct(st) => {
            if at.transparent {
                (
                    quote! { ::facet::Facet::__ser(&self.0, s) },
                    quote! { Ok(Self(::facet::Facet::__de(d)?)) },
                    quote!(),
                )
            } else {
                let (pat, ser, de, ctor) = fields_code(&st.fields);
                (
                    quote! { let Self #pat = self; #ser },
                    quote! { #de Ok(Self #ctor) },
                    quote!(),
                )
            }
        }
        Data::Enum(en) => {
            if at.cow {
                let arms = en.variants.iter().map(|v| {
                    let vn = &v.ident;
                    quote! { Self::#vn(x) => ::facet::Facet::__ser(x, s), }
                });
                (
                    quote! { match self { #(#arms)* } },
                    quote! { Ok(Self::Owned(::facet::Facet::__de(d)?)) },
                    quote!(),
                )
            } else {
                let mut sarms = TS::new();
                let mut darms = TS::new();
                let mut table = TS::new();
                let mut disp = TS::new();
                for (i, v) in en.variants.iter().enumerate() {
                    let vn = &v.ident;
                    let vs = vn.to_string();
                    let i = i as u32;
                    let sh = shape(&v.fields);
                    let (pat, ser, de, ctor) = fields_code(&v.fields);
                    sarms.extend(quote! { Self::#vn #pat => { s.variant_begin(#i, #vs, #sh); #ser s.variant_end(); } });
                    darms.extend(quote! { #i => { #de let v = Self::#vn #ctor; d.variant_end()?; Ok(v) } });
                    table.extend(quote! { (#vs, #sh), });
                    if at.error {
                        let d = doc(&v.attrs);
                        let pat = match &v.fields {
                            Fields::Unit => quote!(),
                            Fields::Named(n) => {
                                let ids = n.named.iter().map(|f| f.ident.clone().unwrap());
                                quote!( { #(#ids),* } )
                            }
                            Fields::Unnamed(u) => {
                                let ids = (0..u.unnamed.len()).map(|i| format_ident!("_{}", i));
                                quote!( ( #(#ids),* ) )
                            }
                        };
                        // positional fields {0} are not used in this repository
                        disp.extend(quote! {
                            #[allow(unused_variables)]
                            Self::#vn #pat => f.write_fmt(::core::format_args!(#d)),
                        });
                    }
                }
                let extra = if at.error {
                    quote! {
                        impl ::core::fmt::Display for #name #ty_gen {
                            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                                match self { #disp }
                            }
                        }
                        impl ::std::error::Error for #name #ty_gen {}
                    }
                } else {
                    quote!()
                };
                (
                    quote! { match self { #sarms } },
                    quote! {
                        match d.variant_begin(&[#table])? { #darms _ => Err(::facet::DeError("bad variant".into())) }
                    },
                    extra,
                )
            }
        }
        Data::Union(_) => panic!("unions are not supported"),
    };
    quote! {
        #[automatically_derived]
        #[allow(non_snake_case, unused_variables, clippy::all)]
        impl #impl_gen ::facet::Facet<#facet_life> for #name #ty_gen {
            fn __ser(&self, s: &mut dyn ::facet::Ser) { #ser }
            fn __de(d: &mut dyn ::facet::De) -> ::core::result::Result<Self, ::facet::DeError> { #de }
        }
        #extra
    }
    .into()
}
