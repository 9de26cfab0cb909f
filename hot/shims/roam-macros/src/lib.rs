//! `#[service]` of the roam stand-in: the trait, a dispatcher in front of an implementation, and a
//! client that calls through a connection.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{FnArg, ItemTrait, Pat, ReturnType, TraitItem, parse_macro_input};

#[proc_macro_attribute]
pub fn service(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let t = parse_macro_input!(item as ItemTrait);
    let (name, vis, attrs) = (&t.ident, &t.vis, &t.attrs);
    let (dispatcher, client) = (format_ident!("{name}Dispatcher"), format_ident!("{name}Client"));
    let (mut decls, mut arms, mut calls) = (vec![], vec![], vec![]);
    for i in &t.items {
        let TraitItem::Fn(f) = i else { continue };
        let (m, at) = (&f.sig.ident, &f.attrs);
        let ms = m.to_string();
        let (mut names, mut types) = (vec![], vec![]);
        for a in &f.sig.inputs {
            if let FnArg::Typed(p) = a
                && let Pat::Ident(i) = &*p.pat
            {
                names.push(i.ident.clone());
                types.push((*p.ty).clone());
            }
        }
        let out = match &f.sig.output {
            ReturnType::Default => quote!(()),
            ReturnType::Type(_, t) => quote!(#t),
        };
        decls.push(quote! {
            #(#at)*
            fn #m(&self, cx: &::roam::Context, #(#names: #types),*) -> impl ::std::future::Future<Output = #out>;
        });
        arms.push(quote! {
            #ms => {
                let mut args = args.into_iter();
                #(let #names: #types = *args.next().unwrap().downcast().unwrap();)*
                let cx = ::roam::Context::default();
                let r: #out = self.0.#m(&cx, #(#names),*).await;
                Box::new(r)
            }
        });
        calls.push(quote! {
            pub async fn #m(&self, #(#names: #types),*) -> ::std::result::Result<#out, ::roam::CallError> {
                let args: Vec<Box<dyn ::std::any::Any>> = vec![#(Box::new(#names)),*];
                let r = self.0.call(#ms, args).await?;
                Ok(*r.downcast().unwrap())
            }
        });
    }
    quote! {
        #(#attrs)*
        #vis trait #name {
            #(#decls)*
        }
        #[derive(Clone)]
        #vis struct #dispatcher<T>(T);
        impl<T: #name + Clone + 'static> #dispatcher<T> {
            pub fn new(t: T) -> Self {
                Self(t)
            }
        }
        impl<T: #name + Clone + 'static> ::roam::Dispatcher for #dispatcher<T> {
            fn call(&self, method: &'static str, args: Vec<Box<dyn ::std::any::Any>>) -> ::roam::Answered {
                let this = Self(self.0.clone());
                Box::pin(async move { this.go(method, args).await })
            }
        }
        impl<T: #name + Clone + 'static> #dispatcher<T> {
            async fn go(self, method: &'static str, args: Vec<Box<dyn ::std::any::Any>>) -> Box<dyn ::std::any::Any> {
                match method {
                    #(#arms)*
                    _ => panic!("no method {method}"),
                }
            }
        }
        #[derive(Clone)]
        #vis struct #client(::roam::Handle);
        impl #client {
            pub fn new(h: ::roam::Handle) -> Self {
                Self(h)
            }
            #(#calls)*
        }
    }
    .into()
}
