//! Attribute macros of the salsa stand-in: `db`, `input`, `interned`, `tracked` (functions only).
use proc_macro::TokenStream;
use proc_macro2::{Group, Ident, Span, TokenStream as TS, TokenTree};
use quote::{format_ident, quote};
use syn::{parse_macro_input, FnArg, Item, ItemFn, ItemStruct, Pat, ReturnType, Type};

#[proc_macro_attribute]
pub fn db(_args: TokenStream, input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as Item);
    match item {
        Item::Struct(s) => {
            let name = &s.ident;
            quote! {
                #s
                impl ::salsa::plumbing::ZalsaDatabase for #name {
                    fn __storage(&self) -> &::salsa::plumbing::Handle { self.storage.__handle() }
                    fn __storage_mut(&mut self) -> &mut ::salsa::plumbing::Handle { self.storage.__handle_mut() }
                }
            }
            .into()
        }
        other => quote!(#other).into(),
    }
}

fn has_opt(args: &TokenStream, opt: &str) -> bool {
    args.to_string().split(',').any(|it| it.trim() == opt)
}

#[proc_macro_attribute]
pub fn input(args: TokenStream, input: TokenStream) -> TokenStream {
    let debug = has_opt(&args, "debug");
    let s = parse_macro_input!(input as ItemStruct);
    let (vis, name, attrs) = (&s.vis, &s.ident, &s.attrs);
    let builder = format_ident!("{}Builder", name);
    let fields: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let fvis: Vec<_> = s.fields.iter().map(|f| f.vis.clone()).collect();
    let tys: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let idx: Vec<usize> = (0..fields.len()).collect();
    let tidx: Vec<syn::Index> = idx.iter().map(|i| syn::Index::from(*i)).collect();
    let n = fields.len();
    let setters: Vec<Ident> = fields.iter().map(|f| format_ident!("set_{}", f)).collect();
    let dbg = debug.then(|| {
        let s = name.to_string();
        quote! {
            impl ::std::fmt::Debug for #name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    write!(f, "{}({})", #s, self.0)
                }
            }
        }
    });
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #vis struct #name(u32);
        #dbg
        impl ::salsa::plumbing::InputStruct for #name {
            type Fields = (#(#tys,)*);
            const N: usize = #n;
            fn __index() -> usize {
                static I: ::std::sync::OnceLock<usize> = ::std::sync::OnceLock::new();
                *I.get_or_init(::salsa::plumbing::next_index)
            }
        }
        impl ::salsa::plumbing::KeyPart for #name {
            type Erased = u32;
            fn __erase(self) -> u32 { self.0 }
            fn __restore(e: u32) -> Self { #name(e) }
        }
        #vis struct #builder { fields: (#(#tys,)*), durability: ::salsa::Durability }
        #[allow(dead_code)]
        impl #builder {
            #vis fn durability(mut self, d: ::salsa::Durability) -> Self { self.durability = d; self }
            #vis fn new<Db_: ?Sized + ::salsa::Database>(self, db: &Db_) -> #name {
                #name(db.__storage().new_input::<#name>(self.fields, self.durability))
            }
        }
        #[allow(dead_code)]
        impl #name {
            #[allow(clippy::too_many_arguments)]
            #vis fn new<Db_: ?Sized + ::salsa::Database>(db: &Db_, #(#fields: #tys),*) -> Self {
                Self::builder(#(#fields),*).new(db)
            }
            #vis fn builder(#(#fields: #tys),*) -> #builder {
                #builder { fields: (#(#fields,)*), durability: ::salsa::Durability::LOW }
            }
            #(
                #fvis fn #fields<Db_: ?Sized + ::salsa::Database>(self, db: &Db_) -> #tys {
                    db.__storage().read_input::<#name, _>(self.0, #idx, |f: &<#name as ::salsa::plumbing::InputStruct>::Fields| f.#tidx.clone())
                }
                #fvis fn #setters<'db_, Db_: ?Sized + ::salsa::Database>(self, db: &'db_ mut Db_)
                    -> ::salsa::plumbing::SetterImpl<'db_, #name, #tys>
                {
                    ::salsa::plumbing::SetterImpl::new(db.__storage_mut(), self.0, #idx, |f: &mut <#name as ::salsa::plumbing::InputStruct>::Fields, v| f.#tidx = v)
                }
            )*
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn interned(args: TokenStream, input: TokenStream) -> TokenStream {
    let debug = has_opt(&args, "debug");
    let no_lifetime = has_opt(&args, "no_lifetime");
    let s = parse_macro_input!(input as ItemStruct);
    let (vis, name, attrs) = (&s.vis, &s.ident, &s.attrs);
    let fields: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let fvis: Vec<_> = s.fields.iter().map(|f| f.vis.clone()).collect();
    let tys: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let tidx: Vec<syn::Index> = (0..fields.len()).map(syn::Index::from).collect();
    let (decl, gens, ctor) = if no_lifetime {
        (quote!(#vis struct #name(u32);), quote!(), quote!(#name))
    } else {
        (
            quote!(#vis struct #name<'db>(u32, ::std::marker::PhantomData<fn() -> &'db ()>);),
            quote!(<'db>),
            quote!((|i| #name(i, ::std::marker::PhantomData))),
        )
    };
    let stat = if no_lifetime { quote!() } else { quote!(<'static>) };
    let gget = if no_lifetime { quote!() } else { quote!(<'db>) };
    let dbl = if no_lifetime { quote!(&Db_) } else { quote!(&'db Db_) };
    let dbg = debug.then(|| {
        let s = name.to_string();
        quote! {
            impl #gens ::std::fmt::Debug for #name #gens {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    write!(f, "{}({})", #s, self.0)
                }
            }
        }
    });
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, Eq, Hash)]
        #decl
        #dbg
        impl ::salsa::plumbing::InternedStruct for #name #stat {
            type Fields = (#(#tys,)*);
            fn __index() -> usize {
                static I: ::std::sync::OnceLock<usize> = ::std::sync::OnceLock::new();
                *I.get_or_init(::salsa::plumbing::next_index)
            }
        }
        impl #gens ::salsa::plumbing::KeyPart for #name #gens {
            type Erased = u32;
            fn __erase(self) -> u32 { self.0 }
            fn __restore(e: u32) -> Self { #ctor(e) }
        }
        #[allow(dead_code)]
        impl #gens #name #gget {
            #vis fn new<Db_: ?Sized + ::salsa::Database>(db: #dbl, #(#fields: #tys),*) -> Self {
                #ctor(db.__storage().intern::<#name #stat>((#(#fields,)*)))
            }
            #(
                #fvis fn #fields<Db_: ?Sized + ::salsa::Database>(self, db: #dbl) -> #tys {
                    db.__storage().read_interned::<#name #stat, _>(self.0, |f| f.#tidx.clone())
                }
            )*
        }
    }
    .into()
}

/// Replaces every lifetime by `'static`.
fn staticize(ts: TS) -> TS {
    let mut out = vec![];
    let mut after_tick = false;
    for t in ts {
        match t {
            TokenTree::Punct(p) if p.as_char() == '\'' => {
                after_tick = true;
                out.push(TokenTree::Punct(p));
            }
            TokenTree::Ident(i) if after_tick => {
                after_tick = false;
                out.push(TokenTree::Ident(Ident::new("static", i.span())));
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), staticize(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            other => out.push(other),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn tracked(args: TokenStream, input: TokenStream) -> TokenStream {
    let args_s = args.to_string().replace(' ', "");
    let returns_ref = args_s.contains("returns(ref)");
    if !(args_s.is_empty() || args_s == "returns(ref)" || args_s == "returns(clone)") {
        panic!("salsa stand-in: unsupported tracked options `{args_s}`");
    }
    let f = parse_macro_input!(input as ItemFn);
    let (vis, sig, attrs, block) = (&f.vis, &f.sig, &f.attrs, &f.block);
    let name = &sig.ident;
    let name_s = name.to_string();
    let generics = &sig.generics;
    let output: Type = match &sig.output {
        ReturnType::Default => syn::parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    let out_static = staticize(quote!(#output));
    let mut inputs = sig.inputs.iter();
    let Some(FnArg::Typed(db_arg)) = inputs.next() else { panic!("tracked fn needs a db argument") };
    let Pat::Ident(db_name) = &*db_arg.pat else { panic!("db argument must be a plain name") };
    let db_name = &db_name.ident;
    let Type::Reference(db_ref) = &*db_arg.ty else { panic!("db argument must be a reference") };
    let db_ty = &db_ref.elem;
    let mut names = vec![];
    let mut tys = vec![];
    for (i, a) in inputs.enumerate() {
        let FnArg::Typed(t) = a else { panic!("unexpected self") };
        names.push(Ident::new(&format!("__arg{i}"), Span::mixed_site()));
        tys.push((*t.ty).clone());
    }
    let stys: Vec<TS> = tys.iter().map(|t| staticize(quote!(#t))).collect();
    let has_db_lt = generics.lifetimes().any(|l| l.lifetime.ident == "db");
    // outer signature: every reference to the database gets one lifetime
    let (lt, gen_out) = if has_db_lt {
        (quote!('db), quote!(#generics))
    } else {
        (quote!('__db), quote!(<'__db>))
    };
    let retag = |t: &Type| -> TS {
        // '_ inside argument types becomes the db lifetime
        fn go(ts: TS, lt: &Ident) -> TS {
            let mut out = vec![];
            let mut tick = false;
            for t in ts {
                match t {
                    TokenTree::Punct(p) if p.as_char() == '\'' => {
                        tick = true;
                        out.push(TokenTree::Punct(p));
                    }
                    TokenTree::Ident(i) if tick => {
                        tick = false;
                        out.push(TokenTree::Ident(if i == "_" { lt.clone() } else { i }));
                    }
                    TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), lt)))),
                    o => out.push(o),
                }
            }
            out.into_iter().collect()
        }
        let id = Ident::new(if has_db_lt { "db" } else { "__db" }, Span::call_site());
        go(quote!(#t), &id)
    };
    let otys: Vec<TS> = tys.iter().map(retag).collect();
    let ret = if returns_ref { quote!(&#lt #out_static) } else { quote!(#out_static) };
    let fin = if returns_ref { quote!(__r) } else { quote!(::std::clone::Clone::clone(__r)) };
    let inner_sig = {
        let mut s = sig.clone();
        s.ident = format_ident!("__inner");
        s
    };
    quote! {
        #(#attrs)*
        #[allow(clippy::all)]
        #vis fn #name #gen_out (#db_name: &#lt #db_ty, #(#names: #otys),*) -> #ret {
            #[allow(dead_code, non_camel_case_types)]
            struct __Config;
            #inner_sig #block
            impl ::salsa::plumbing::Function for __Config {
                type Db = #db_ty;
                type Key = (#(<#stys as ::salsa::plumbing::KeyPart>::Erased,)*);
                type Output = #out_static;
                const NAME: &'static str = #name_s;
                fn __index() -> usize {
                    static I: ::std::sync::OnceLock<usize> = ::std::sync::OnceLock::new();
                    *I.get_or_init(::salsa::plumbing::next_index)
                }
                fn execute(__db: &Self::Db, __key: Self::Key) -> Self::Output {
                    let (#(#names,)*) = __key;
                    __inner(__db, #(::salsa::plumbing::KeyPart::__restore(#names)),*)
                }
            }
            let __r = unsafe {
                let __d: &#lt (#db_ty + 'static) = ::std::mem::transmute(#db_name);
                ::salsa::plumbing::fetch::<__Config>(__d, __d.__storage(), (#(::salsa::plumbing::KeyPart::__erase(#names),)*))
            };
            #fin
        }
    }
    .into()
}
