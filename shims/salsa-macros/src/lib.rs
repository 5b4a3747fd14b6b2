//! Offline stand-in for `salsa-macros`: same attribute surface, expands to the
//! small red/green engine in ../salsa.
use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as TS2};
use quote::{format_ident, quote};
use syn::visit_mut::VisitMut;
use syn::{parse_macro_input, parse_quote, FnArg, Ident, Item, ItemFn, ItemStruct, Lifetime, Pat, ReturnType, Type};

#[derive(Default, Clone)]
struct Opts {
    returns: Option<String>,
    no_eq: bool,
    no_lifetime: bool,
    debug: bool,
    cycle: bool,
}

fn parse_opts(ts: TS2) -> Opts {
    let mut o = Opts::default();
    let s = ts.to_string().replace(' ', "");
    for part in split_top(&s) {
        if let Some(rest) = part.strip_prefix("returns(") {
            o.returns = Some(rest.trim_end_matches(')').to_string());
        } else if part == "return_ref" {
            o.returns = Some("ref".into());
        } else if part == "no_eq" {
            o.no_eq = true;
        } else if part.starts_with("no_lifetime") {
            o.no_lifetime = true;
        } else if part == "debug" {
            o.debug = true;
        } else if part.starts_with("cycle_") {
            o.cycle = true;
        }
    }
    o
}
fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' => { depth += 1; cur.push(c) }
            ')' => { depth -= 1; cur.push(c) }
            ',' if depth == 0 => { out.push(std::mem::take(&mut cur)) }
            _ => cur.push(c),
        }
    }
    if !cur.is_empty() { out.push(cur) }
    out
}

struct ToStatic;
impl VisitMut for ToStatic {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        *l = Lifetime::new("'static", Span::call_site());
    }
    fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
        r.lifetime = Some(Lifetime::new("'static", Span::call_site()));
        syn::visit_mut::visit_type_reference_mut(self, r);
    }
}
struct UnderToNamed(Lifetime);
impl VisitMut for UnderToNamed {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        if l.ident == "_" { *l = self.0.clone(); }
    }
}
struct SelfTo(Type);
impl VisitMut for SelfTo {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.is_ident("Self") { *t = self.0.clone(); return; }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

#[proc_macro_attribute]
pub fn db(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let it = parse_macro_input!(item as Item);
    match &it {
        Item::Struct(s) => {
            let name = &s.ident;
            quote! {
                #s
                #[allow(clippy::all)]
                unsafe impl ::salsa::plumbing::ZalsaDatabase for #name {
                    fn zalsa(&self) -> &::salsa::plumbing::Zalsa {
                        let st: &::salsa::Storage<Self> = &self.storage;
                        st.zalsa()
                    }
                    fn zalsa_mut(&mut self) -> &mut ::salsa::plumbing::Zalsa {
                        let st: &mut ::salsa::Storage<Self> = &mut self.storage;
                        st.zalsa_mut()
                    }
                }
            }
            .into()
        }
        other => quote!(#other).into(),
    }
}

fn default_lt() -> Lifetime { Lifetime::new("'db", Span::call_site()) }

fn expand_tracked(f: &ItemFn, o: &Opts, self_ty: Option<&Type>) -> TS2 {
    let attrs = &f.attrs;
    let vis = &f.vis;
    let name = &f.sig.ident;
    let mut sig = f.sig.clone();
    let lt = sig.generics.lifetimes().next().map(|l| l.lifetime.clone());
    let need_lt = lt.is_none();
    let lt = lt.unwrap_or_else(default_lt);
    if need_lt {
        sig.generics.params.insert(0, parse_quote!(#lt));
    }
    // normalise args: self (methods) and db
    let mut arg_idents: Vec<Ident> = vec![];
    let mut arg_tys: Vec<Type> = vec![];
    let mut db_ident: Option<Ident> = None;
    let mut db_ty: Option<Type> = None;
    let mut inner_params: Vec<TS2> = vec![];
    let mut has_self = false;
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(_) => {
                has_self = true;
            }
            FnArg::Typed(pt) => {
                UnderToNamed(lt.clone()).visit_type_mut(&mut pt.ty);
                if db_ident.is_none() {
                    if let Type::Reference(r) = &mut *pt.ty {
                        r.lifetime = Some(lt.clone());
                        db_ty = Some((*r.elem).clone());
                    }
                    let id = format_ident!("__db");
                    db_ident = Some(id.clone());
                    let pat = (*pt.pat).clone();
                    let ty = (*pt.ty).clone();
                    inner_params.push(quote!(#pat: #ty));
                    *pt.pat = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None });
                } else {
                    let id = format_ident!("__a{}", i);
                    let pat = (*pt.pat).clone();
                    let ty = (*pt.ty).clone();
                    inner_params.push(quote!(#pat: #ty));
                    *pt.pat = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id.clone(), subpat: None });
                    arg_idents.push(id);
                    arg_tys.push((*pt.ty).clone());
                }
            }
        }
    }
    let db_ident = db_ident.expect("tracked fn needs db");
    let mut db_ty = db_ty.expect("db must be a reference");
    let mut ret: Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    UnderToNamed(lt.clone()).visit_type_mut(&mut ret);
    let body = &f.block;
    let generics = &sig.generics;
    let mut key_tys: Vec<Type> = arg_tys.clone();
    if has_self {
        let st = self_ty.cloned().expect("self in free fn");
        key_tys.insert(0, st);
    }
    for t in key_tys.iter_mut() {
        ToStatic.visit_type_mut(t);
    }
    let mut val_ty = ret.clone();
    if let Some(st) = self_ty { SelfTo(st.clone()).visit_type_mut(&mut val_ty); }
    ToStatic.visit_type_mut(&mut val_ty);
    ToStatic.visit_type_mut(&mut db_ty);
    let is_ref = matches!(o.returns.as_deref(), Some("ref"));
    let is_deref = matches!(o.returns.as_deref(), Some("deref"));
    let is_asref = matches!(o.returns.as_deref(), Some("as_ref"));
    let out_ty: TS2 = if is_ref {
        quote!(&#lt #ret)
    } else if is_deref {
        quote!(&#lt <#ret as ::core::ops::Deref>::Target)
    } else if is_asref {
        quote!(<#ret as ::salsa::plumbing::SalsaAsRef>::AsRef<#lt>)
    } else {
        quote!(#ret)
    };
    sig.output = parse_quote!(-> #out_ty);
    let finish = if is_ref {
        quote!(__v)
    } else if is_deref {
        quote!(::core::ops::Deref::deref(__v))
    } else if is_asref {
        quote!(::salsa::plumbing::SalsaAsRef::as_ref(__v))
    } else {
        quote!(::core::clone::Clone::clone(__v))
    };
    let eq = if o.no_eq { quote!(|_, _| false) } else { quote!(|a, b| a == b) };
    let key_exprs: Vec<TS2> = if has_self {
        let mut v = vec![quote!(self)];
        v.extend(arg_idents.iter().map(|i| quote!(#i)));
        v
    } else {
        arg_idents.iter().map(|i| quote!(#i)).collect()
    };
    let nkeys = key_exprs.len();
    let key_names: Vec<Ident> = (0..nkeys).map(|i| format_ident!("__k{}", i)).collect();
    let (inner_fn, call_inner) = if has_self {
        let st = self_ty.unwrap();
        let inner_name = format_ident!("__salsa_inner_{}", name);
        let _ = st;
        (
            // emitted as a sibling method by the impl expansion
            quote!(),
            {
                let first = &key_names[0];
                let rest = &key_names[1..];
                quote!(#first.#inner_name(__db2, #(#rest),*))
            },
        )
    } else {
        (
            quote! {
                #[allow(clippy::all)]
                fn __inner #generics (#(#inner_params),*) -> #ret #body
            },
            quote!(__inner(__db2, #(#key_names),*)),
        )
    };
    let name_s = name.to_string();
    let out = quote! {
        #(#attrs)*
        #vis #sig {
            #inner_fn
            struct __Q;
            impl ::salsa::plumbing::Query for __Q {
                type Db = #db_ty;
                type Key = (#(#key_tys,)*);
                type Value = #val_ty;
                const NAME: &'static str = #name_s;
                #[allow(clippy::all, unused_variables, unused_unsafe)]
                fn execute(__db2: &Self::Db, __k: &Self::Key) -> Self::Value {
                    let (#(#key_names,)*) = ::core::clone::Clone::clone(__k);
                    // lifetimes only: memos are owned by the database and dropped with it
                    let __db2: &'static Self::Db = unsafe { ::core::mem::transmute(__db2) };
                    unsafe { ::salsa::plumbing::cast(#call_inner) }
                }
                fn values_eq(a: &Self::Value, b: &Self::Value) -> bool {
                    let f: fn(&Self::Value, &Self::Value) -> bool = #eq;
                    f(a, b)
                }
            }
            #[allow(unused_unsafe)]
            let __key: <__Q as ::salsa::plumbing::Query>::Key = unsafe { ::salsa::plumbing::cast((#(#key_exprs,)*)) };
            let __r: &'static <__Q as ::salsa::plumbing::Query>::Value = unsafe { ::core::mem::transmute(::salsa::plumbing::fetch::<__Q>(
                ::core::mem::transmute(#db_ident), __key)) };
            let __v: &#lt #ret = unsafe { ::core::mem::transmute(__r) };
            #finish
        }
    };
    if has_self {
        let inner_name = format_ident!("__salsa_inner_{}", name);
        quote! {
            #[doc(hidden)]
            #[allow(clippy::all)]
            fn #inner_name #generics (self, #(#inner_params),*) -> #ret #body
            #out
        }
    } else {
        out
    }
}

#[proc_macro_attribute]
pub fn tracked(attr: TokenStream, item: TokenStream) -> TokenStream {
    let o = parse_opts(attr.into());
    let it = parse_macro_input!(item as Item);
    match it {
        Item::Fn(f) => expand_tracked(&f, &o, None).into(),
        Item::Impl(mut im) => {
            let st = (*im.self_ty).clone();
            let mut new_items: Vec<syn::ImplItem> = vec![];
            for i in im.items.drain(..) {
                match i {
                    syn::ImplItem::Fn(mut m) => {
                        let pos = m.attrs.iter().position(|a| a.path().segments.last().map_or(false, |s| s.ident == "tracked"));
                        if let Some(p) = pos {
                            let a = m.attrs.remove(p);
                            let ts = match &a.meta {
                                syn::Meta::List(l) => l.tokens.clone(),
                                _ => TS2::new(),
                            };
                            let oo = parse_opts(ts);
                            let f = ItemFn { attrs: m.attrs.clone(), vis: m.vis.clone(), sig: m.sig.clone(), block: Box::new(m.block.clone()) };
                            let ts = expand_tracked(&f, &oo, Some(&st));
                            let w: syn::ItemImpl = parse_quote!(impl X { #ts });
                            new_items.extend(w.items);
                        } else {
                            new_items.push(syn::ImplItem::Fn(m));
                        }
                    }
                    o => new_items.push(o),
                }
            }
            im.items = new_items;
            quote!(#im).into()
        }
        other => quote!(#other).into(),
    }
}

fn field_returns(f: &mut syn::Field) -> String {
    let mut r = "clone".to_string();
    f.attrs.retain(|a| {
        if a.path().is_ident("returns") {
            if let syn::Meta::List(l) = &a.meta { r = l.tokens.to_string(); }
            false
        } else if a.path().is_ident("return_ref") {
            r = "ref".into();
            false
        } else { !a.path().is_ident("default") }
    });
    r
}

fn getter(vis: &syn::Visibility, name: &Ident, ty: &Type, how: &str, lt: &TS2, expr: TS2) -> TS2 {
    let dbp = quote!(__db: &#lt (impl ?Sized + ::salsa::Database));
    let g = if lt.is_empty() { quote!() } else { quote!() };
    let _ = g;
    match how {
        "ref" => quote!(#vis fn #name<'__g>(self, __db: &'__g (impl ?Sized + ::salsa::Database)) -> &'__g #ty { #expr }),
        "deref" => quote!(#vis fn #name<'__g>(self, __db: &'__g (impl ?Sized + ::salsa::Database)) -> &'__g <#ty as ::core::ops::Deref>::Target { ::core::ops::Deref::deref(#expr) }),
        _ => { let _ = dbp; quote!(#vis fn #name<'__g>(self, __db: &'__g (impl ?Sized + ::salsa::Database)) -> #ty { ::core::clone::Clone::clone(#expr) }) }
    }
}

#[proc_macro_attribute]
pub fn interned(attr: TokenStream, item: TokenStream) -> TokenStream {
    let o = parse_opts(attr.into());
    let mut s = parse_macro_input!(item as ItemStruct);
    let vis = s.vis.clone();
    let name = s.ident.clone();
    let attrs: Vec<_> = s.attrs.iter().filter(|a| !a.path().is_ident("derive")).cloned().collect();
    let derives_debug = o.debug || s.attrs.iter().any(|a| a.path().is_ident("derive") && quote!(#a).to_string().contains("Debug"));
    let (decl_g, use_g, static_g) = if o.no_lifetime { (quote!(), quote!(), quote!()) } else { (quote!(<'db>), quote!(<'db>), quote!(<'static>)) };
    let phantom = if o.no_lifetime { quote!(::core::marker::PhantomData<fn() -> ()>) } else { quote!(::core::marker::PhantomData<fn() -> &'db ()>) };
    let mut getters = vec![];
    let mut fnames = vec![];
    let mut ftys = vec![];
    let mut static_tys = vec![];
    for (i, f) in s.fields.iter_mut().enumerate() {
        let how = field_returns(f);
        let fname = f.ident.clone().unwrap();
        let fty = f.ty.clone();
        let mut sty = fty.clone();
        ToStatic.visit_type_mut(&mut sty);
        let idx = syn::Index::from(i);
        getters.push(getter(&f.vis, &fname, &fty, &how, &quote!(), quote!({
            let __d: &'__g <#name #static_g as ::salsa::plumbing::InternedStruct>::Fields = unsafe { ::core::mem::transmute(
                ::salsa::plumbing::interned_fields::<#name #static_g>(::salsa::plumbing::ZalsaDatabase::zalsa(__db), self.0)) };
            unsafe { ::core::mem::transmute::<&'__g #sty, &'__g #fty>(&__d.#idx) }
        })));
        fnames.push(fname);
        ftys.push(fty);
        static_tys.push(sty);
    }
    let dbg = if derives_debug {
        quote!(impl #decl_g ::core::fmt::Debug for #name #use_g {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                write!(f, "{}({})", stringify!(#name), self.0)
            }
        })
    } else { quote!() };
    let new_ret = if o.no_lifetime { quote!(Self) } else { quote!(Self) };
    let new_db = if o.no_lifetime { quote!(__db: &(impl ?Sized + ::salsa::Database)) } else { quote!(__db: &'db (impl ?Sized + ::salsa::Database)) };
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #vis struct #name #decl_g (u32, #phantom);
        #dbg
        impl ::salsa::plumbing::InternedStruct for #name #static_g {
            type Fields = (#(#static_tys,)*);
        }
        impl #decl_g ::salsa::plumbing::AsId for #name #use_g {
            fn as_id(&self) -> ::salsa::Id { ::salsa::Id::from_u32(self.0) }
        }
        #[allow(clippy::all, dead_code)]
        impl #decl_g #name #use_g {
            #vis fn new(#new_db, #(#fnames: #ftys),*) -> #new_ret {
                let __f: <#name #static_g as ::salsa::plumbing::InternedStruct>::Fields = unsafe { ::salsa::plumbing::cast((#(#fnames,)*)) };
                #name(::salsa::plumbing::intern::<#name #static_g>(::salsa::plumbing::ZalsaDatabase::zalsa(__db), __f), ::core::marker::PhantomData)
            }
            #(#getters)*
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn input(attr: TokenStream, item: TokenStream) -> TokenStream {
    let o = parse_opts(attr.into());
    let mut s = parse_macro_input!(item as ItemStruct);
    let vis = s.vis.clone();
    let name = s.ident.clone();
    let attrs: Vec<_> = s.attrs.iter().filter(|a| !a.path().is_ident("derive")).cloned().collect();
    let derives_debug = o.debug || s.attrs.iter().any(|a| a.path().is_ident("derive") && quote!(#a).to_string().contains("Debug"));
    let builder = format_ident!("{}Builder", name);
    let mut getters = vec![];
    let mut fnames = vec![];
    let mut ftys = vec![];
    let mut durs = vec![];
    let mut dur_setters = vec![];
    let mut dur_names = vec![];
    for (i, f) in s.fields.iter_mut().enumerate() {
        let how = field_returns(f);
        let fname = f.ident.clone().unwrap();
        let fty = f.ty.clone();
        getters.push(getter(&f.vis, &fname, &fty, &how, &quote!(), quote!({
            ::salsa::plumbing::input_field::<#fty>(::salsa::plumbing::ZalsaDatabase::zalsa(__db), self.0, #i)
        })));
        let setter = format_ident!("set_{}", fname);
        let fvis = &f.vis;
        getters.push(quote! {
            #[must_use]
            #fvis fn #setter<'__g>(self, __db: &'__g mut (impl ?Sized + ::salsa::Database)) -> ::salsa::plumbing::SetterImpl<'__g, #fty> {
                ::salsa::plumbing::SetterImpl::<'__g, #fty>::new(::salsa::plumbing::ZalsaDatabase::zalsa_mut(__db), self.0, #i)
            }
        });
        let dn = format_ident!("{}_durability", fname);
        dur_setters.push(quote!(#[must_use] pub fn #dn(mut self, d: ::salsa::Durability) -> Self { self.durs[#i] = d; self }));
        dur_names.push(dn);
        durs.push(i);
        fnames.push(fname);
        ftys.push(fty);
    }
    let n = durs.len();
    let dbg = if derives_debug {
        quote!(impl ::core::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                write!(f, "{}({})", stringify!(#name), self.0)
            }
        })
    } else { quote!() };
    // edition-2021 users: `impl use<>` capture above needs type params captured too, so avoid `impl Trait` args there.
    let getters: Vec<TS2> = getters;
    let _ = &getters;
    let setters_fixed: Vec<TS2> = getters
        .iter()
        .map(|g| g.clone())
        .collect();
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #vis struct #name(u32);
        #dbg
        impl ::salsa::plumbing::AsId for #name {
            fn as_id(&self) -> ::salsa::Id { ::salsa::Id::from_u32(self.0) }
        }
        #[allow(clippy::all, dead_code)]
        impl #name {
            #vis fn new(__db: &(impl ?Sized + ::salsa::Database), #(#fnames: #ftys),*) -> Self {
                Self::builder(#(#fnames),*).new(__db)
            }
            #vis fn builder(#(#fnames: #ftys),*) -> #builder {
                #builder { fields: (#(#fnames,)*), durs: [::salsa::Durability::MIN; #n] }
            }
            #(#setters_fixed)*
        }
        #[must_use]
        #[allow(clippy::all, dead_code)]
        #vis struct #builder { fields: (#(#ftys,)*), durs: [::salsa::Durability; #n] }
        #[allow(clippy::all, dead_code)]
        impl #builder {
            pub fn durability(mut self, d: ::salsa::Durability) -> Self { self.durs = [d; #n]; self }
            #(#dur_setters)*
            pub fn new(self, __db: &(impl ?Sized + ::salsa::Database)) -> #name {
                let (#(#fnames,)*) = self.fields;
                let __vals: Vec<Box<dyn ::core::any::Any + Send + Sync>> = vec![#(Box::new(#fnames)),*];
                #name(::salsa::plumbing::new_input(::salsa::plumbing::ZalsaDatabase::zalsa(__db), __vals, &self.durs))
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn accumulator(_attr: TokenStream, item: TokenStream) -> TokenStream { item }
