//! Simulation stand-in for `#[wasm_bindgen]`.
//!
//! Turns the (unmodified) `extern "C"` binding blocks of `web-sys` into plain
//! Rust items whose bodies call `::wasm_bindgen::rt::invoke(...)`, i.e. into
//! dynamic dispatch on the in-process simulated browser.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as TS2;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::{punctuated::Punctuated, *};

#[derive(Default, Clone)]
struct Opts {
    extends: Vec<Path>,
    js_name: Option<String>,
    js_class: Option<String>,
    js_namespace: Option<String>,
    static_method_of: Option<Path>,
    method: bool,
    getter: Option<Option<String>>,
    setter: Option<Option<String>>,
    constructor: bool,
    catch: bool,
    variadic: bool,
    indexing_getter: bool,
    indexing_setter: bool,
    indexing_deleter: bool,
}

struct One {
    key: String,
    val: Option<TS2>,
    str_val: Option<String>,
}
impl Parse for One {
    fn parse(input: ParseStream) -> Result<Self> {
        let key = input.call(<Ident as syn::ext::IdentExt>::parse_any)?.to_string();
        let mut val = None;
        let mut str_val = None;
        if input.peek(Token![=]) {
            input.parse::<Token![=]>()?;
            if input.peek(LitStr) {
                let s: LitStr = input.parse()?;
                str_val = Some(s.value());
                val = s.value().parse::<TS2>().ok();
            } else if input.peek(token::Bracket) {
                let c;
                bracketed!(c in input);
                let t: TS2 = c.parse()?;
                str_val = Some(t.to_string());
                val = Some(t);
            } else {
                let e: Expr = input.parse()?;
                str_val = Some(quote!(#e).to_string());
                val = Some(quote!(#e));
            }
        } else if input.peek(token::Paren) {
            let c;
            parenthesized!(c in input);
            let _: TS2 = c.parse()?;
        }
        Ok(One { key, val, str_val })
    }
}
impl Parse for Opts {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut o = Opts::default();
        let items = Punctuated::<One, Token![,]>::parse_terminated(input)?;
        for One { key, val, str_val } in items {
            match key.as_str() {
                "extends" => o.extends.push(parse2(val.unwrap())?),
                "js_name" => o.js_name = str_val,
                "js_class" => o.js_class = str_val,
                "js_namespace" => o.js_namespace = str_val,
                "static_method_of" => o.static_method_of = Some(parse2(val.unwrap())?),
                "method" => o.method = true,
                "getter" => o.getter = Some(str_val),
                "setter" => o.setter = Some(str_val),
                "constructor" => o.constructor = true,
                "catch" => o.catch = true,
                "variadic" => o.variadic = true,
                "indexing_getter" => o.indexing_getter = true,
                "indexing_setter" => o.indexing_setter = true,
                "indexing_deleter" => o.indexing_deleter = true,
                _ => {}
            }
        }
        Ok(o)
    }
}

fn merge(mut a: Opts, b: Opts) -> Opts {
    a.extends.extend(b.extends);
    a.js_name = b.js_name.or(a.js_name);
    a.js_class = b.js_class.or(a.js_class);
    a.js_namespace = b.js_namespace.or(a.js_namespace);
    a.static_method_of = b.static_method_of.or(a.static_method_of);
    a.getter = b.getter.or(a.getter);
    a.setter = b.setter.or(a.setter);
    a.method |= b.method;
    a.constructor |= b.constructor;
    a.catch |= b.catch;
    a.variadic |= b.variadic;
    a.indexing_getter |= b.indexing_getter;
    a.indexing_setter |= b.indexing_setter;
    a.indexing_deleter |= b.indexing_deleter;
    a
}

fn split_attrs(attrs: &[Attribute]) -> Result<(Opts, Vec<Attribute>, Vec<Attribute>)> {
    let mut o = Opts::default();
    let mut rest = vec![];
    let mut cfgs = vec![];
    for a in attrs {
        if a.path().segments.last().map(|s| s.ident == "wasm_bindgen").unwrap_or(false) {
            if let Meta::List(l) = &a.meta {
                o = merge(o, parse2(l.tokens.clone())?);
            }
        } else if a.path().is_ident("doc") {
        } else {
            if a.path().is_ident("cfg") {
                cfgs.push(a.clone());
            }
            rest.push(a.clone());
        }
    }
    Ok((o, rest, cfgs))
}

fn unraw(i: &Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").map(|x| x.to_string()).unwrap_or(s)
}

fn result_ok(ty: &Type) -> Option<Type> {
    if let Type::Path(p) = ty {
        let seg = p.path.segments.last()?;
        if seg.ident == "Result" {
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

fn gen_type(t: &ForeignItemType) -> Result<TS2> {
    let (o, rest, cfgs) = split_attrs(&t.attrs)?;
    let vis = &t.vis;
    let name = &t.ident;
    let js = o.js_name.clone().unwrap_or_else(|| unraw(name));
    let target = match o.extends.first() {
        Some(p) => quote!(#p),
        None => quote!(::wasm_bindgen::JsValue),
    };
    let ext = o.extends.iter().map(|p| {
        quote! {
            #(#cfgs)* impl ::core::convert::AsRef<#p> for #name {
                fn as_ref(&self) -> &#p { ::wasm_bindgen::JsCast::unchecked_ref(self) }
            }
            #(#cfgs)* impl ::core::convert::From<#name> for #p {
                fn from(v: #name) -> #p { ::wasm_bindgen::JsCast::unchecked_into(v) }
            }
        }
    });
    Ok(quote! {
        #(#rest)*
        #[repr(transparent)]
        #vis struct #name { obj: ::wasm_bindgen::JsValue }
        #(#cfgs)* impl ::core::convert::AsRef<::wasm_bindgen::JsValue> for #name {
            fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.obj }
        }
        #(#cfgs)* impl ::core::convert::AsRef<#name> for #name {
            fn as_ref(&self) -> &#name { self }
        }
        #(#cfgs)* impl ::core::convert::From<#name> for ::wasm_bindgen::JsValue {
            fn from(v: #name) -> ::wasm_bindgen::JsValue { v.obj }
        }
        #(#cfgs)* impl ::core::convert::From<::wasm_bindgen::JsValue> for #name {
            fn from(v: ::wasm_bindgen::JsValue) -> #name { #name { obj: v } }
        }
        #(#cfgs)* impl ::core::ops::Deref for #name {
            type Target = #target;
            fn deref(&self) -> &#target { ::wasm_bindgen::JsCast::unchecked_ref(self) }
        }
        #(#cfgs)* impl ::wasm_bindgen::JsCast for #name {
            fn instanceof(val: &::wasm_bindgen::JsValue) -> bool { ::wasm_bindgen::rt::instance_of(val, #js) }
            fn unchecked_from_js(val: ::wasm_bindgen::JsValue) -> Self { #name { obj: val } }
            fn unchecked_from_js_ref(val: &::wasm_bindgen::JsValue) -> &Self {
                // SAFETY: repr(transparent) over JsValue
                unsafe { &*(val as *const ::wasm_bindgen::JsValue as *const Self) }
            }
        }
        #(#cfgs)* impl ::wasm_bindgen::rt::IntoJs for #name {
            fn into_js(self) -> ::wasm_bindgen::JsValue { self.obj }
        }
        #(#cfgs)* impl<'a> ::wasm_bindgen::rt::IntoJs for &'a #name {
            fn into_js(self) -> ::wasm_bindgen::JsValue { ::core::clone::Clone::clone(&self.obj) }
        }
        #(#cfgs)* impl ::wasm_bindgen::rt::FromJs for #name {
            fn from_js(v: ::wasm_bindgen::JsValue) -> Self { #name { obj: v } }
        }
        #(#ext)*
    })
}

fn gen_fn(f: &ForeignItemFn) -> Result<TS2> {
    let (o, rest, cfgs) = split_attrs(&f.attrs)?;
    let vis = &f.vis;
    let sig = &f.sig;
    let name = &sig.ident;
    let generics = &sig.generics;
    let wh = &sig.generics.where_clause;
    let ret_ty: Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    let rn = unraw(name);
    let mut inputs: Vec<(Ident, Type)> = vec![];
    for (i, a) in sig.inputs.iter().enumerate() {
        if let FnArg::Typed(p) = a {
            let id = match &*p.pat {
                Pat::Ident(pi) => pi.ident.clone(),
                _ => format_ident!("arg{}", i),
            };
            inputs.push((id, (*p.ty).clone()));
        }
    }
    let is_method = o.method || o.getter.is_some() && !inputs.is_empty() || o.setter.is_some() && inputs.len() > 1
        || o.indexing_getter || o.indexing_setter || o.indexing_deleter;
    let this_ty: Option<Type> = if is_method && o.static_method_of.is_none() {
        let (_, t) = inputs.remove(0);
        match t {
            Type::Reference(r) => Some(*r.elem),
            t => Some(t),
        }
    } else {
        None
    };
    let class = o
        .js_class
        .clone()
        .or(o.js_namespace.clone())
        .or_else(|| o.static_method_of.as_ref().map(|p| p.segments.last().unwrap().ident.to_string()))
        .unwrap_or_default();
    let (kind, jname) = if o.constructor {
        (quote!(Ctor), String::new())
    } else if let Some(g) = &o.getter {
        (quote!(Getter), g.clone().or(o.js_name.clone()).unwrap_or(rn.clone()))
    } else if let Some(s) = &o.setter {
        let base = rn.strip_prefix("set_").unwrap_or(&rn).to_string();
        (quote!(Setter), s.clone().or(o.js_name.clone()).unwrap_or(base))
    } else if o.indexing_getter {
        (quote!(IndexGet), String::new())
    } else if o.indexing_setter {
        (quote!(IndexSet), String::new())
    } else if o.indexing_deleter {
        (quote!(IndexDel), String::new())
    } else if this_ty.is_some() {
        (quote!(Method), o.js_name.clone().unwrap_or(rn.clone()))
    } else {
        (quote!(Static), o.js_name.clone().unwrap_or(rn.clone()))
    };
    let arg_names: Vec<_> = inputs.iter().map(|(i, _)| i.clone()).collect();
    let arg_tys: Vec<_> = inputs.iter().map(|(_, t)| t.clone()).collect();
    let variadic = o.variadic;
    let this_expr = if this_ty.is_some() {
        quote!(::core::option::Option::Some(::core::convert::AsRef::<::wasm_bindgen::JsValue>::as_ref(self)))
    } else {
        quote!(::core::option::Option::None)
    };
    let call = quote! {
        ::wasm_bindgen::rt::invoke(
            ::wasm_bindgen::rt::Kind::#kind, #class, #jname, #this_expr,
            ::wasm_bindgen::rt::args(#variadic, [#(::wasm_bindgen::rt::IntoJs::into_js(#arg_names)),*]),
        )
    };
    let (tail, ok_ty) = if o.catch {
        let ok = result_ok(&ret_ty).unwrap_or(parse_quote!(()));
        (quote!(#call.map(::wasm_bindgen::rt::FromJs::from_js)), ok)
    } else {
        (quote!(::wasm_bindgen::rt::FromJs::from_js(::wasm_bindgen::rt::uncaught(#call))), ret_ty.clone())
    };
    let self_param = if this_ty.is_some() { quote!(&self,) } else { quote!() };
    let item = quote! {
        #(#rest)*
        #[allow(nonstandard_style, clippy::all)]
        #vis fn #name #generics (#self_param #(#arg_names: #arg_tys),*) -> #ret_ty #wh { #tail }
    };
    let holder = if let Some(t) = this_ty {
        Some(t)
    } else if o.constructor {
        Some(ok_ty)
    } else {
        o.static_method_of.as_ref().map(|p| parse_quote!(#p))
    };
    Ok(match holder {
        Some(t) => quote! { #(#cfgs)* impl #t { #item } },
        None => item,
    })
}

fn gen_enum(e: &ItemEnum) -> TS2 {
    let mut pairs = vec![];
    for v in &e.variants {
        if let Some((_, Expr::Lit(ExprLit { lit: Lit::Str(s), .. }))) = &v.discriminant {
            pairs.push((v.ident.clone(), s.value()));
        }
    }
    if pairs.len() != e.variants.len() || pairs.is_empty() {
        return quote!(#e);
    }
    let attrs = e.attrs.iter().filter(|a| !a.path().is_ident("doc"));
    let vis = &e.vis;
    let name = &e.ident;
    let ids: Vec<_> = pairs.iter().map(|p| &p.0).collect();
    let ss: Vec<_> = pairs.iter().map(|p| &p.1).collect();
    quote! {
        #(#attrs)*
        #[non_exhaustive]
        #vis enum #name { #(#ids,)* #[doc(hidden)] __Invalid }
        impl ::wasm_bindgen::rt::IntoJs for #name {
            fn into_js(self) -> ::wasm_bindgen::JsValue {
                #[allow(unreachable_patterns)]
                match self { #(#name::#ids => ::wasm_bindgen::JsValue::from_str(#ss),)* _ => ::wasm_bindgen::JsValue::UNDEFINED }
            }
        }
        impl ::wasm_bindgen::rt::FromJs for #name {
            fn from_js(v: ::wasm_bindgen::JsValue) -> Self {
                match v.as_string().as_deref() { #(Some(#ss) => #name::#ids,)* _ => #name::__Invalid }
            }
        }
        impl ::core::convert::From<#name> for ::wasm_bindgen::JsValue {
            fn from(v: #name) -> Self { ::wasm_bindgen::rt::IntoJs::into_js(v) }
        }
    }
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as Item);
    let out = match item {
        Item::ForeignMod(m) => {
            let mut out = TS2::new();
            for it in &m.items {
                let r = match it {
                    ForeignItem::Type(t) => gen_type(t),
                    ForeignItem::Fn(f) => gen_fn(f),
                    _ => Ok(quote!()),
                };
                out.extend(r.unwrap_or_else(|e| e.to_compile_error()));
            }
            out
        }
        Item::Enum(e) => gen_enum(&e),
        other => quote!(#other),
    };
    out.into()
}
