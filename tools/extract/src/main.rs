//! Mechanical extractor: rustc-expanded library source + contract files -> one Verus crate.
//!
//! Everything this tool drops, renames or inserts is listed in DESIGN.md ("What the extraction does").
//! usage: extract EXPANDED.rs SPECDIR OUT.rs MAP.json [--names]

mod rewrite;
mod spec;

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use spec::{FnSpec, Specs};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Texts {
    pub texts: Vec<String>,
}

impl Texts {
    pub fn add(&mut self, s: String) -> proc_macro2::Ident {
        let n = self.texts.len();
        self.texts.push(s);
        quote::format_ident!("__VP_{}__", n)
    }
}

pub fn ty_key(t: &Type) -> String {
    let mut t = t.clone();
    struct L;
    impl VisitMut for L {
        fn visit_type_mut(&mut self, t: &mut Type) {
            syn::visit_mut::visit_type_mut(self, t);
        }
        fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
            syn::visit_mut::visit_path_segment_mut(self, s);
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let args: Vec<_> = a
                    .args
                    .iter()
                    .filter(|x| !matches!(x, GenericArgument::Lifetime(_)))
                    .cloned()
                    .collect();
                if args.is_empty() {
                    s.arguments = PathArguments::None;
                } else {
                    a.args = args.into_iter().collect();
                }
            }
        }
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            syn::visit_mut::visit_type_reference_mut(self, r);
            r.lifetime = None;
        }
    }
    L.visit_type_mut(&mut t);
    t.to_token_stream().to_string().replace(' ', "")
}

struct FnInfo {
    key: String,
    start: usize,
    end: usize,
    has_spec: bool,
    external: bool,
    hash: u64,
    params: Vec<String>,
    locals: Vec<String>,
    loops: Vec<String>,
    closures: usize,
    lost: Vec<String>,
    calls: Vec<String>,
}

struct Emit {
    out: String,
    line: usize,
    texts: Texts,
    specs: Specs,
    names: BTreeMap<String, (Vec<String>, Vec<String>)>,
    fns: Vec<FnInfo>,
    lost: Vec<String>,
    derived: BTreeMap<String, BTreeSet<String>>,
    dropped: Vec<String>,
    lifetimed: BTreeSet<String>,
    forced: BTreeSet<String>,
    bare: BTreeSet<String>,
    hoisted: Vec<(String, ItemFn)>,
}

/// types of constants are spelled with explicit lifetimes
struct Statics<'a>(&'a BTreeSet<String>);
impl VisitMut for Statics<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        syn::visit_mut::visit_type_mut(self, t);
        match t {
            Type::Reference(r) if r.lifetime.is_none() => r.lifetime = Some(parse_quote!('static)),
            Type::Path(p) => {
                let l = p.path.segments.last_mut().unwrap();
                if l.arguments.is_empty() && self.0.contains(&l.ident.to_string()) {
                    l.arguments = PathArguments::AngleBracketed(parse_quote!(<'static>));
                }
            }
            _ => {}
        }
    }
}

fn collect_lifetimed(items: &[Item], m: &mut BTreeSet<String>) {
    for i in items {
        match i {
            Item::Mod(mm) => {
                if let Some((_, it)) = &mm.content {
                    collect_lifetimed(it, m)
                }
            }
            Item::Struct(s) if s.generics.lifetimes().count() == 1 => {
                m.insert(s.ident.to_string());
            }
            _ => {}
        }
    }
}

impl Emit {
    fn nl(&mut self) {
        self.out.push('\n');
        self.line += 1;
    }
    fn raw(&mut self, s: &str) {
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }
    fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if let Some(n) = s.strip_prefix("__VP_").and_then(|x| x.strip_suffix("__")) {
                        let n: usize = n.parse().unwrap();
                        let t = self.texts.texts[n].clone();
                        self.nl();
                        self.raw(&t);
                        self.nl();
                        if let Some(TokenTree::Punct(p)) = v.get(i + 1) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                    } else {
                        self.out.push_str(&s);
                        self.out.push(' ');
                    }
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    self.raw(&s);
                    self.out.push(' ');
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ") "),
                        Delimiter::Bracket => ("[", "] "),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    self.out.push_str(o);
                    if g.delimiter() == Delimiter::Brace {
                        self.nl();
                    }
                    self.tokens(g.stream());
                    self.out.push_str(c);
                    if g.delimiter() == Delimiter::Brace {
                        self.nl();
                    }
                }
            }
            i += 1;
        }
    }
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn trait_key(p: &Path) -> String {
    let s = p.segments.last().unwrap();
    let t = Type::Path(TypePath {
        qself: None,
        path: Path { leading_colon: None, segments: std::iter::once(s.clone()).collect() },
    });
    ty_key(&t)
}

fn is_derived(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

impl Emit {
    fn modtext(&mut self, m: &str) {
        for t in self.specs.take_all(&format!("mod {}", m)) {
            self.raw(&t);
            self.nl();
        }
    }

    fn items(&mut self, modpath: &str, items: Vec<Item>) {
        self.modtext(modpath);
        for i in items {
            self.item(modpath, i);
        }
    }

    fn path(modpath: &str, n: &str) -> String {
        if modpath.is_empty() {
            n.to_string()
        } else {
            format!("{}::{}", modpath, n)
        }
    }

    fn item(&mut self, modpath: &str, it: Item) {
        match it {
            Item::ExternCrate(_) | Item::Macro(_) => {}
            Item::Use(u) => {
                for p in rewrite::flatten_use(&u) {
                    self.raw(&format!("{}\n", p));
                }
            }
            Item::Mod(m) => {
                if let Some((_, items)) = m.content {
                    let name = m.ident.to_string();
                    let mp = Self::path(modpath, &name);
                    self.raw(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vp::*;\n#[allow(unused_imports)] use crate::vs_all::*;\nbroadcast use crate::vp::group_vp;\n", name));
                    self.items(&mp, items);
                    self.raw(&format!("}} // mod {}\n", mp));
                }
            }
            Item::Const(c) => {
                let key = Self::path(modpath, &c.ident.to_string());
                let id = &c.ident;
                let mut ty = (*c.ty).clone();
                let mut e = (*c.expr).clone();
                Statics(&self.lifetimed).visit_type_mut(&mut ty);
                let mut rw = rewrite::Rewriter::new(&mut self.texts, FnSpec::default());
                rw.visit_type_mut(&mut ty);
                rw.visit_expr_mut(&mut e);
                if let Some(t) = self.specs.take(&format!("const {}", key)) {
                    let ph = self.texts.add(t);
                    self.tokens(quote!(pub exec const #id : #ty #ph { #e }));
                } else {
                    self.tokens(quote!(pub const #id : #ty = #e ;));
                }
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                let mut rw = rewrite::Rewriter::new(&mut self.texts, FnSpec::default());
                rw.visit_type_mut(&mut t.ty);
                self.tokens(t.to_token_stream());
            }
            Item::Struct(mut s) => {
                let key = Self::path(modpath, &s.ident.to_string());
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                self.derives(&key, false);
                let mut it = Item::Struct(s);
                let mut rw = rewrite::Rewriter::new(&mut self.texts, FnSpec::default());
                rw.visit_item_mut(&mut it);
                self.tokens(it.to_token_stream());
            }
            Item::Enum(mut s) => {
                let key = Self::path(modpath, &s.ident.to_string());
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                let mut unit = true;
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    if !v.fields.is_empty() {
                        unit = false;
                    }
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                self.derives(&key, unit);
                let mut it = Item::Enum(s);
                let mut rw = rewrite::Rewriter::new(&mut self.texts, FnSpec::default());
                rw.visit_item_mut(&mut it);
                self.tokens(it.to_token_stream());
            }
            Item::Trait(mut t) => {
                let key = Self::path(modpath, &t.ident.to_string());
                t.attrs.clear();
                let id = &t.ident;
                let (_g, _ty, wc) = t.generics.split_for_impl();
                let gen = &t.generics;
                let sup = &t.supertraits;
                let colon = if sup.is_empty() { quote!() } else { quote!(: #sup) };
                self.tokens(quote!(pub trait #id #gen #colon #wc));
                self.raw("{\n");
                for x in self.specs.take_all(&format!("trait {}", key)) {
                    self.raw(&x);
                    self.nl();
                }
                for ti in t.items {
                    match ti {
                        TraitItem::Fn(mut f) => {
                            name_impl_args(&mut f.sig);
                            self.function(
                                Self::path(&key, &f.sig.ident.to_string()),
                                None,
                                f.sig,
                                f.default,
                            );
                        }
                        TraitItem::Const(mut c) => {
                            c.attrs.clear();
                            self.tokens(c.to_token_stream());
                        }
                        TraitItem::Type(mut c) => {
                            c.attrs.clear();
                            self.tokens(c.to_token_stream());
                        }
                        o => self.tokens(o.to_token_stream()),
                    }
                    self.nl();
                }
                self.raw("}\n");
            }
            Item::Impl(mut im) => {
                let tk = ty_key(&im.self_ty);
                if is_derived(&im.attrs) {
                    let tr = im.trait_.as_ref().map(|t| last_seg(&t.1)).unwrap_or_default();
                    if let Some(t) =
                        self.specs.take(&format!("derive {} {}", Self::path(modpath, &tk), tr))
                    {
                        self.raw(&t);
                        self.nl();
                    }
                    return;
                }
                im.attrs.clear();
                let key = match &im.trait_ {
                    Some((_, p, _)) => {
                        let l = last_seg(p);
                        let full = p.to_token_stream().to_string();
                        if modpath == "error" && (l == "Display" || l == "Debug" || (l == "Error" && full.contains("error")))
                        {
                            self.dropped.push(format!("impl {} for {}", l, tk));
                            return;
                        }
                        Self::path(modpath, &format!("<{} as {}>", tk, trait_key(p)))
                    }
                    None => Self::path(modpath, &tk),
                };
                {
                    let mut rw = rewrite::Rewriter::new(&mut self.texts, FnSpec::default());
                    rw.visit_generics_mut(&mut im.generics);
                    rw.visit_type_mut(&mut im.self_ty);
                    if let Some((_, p, _)) = &mut im.trait_ {
                        rw.visit_path_mut(p);
                    }
                }
                for x in self.specs.take_all(&format!("before {}", key)) {
                    self.raw(&x);
                    self.nl();
                }
                let gen = &im.generics;
                let wc = &im.generics.where_clause;
                let st = &im.self_ty;
                match &im.trait_ {
                    Some((_, p, _)) => self.tokens(quote!(impl #gen #p for #st #wc)),
                    None => self.tokens(quote!(impl #gen #st #wc)),
                }
                self.raw("{\n");
                for x in self.specs.take_all(&format!("impl {}", key)) {
                    self.raw(&x);
                    self.nl();
                }
                let is_trait = im.trait_.is_some();
                for ii in im.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            let vis = if is_trait { None } else { Some(quote!(pub)) };
                            let mut f = f;
                            if is_trait {
                                name_impl_args(&mut f.sig);
                            }
                            self.function(
                                Self::path(&key, &f.sig.ident.to_string()),
                                vis,
                                f.sig,
                                Some(f.block),
                            );
                        }
                        ImplItem::Const(mut c) => {
                            c.attrs.clear();
                            self.tokens(c.to_token_stream());
                        }
                        ImplItem::Type(mut c) => {
                            c.attrs.clear();
                            self.tokens(c.to_token_stream());
                        }
                        o => self.tokens(o.to_token_stream()),
                    }
                    self.nl();
                }
                self.raw("}\n");
                self.emit_hoisted();
            }
            Item::Fn(f) => {
                self.function(
                    Self::path(modpath, &f.sig.ident.to_string()),
                    Some(quote!(pub)),
                    f.sig,
                    Some(*f.block),
                );
                self.emit_hoisted();
            }
            o => {
                let s = o.to_token_stream().to_string();
                self.lost.push(format!("unknown item: {}", &s[..s.len().min(80)]));
            }
        }
    }

    fn derives(&mut self, key: &str, unit_enum: bool) {
        let d = self.derived.get(key).cloned().unwrap_or_default();
        let mut l: Vec<&str> = vec![];
        if d.contains("Copy") {
            l.push("Clone");
            l.push("Copy");
        }
        if (d.contains("Copy") || unit_enum) && d.contains("PartialEq") {
            l.push("PartialEq");
            l.push("Eq");
        }
        if !l.is_empty() {
            self.raw(&format!("#[derive({})]\n", l.join(", ")));
        }
        for x in self.specs.take_all(&format!("attr {}", key)) {
            self.raw(&x);
            self.nl();
        }
    }

    fn emit_hoisted(&mut self) {
        while let Some((key, f)) = self.hoisted.pop() {
            self.function(key, Some(quote!(pub)), f.sig, Some(*f.block));
        }
    }

    fn function(
        &mut self,
        key: String,
        vis: Option<TokenStream>,
        mut sig: Signature,
        body: Option<Block>,
    ) {
        let h = hash(&format!("{} {}", sig.to_token_stream(), body.to_token_stream()));
        let mut body = body;
        if let Some(b) = &mut body {
            // functions declared inside a function are emitted behind it
            for f in rewrite::nested_fns(b) {
                self.hoisted.push((format!("{}::{}", key, f.sig.ident), f));
            }
        }
        let params = rewrite::param_names(&sig);
        let locals = body.as_ref().map(rewrite::local_names).unwrap_or_default();
        let calls = body.as_ref().map(rewrite::call_names).unwrap_or_default();
        let sp0 = self.specs.take_fn(&key);
        let has_spec = sp0.is_some();
        let mut sp = sp0.unwrap_or_default();
        if sp.flags.contains("drop") {
            self.dropped.push(key);
            return;
        }
        let mut lost = vec![];
        let forced = self.forced.contains(&key);
        if self.bare.contains(&key) && !(sp.loops.is_empty() && sp.closures.is_empty() && sp.at.is_empty()) {
            // the driver found a proof hint that no longer fits: contract kept, hints dropped
            sp.loops.clear();
            sp.closures.clear();
            sp.at.clear();
            lost.push("the proof hints do not fit the changed body".into());
        }
        let mut newlocals = false;
        // renamed parameters / local variables
        if has_spec {
            if let Some((bp, bl)) = self.names.get(&key) {
                let mut map: BTreeMap<String, String> = BTreeMap::new();
                if bp.len() == params.len() {
                    for (a, b) in bp.iter().zip(&params) {
                        if a != b {
                            map.insert(a.clone(), b.clone());
                        }
                    }
                }
                newlocals = locals.iter().any(|a| !bl.contains(a)) && bl.len() < locals.len();
                if bl.len() == locals.len() {
                    for (a, b) in bl.iter().zip(&locals) {
                        if a != b && !locals.contains(a) {
                            map.insert(a.clone(), b.clone());
                        }
                    }
                } else {
                    // one or more declarations inserted or removed: align the common prefix/suffix
                    let missing: Vec<_> = bl.iter().filter(|a| !locals.contains(a)).collect();
                    let fresh: Vec<_> = locals.iter().filter(|a| !bl.contains(a)).collect();
                    if missing.len() == fresh.len() {
                        for (a, b) in missing.iter().zip(fresh.iter()) {
                            map.insert(a.to_string(), b.to_string());
                        }
                    }
                }
                if !map.is_empty() {
                    sp.rename(&map);
                }
            }
        }
        let start = self.line;
        let mut nloops = 0;
        let mut shape = vec![];
        let mut nclosures = 0;
        if let Some(b) = &mut body {
            rewrite::file_model(&mut sig, b, &mut lost);
            rewrite::disk_model(&mut sig, b);
            rewrite::NormLoops.visit_block_mut(b);
            shape = rewrite::loop_shape(b);
            rewrite::anchors(b, &sp, &mut self.texts, &mut lost);
            let mut rw = rewrite::Rewriter::new(&mut self.texts, sp.clone());
            rw.visit_signature_mut(&mut sig);
            rw.visit_block_mut(b);
            nloops = rw.nloops;
            nclosures = rw.nclosures;
            for k in sp.loops.keys() {
                if *k >= nloops {
                    lost.push(format!("loop {}", k));
                }
            }
            for k in sp.closures.keys() {
                if *k >= nclosures {
                    lost.push(format!("closure {}", k));
                }
            }
        } else {
            let mut rw = rewrite::Rewriter::new(&mut self.texts, sp.clone());
            rw.visit_signature_mut(&mut sig);
        }
        let external = sp.flags.contains("external");
        self.raw(&format!("// @fn {}\n", key));
        if external {
            self.raw("#[verifier::external_body]\n");
        } else if newlocals && nloops > 0 && !forced {
            // what is known of a newly introduced local variable is not stated by any loop invariant
            self.raw("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
        }
        for a in &sp.attrs {
            self.raw(&format!("{}\n", a));
        }
        let c = if sp.flags.contains("noconst") { None } else { sig.constness };
        let id = &sig.ident;
        let (_, _, wc) = sig.generics.split_for_impl();
        let gen = &sig.generics;
        let inputs = &sig.inputs;
        let ret = match &sig.output {
            ReturnType::Default => match &sp.ret_unit {
                _ => quote!(),
            },
            ReturnType::Type(_, t) => {
                let r = quote::format_ident!("{}", if sp.ret.is_empty() { "r" } else { &sp.ret });
                quote!( -> (#r : #t))
            }
        };
        self.tokens(quote!(#vis #c fn #id #gen ( #inputs ) #ret #wc));
        self.nl();
        if !sp.spec.is_empty() {
            let s = sp.spec.clone();
            self.raw(&s);
            self.nl();
        }
        match body {
            Some(b) => {
                if external {
                    self.raw("{ unimplemented!() }\n");
                } else if forced {
                    // not external_body: Verus would emit it before the axioms of the conversion and equality traits
                    self.raw("{ crate::vp_forced::vp_unsupported() }\n");
                } else {
                    self.tokens(b.to_token_stream());
                }
            }
            None => self.raw(";\n"),
        }
        self.nl();
        let end = self.line;
        for l in &lost {
            self.lost.push(format!("{}: {}", key, l));
        }
        self.fns.push(FnInfo {
            key,
            start,
            end,
            has_spec,
            external: external || forced,
            hash: h,
            params,
            locals,
            loops: shape,
            closures: nclosures,
            lost,
            calls,
        });
    }
}

fn collect_derived(modpath: &str, items: &[Item], m: &mut BTreeMap<String, BTreeSet<String>>) {
    for i in items {
        match i {
            Item::Mod(mm) => {
                if let Some((_, it)) = &mm.content {
                    collect_derived(&Emit::path(modpath, &mm.ident.to_string()), it, m)
                }
            }
            Item::Impl(im) if is_derived(&im.attrs) => {
                if let Some((_, p, _)) = &im.trait_ {
                    m.entry(Emit::path(modpath, &ty_key(&im.self_ty)))
                        .or_default()
                        .insert(last_seg(p));
                }
            }
            _ => {}
        }
    }
}

/// Spec-side companions (`obeys_* == false`, i.e. no claim) that vstd demands of user impls of
/// From, TryFrom and PartialEq.  They sit in front of everything else, because Verus otherwise
/// checks a function that is reachable from an earlier one before it has emitted them.
fn spec_impls(e: &mut Emit, modpath: &str, items: &[Item]) {
    let mut open = false;
    for i in items {
        match i {
            Item::Mod(mm) => {
                if let Some((_, it)) = &mm.content {
                    spec_impls(e, &Emit::path(modpath, &mm.ident.to_string()), it)
                }
            }
            Item::Impl(im) if !is_derived(&im.attrs) && im.trait_.is_some() => {
                let mut im = im.clone();
                let tk = ty_key(&im.self_ty);
                {
                    let mut rw = rewrite::Rewriter::new(&mut e.texts, FnSpec::default());
                    rw.visit_generics_mut(&mut im.generics);
                    rw.visit_type_mut(&mut im.self_ty);
                }
                let (_, p, _) = im.trait_.as_mut().unwrap();
                let key = Emit::path(modpath, &format!("<{} as {}>", tk, trait_key(p)));
                if e.specs.peek(&format!("before {}", key)).contains("SpecImpl") {
                    continue;
                }
                {
                    let mut rw = rewrite::Rewriter::new(&mut e.texts, FnSpec::default());
                    rw.visit_path_mut(p);
                }
                let (g, st, wc) = (&im.generics, &im.self_ty, &im.generics.where_clause);
                let arg = p.segments.last().map(|s| match &s.arguments {
                    syn::PathArguments::AngleBracketed(a) => a.args.to_token_stream(),
                    _ => quote!(Self),
                });
                let ts = match last_seg(p).as_str() {
                    "From" => quote!(impl #g vstd::std_specs::convert::FromSpecImpl<#arg> for #st #wc {
                        open spec fn obeys_from_spec() -> bool { false }
                        open spec fn from_spec(v: #arg) -> Self { arbitrary() }
                    }),
                    "TryFrom" => quote!(impl #g vstd::std_specs::convert::TryFromSpecImpl<#arg> for #st #wc {
                        open spec fn obeys_try_from_spec() -> bool { false }
                        open spec fn try_from_spec(v: #arg) -> Result<Self, Self::Error> { arbitrary() }
                    }),
                    "PartialEq" => quote!(impl #g vstd::std_specs::cmp::PartialEqSpecImpl<#arg> for #st #wc {
                        open spec fn obeys_eq_spec() -> bool { false }
                        open spec fn eq_spec(&self, o: & #arg) -> bool { arbitrary() }
                    }),
                    _ => continue,
                };
                if !open {
                    open = true;
                    let n = modpath.replace("::", "_");
                    let m = if modpath.is_empty() { String::new() } else { format!("{}::", modpath) };
                    e.raw(&format!("pub mod si_{n} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::{m}*;\n"));
                }
                e.tokens(ts);
                e.nl();
            }
            _ => {}
        }
    }
    if open {
        e.raw("}\n");
    }
}

/// `x: &mut impl A` as `x: &mut __T0` with `__T0: A`: contracts inherited from a trait only work
/// for type parameters that have a name.
fn name_impl_args(sig: &mut syn::Signature) {
    struct V(Vec<syn::GenericParam>);
    impl VisitMut for V {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::ImplTrait(i) = t {
                let n = quote::format_ident!("__T{}", self.0.len());
                let b = &i.bounds;
                self.0.push(parse_quote!(#n: #b));
                *t = parse_quote!(#n);
            } else {
                syn::visit_mut::visit_type_mut(self, t);
            }
        }
    }
    let mut v = V(vec![]);
    for i in &mut sig.inputs {
        if let syn::FnArg::Typed(p) = i {
            v.visit_type_mut(&mut p.ty);
        }
    }
    sig.generics.params.extend(v.0);
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let specs = Specs::load(&a[2]);
    let names = spec::load_names(&format!("{}/names.txt", a[2]));
    let file = syn::parse_file(&src).expect("cannot parse the expanded source");
    let mut derived = BTreeMap::new();
    collect_derived("", &file.items, &mut derived);
    // functions outside the supported subset, named by the driver: contract assumed, body left out
    let forced = a.iter().zip(a.iter().skip(1)).filter(|(x, _)| *x == "--external").map(|(_, k)| k.clone()).collect();
    let bare = a.iter().zip(a.iter().skip(1)).filter(|(x, _)| *x == "--bare").map(|(_, k)| k.clone()).collect();
    let mut e = Emit {
        forced,
        bare,
        hoisted: vec![],
        out: String::new(),
        line: 1,
        texts: Texts { texts: vec![] },
        specs,
        names,
        fns: vec![],
        lost: vec![],
        derived,
        dropped: vec![],
        lifetimed: BTreeSet::new(),
    };
    collect_lifetimed(&file.items, &mut e.lifetimed);
    e.raw("#![allow(warnings)]\n#![feature(allocator_api)]\n");
    for t in e.specs.take_all("head") {
        e.raw(&t);
        e.nl();
    }
    e.raw("use vstd::prelude::*;\nverus! {\n#[allow(unused_imports)] use crate::vp::*;\n#[allow(unused_imports)] use crate::vs_all::*;\nbroadcast use crate::vp::group_vp;\n");
    e.raw("pub mod si { pub mod si {\n");
    spec_impls(&mut e, "", &file.items);
    e.raw("}}\n");
    for t in e.specs.take_all("prelude") {
        e.raw(&t);
        e.nl();
    }
    if !e.forced.is_empty() {
        // only when the driver had to leave a body out; such a function counts as undecided
        e.raw("pub mod vp_forced { use vstd::prelude::*;\n#[verifier::external_body]\npub const fn vp_unsupported<A>() -> (r: A)\n    ensures false\n{ panic!() }\n}\n");
    }
    e.items("", file.items);
    for t in e.specs.take_all("tail") {
        e.raw(&t);
        e.nl();
    }
    e.raw("} // verus!\nfn main() {}\n");
    std::fs::write(&a[3], &e.out).unwrap();
    let unused = e.specs.unused();
    let mut j = String::from("{\"fns\":[\n");
    for (i, f) in e.fns.iter().enumerate() {
        if i > 0 {
            j.push_str(",\n");
        }
        j.push_str(&format!(
            "{{\"key\":{},\"start\":{},\"end\":{},\"spec\":{},\"external\":{},\"hash\":\"{:016x}\",\"params\":{},\"locals\":{},\"loops\":{},\"closures\":{},\"lost\":{},\"calls\":{}}}",
            jstr(&f.key), f.start, f.end, f.has_spec, f.external, f.hash, jlist(&f.params), jlist(&f.locals), jlist(&f.loops), f.closures, jlist(&f.lost), jlist(&f.calls)
        ));
    }
    j.push_str(&format!(
        "],\n\"lost\":{},\n\"unused\":{},\n\"dropped\":{}}}\n",
        jlist(&e.lost),
        jlist(&unused),
        jlist(&e.dropped)
    ));
    std::fs::write(&a[4], j).unwrap();
    if a.iter().any(|x| x == "--names") {
        let mut s = String::new();
        for f in &e.fns {
            s.push_str(&format!("{}|{}|{}\n", f.key, f.params.join(" "), f.locals.join(" ")));
        }
        std::fs::write(format!("{}/names.txt", a[2]), s).unwrap();
    }
}
