//! Walks the module tree and produces the edited text.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::parse::{Parse, ParseStream};
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

use crate::consts::{last_ident, wrap, Consts};
use crate::edit::{range, Edits};
use crate::overlay::{ClOv, FnOv, Mode, Overlay};

pub struct FnRep {
    key: String,
    mode: &'static str,
    listed: bool,
    loops: usize,
    loops_spec: usize,
    missing_closures: Vec<String>,
    extra_closures: Vec<String>,
    reason: String,
    /// loop kinds, bound names and closures: what proof hints are tied to
    shape: String,
    /// whether the overlay puts anything inside the body
    hints: bool,
    /// names of the parameters
    params: Vec<String>,
}

pub struct Walker {
    ov: Overlay,
    consts: Consts,
    expanded: String,
    expanded_file: File,
    used_consts: RefCell<BTreeSet<String>>,
    local_consts: BTreeMap<String, i128>,
    fns: Vec<FnRep>,
    seen: BTreeSet<String>,
    dropped: BTreeSet<String>,
    notes: Vec<String>,
    /// provided trait methods extracted as free functions, emitted after the trait
    pending: String,
    /// source text of provided trait methods, by key
    provided: BTreeMap<String, String>,
    /// associated types of impls verified as inherent impls, by self type
    assoc: BTreeMap<String, BTreeMap<String, String>>,
    /// fields of the struct of the module being walked, and whether they are MaybeUninit (option_struct! only)
    cur_fields: RefCell<Option<Vec<(String, bool)>>>,
}

fn is_cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = a.to_token_stream().to_string().replace(' ', "");
        t == "#[test]" || t == "#[cfg(test)]" || t.starts_with("#[cfg(feature=\"arbitrary\"")
    })
}

pub fn type_key(t: &Type) -> String {
    match t {
        Type::Path(p) => last_ident(&p.path),
        Type::Reference(r) => format!("&{}", type_key(&r.elem)),
        Type::Array(a) => format!("[{};{}]", type_key(&a.elem), a.len.to_token_stream()),
        Type::Slice(a) => format!("[{}]", type_key(&a.elem)),
        Type::Paren(p) => type_key(&p.elem),
        Type::Group(p) => type_key(&p.elem),
        o => o.to_token_stream().to_string(),
    }
}

pub fn impl_key(i: &ItemImpl) -> String {
    let s = match &*i.self_ty {
        Type::Path(p) => {
            let l = last_ident(&p.path);
            // distinguish impls on a concrete type argument, e.g. TrackingParseBuf<ParseBufCursor>
            match &p.path.segments.last().unwrap().arguments {
                PathArguments::AngleBracketed(a) if l == "TrackingParseBuf" || l == "Cow" => {
                    let arg = a.args.iter().find_map(|x| match x {
                        GenericArgument::Type(t) => Some(type_key(t)),
                        _ => None,
                    });
                    match arg {
                        Some(x) if x.len() > 1 && l != "Cow" => format!("{l}<{x}>"),
                        _ => l,
                    }
                }
                _ => l,
            }
        }
        t => type_key(t),
    };
    match &i.trait_ {
        None => s,
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            let mut t = seg.ident.to_string();
            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                if t == "From" || t == "TryFrom" {
                    for x in &a.args {
                        if let GenericArgument::Type(x) = x {
                            t = format!("{t}<{}>", type_key(x));
                        }
                    }
                }
            }
            format!("{s} as {t}")
        }
    }
}

fn pre(prefix: &str, k: &str) -> String {
    if prefix.is_empty() {
        k.to_string()
    } else {
        format!("{prefix}::{k}")
    }
}

struct FlagDef {
    attrs: Vec<Attribute>,
    name: Ident,
    ty: Type,
    consts: Vec<(Ident, Expr)>,
}
struct BitflagsInput(Vec<FlagDef>);
impl Parse for BitflagsInput {
    fn parse(p: ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !p.is_empty() {
            let attrs = p.call(Attribute::parse_outer)?;
            let _: Visibility = p.parse()?;
            p.parse::<Token![struct]>()?;
            let name = p.parse()?;
            p.parse::<Token![:]>()?;
            let ty = p.parse()?;
            let c;
            braced!(c in p);
            let mut consts = vec![];
            while !c.is_empty() {
                c.call(Attribute::parse_outer)?;
                c.parse::<Token![const]>()?;
                let n = c.parse()?;
                c.parse::<Token![=]>()?;
                consts.push((n, c.parse()?));
                c.parse::<Token![;]>()?;
            }
            v.push(FlagDef { attrs, name, ty, consts });
        }
        Ok(Self(v))
    }
}
struct CEnumInput(Vec<FlagDef>);
impl Parse for CEnumInput {
    fn parse(p: ParseStream) -> Result<Self> {
        let mut v = vec![];
        while !p.is_empty() {
            let attrs = p.call(Attribute::parse_outer)?;
            if p.peek(Token![impl]) {
                let _: TokenStream = p.parse()?;
                break;
            }
            let _: Visibility = p.parse()?;
            p.parse::<Token![enum]>()?;
            let name = p.parse()?;
            p.parse::<Token![:]>()?;
            let ty = p.parse()?;
            let c;
            braced!(c in p);
            let mut consts = vec![];
            while !c.is_empty() {
                c.call(Attribute::parse_outer)?;
                let n = c.parse()?;
                c.parse::<Token![=]>()?;
                consts.push((n, c.parse()?));
                if c.is_empty() {
                    break;
                }
                c.parse::<Token![,]>()?;
            }
            v.push(FlagDef { attrs, name, ty, consts });
        }
        Ok(Self(v))
    }
}

struct Ctx<'a> {
    src: &'a str,
    ed: Edits,
    /// text emitted after the verus! block (nested modules)
    after: String,
    /// directory in which `mod x;` files live
    dir: PathBuf,
    modpath: Vec<String>,
    prefix: String,
    impl_keys: BTreeSet<String>,
    /// functions made of parts of others
    parts: String,
    /// text written by rustc's expansion, not the source file
    expansion: bool,
}

impl Walker {
    pub fn new(ov: Overlay, consts: Consts, expanded: &str) -> Self {
        let expanded_file = parse_file(expanded).expect("expanded source does not parse");
        Walker {
            ov,
            consts,
            expanded: expanded.to_string(),
            expanded_file,
            used_consts: Default::default(),
            local_consts: Default::default(),
            fns: vec![],
            seen: Default::default(),
            dropped: Default::default(),
            notes: vec![],
            pending: String::new(),
            provided: BTreeMap::new(),
            assoc: Default::default(),
            cur_fields: Default::default(),
        }
    }

    /// The provided body of a trait method as a free function over any implementor.
    fn default_fn(&mut self, cx: &Ctx, key: &str, sig: &Signature, b: &Block, spec: &str, ret: &str) -> String {
        fn rec(t: TokenStream, v: &mut Vec<(usize, usize, &'static str)>) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => {
                        let (s, e) = range(i.span());
                        match &*i.to_string() {
                            "self" => v.push((s, e, "vp_self")),
                            "Self" => v.push((s, e, "VpSelf")),
                            _ => {}
                        }
                    }
                    proc_macro2::TokenTree::Group(g) => rec(g.stream(), v),
                    _ => {}
                }
            }
        }
        let text = |e: TokenStream, s: usize, t: usize| {
            let mut v = vec![];
            rec(e, &mut v);
            let mut ed = Edits::default();
            for (a, b, r) in v {
                ed.replace(a, b, r);
            }
            ed.apply(cx.src, s, t)
        };
        let (tr, m) = key.split_once("::").unwrap();
        let name = format!("{tr}_{m}_default");
        let bound = self.ov.generics.get(tr).cloned().unwrap_or_else(|| format!("<VpSelf: {tr}>"));
        let mut args = vec![];
        let mut lets = String::new();
        for (k, i) in sig.inputs.iter().enumerate() {
            match i {
                FnArg::Receiver(r) => args.push(format!("vp_self: {}VpSelf", if r.reference.is_some() { "&" } else { "" })),
                FnArg::Typed(t) => match self.param_name(key, sig, k) {
                    Some(n) => {
                        let (s, e) = range(t.ty.span());
                        args.push(format!("{n}: {}", text(t.ty.to_token_stream(), s, e)));
                        let (s, e) = range(t.pat.span());
                        if !matches!(&*t.pat, Pat::Wild(_)) {
                            lets.push_str(&format!("let {} = {n};\n", &cx.src[s..e]));
                        }
                    }
                    None => {
                        let (s, e) = range(t.span());
                        args.push(text(t.to_token_stream(), s, e));
                    }
                },
            }
        }
        let out = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let (s, e) = range(t.span());
                format!(" -> ({ret}: {})", text(t.to_token_stream(), s, e))
            }
        };
        let (s, e) = range(b.span());
        let body = text(b.to_token_stream(), s, e);
        let k = format!("{key} (provided body)");
        self.fns.push(FnRep {
            key: k.clone(), mode: "verify", listed: true, loops: 0, loops_spec: 0,
            missing_closures: vec![], extra_closures: vec![], reason: String::new(), shape: shape(b), hints: false, params: vec![],
        });
        format!("/*@fn {k}*/ pub fn {name}{bound}({}){out}\n{spec}\n{{\n{lets}{body}\n}} /*@end*/\n", args.join(", "))
    }

    /// The name a contract knows a parameter by, where the source has come to call it something else.
    fn param_name(&self, key: &str, sig: &Signature, k: usize) -> Option<String> {
        let base = self.ov.params.get(key)?;
        let now = param_names(sig);
        (base.len() == now.len() && !base[k].is_empty() && base[k] != now[k] && !now.contains(&base[k])).then(|| base[k].clone())
    }

    pub fn module_file(&mut self, path: &str, modpath: &[String]) -> String {
        let src = fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let file = parse_file(&src).unwrap_or_else(|e| panic!("{path}: {e}"));
        let p = Path::new(path);
        let stem = p.file_stem().unwrap().to_str().unwrap();
        let dir = if stem == "lib" || stem == "mod" {
            p.parent().unwrap().to_path_buf()
        } else {
            p.parent().unwrap().join(stem)
        };
        let mut cx = Ctx {
            src: &src,
            ed: Edits::default(),
            after: String::new(),
            dir,
            modpath: modpath.to_vec(),
            prefix: String::new(),
            impl_keys: Default::default(),
            parts: String::new(),
            expansion: false,
        };
        for a in &file.attrs {
            let (s, e) = range(a.span());
            cx.ed.delete(s, e);
        }
        let mut lo = 0;
        if let Some(sh) = &file.shebang {
            lo = sh.len();
        }
        self.scan_consts(&file.items);
        self.items(&mut cx, &file.items);
        let mut body = cx.ed.apply(&src, lo, src.len());
        let mut extra = self.expanded_impls(&cx);
        let key = modpath.join("::");
        if let Some(t) = self.ov.modules.get(&key) {
            extra.push_str(t);
        }
        body.push_str(&cx.parts);
        body.push_str(&extra);
        body = body.replace("perf_event_open_sys::", "crate::");
        let mut out = String::new();
        if !modpath.is_empty() {
            out.push_str("use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vp::*;\n");
        }
        // a module with a broadcast of its own names every group it needs
        if body.contains("\nbroadcast use ") {
            out.push_str("verus! {\n");
        } else {
            out.push_str("verus! {\nbroadcast use crate::vp::group_vp;\n");
        }
        out.push_str(&body);
        out.push_str("\n} // verus!\n");
        out.push_str(&cx.after);
        out
    }

    fn wrap_mod(&self, name: &str, body: &str) -> String {
        format!("#[allow(unused, non_snake_case, non_upper_case_globals, non_camel_case_types)]\npub mod {name} {{\n{body}\n}} // mod {name}\n")
    }

    /// Impl blocks generated by local macros (`=== expand <module>`), taken from rustc's expansion.
    fn expanded_impls(&mut self, cx: &Ctx) -> String {
        let key = cx.modpath.join("::");
        let all = self.ov.expand.contains(&key);
        let derived: Vec<String> = self.ov.derived.iter().filter_map(|d| d.strip_prefix(&format!("{key} "))).map(|x| x.to_string()).collect();
        if !all && derived.is_empty() {
            return String::new();
        }
        let Some(items) = self.find_expanded(&cx.modpath) else {
            self.notes.push(format!("module {key} not found in the expansion"));
            return String::new();
        };
        let mut out = String::new();
        let expanded = self.expanded.clone();
        for it in &items {
            if let Item::Impl(i) = it {
                let k = impl_key(i);
                if i.trait_.is_some() && (all && k.contains(" as From<") || derived.contains(&k)) && !cx.impl_keys.contains(&k) && !self.is_dropped_impl(i, &k) {
                    let mut c2 = Ctx {
                        src: &expanded,
                        ed: Edits::default(),
                        after: String::new(),
                        dir: cx.dir.clone(),
                        modpath: cx.modpath.clone(),
                        prefix: String::new(),
                        impl_keys: Default::default(),
                        parts: String::new(),
                        expansion: true,
                    };
                    self.item(&mut c2, it);
                    let (s, e) = range(it.span());
                    out.push_str(&c2.ed.apply(&expanded, s, e));
                    out.push('\n');
                }
            }
        }
        out
    }

    fn find_expanded(&self, path: &[String]) -> Option<Vec<Item>> {
        let mut items = self.expanded_file.items.clone();
        for p in path {
            let m = items.into_iter().find_map(|i| match i {
                Item::Mod(m) if m.ident == p && m.content.is_some() => Some(m.content.unwrap().1),
                _ => None,
            })?;
            items = m;
        }
        Some(items)
    }

    fn scan_consts(&mut self, items: &[Item]) {
        for _ in 0..4 {
            for it in items {
                if let Item::Impl(i) = it {
                    for x in &i.items {
                        if let ImplItem::Const(c) = x {
                            let env = |n: &str| self.local_consts.get(n).copied();
                            if let Some(v) = self.consts.eval(&c.expr, &env) {
                                self.local_consts.insert(c.ident.to_string(), v);
                            }
                        }
                    }
                }
                if let Item::Macro(m) = it {
                    if last_ident(&m.mac.path) == "bitflags" {
                        if let Ok(b) = m.mac.parse_body::<BitflagsInput>() {
                            for d in &b.0 {
                                for (n, e) in &d.consts {
                                    let env = |n: &str| self.local_consts.get(n).copied();
                                    if let Some(v) = self.consts.eval(e, &env) {
                                        self.local_consts.insert(format!("{}::{}", d.name, n), v);
                                        self.local_consts.entry(n.to_string()).or_insert(v);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    fn items(&mut self, cx: &mut Ctx, items: &[Item]) {
        for it in items {
            self.item(cx, it);
        }
    }

    fn del<T: Spanned>(&self, cx: &mut Ctx, t: &T) {
        let (s, e) = range(t.span());
        cx.ed.delete(s, e);
    }

    fn attrs(&self, cx: &mut Ctx, attrs: &[Attribute]) {
        for a in attrs {
            self.del(cx, a);
        }
    }

    fn vis(&self, cx: &mut Ctx, v: &Visibility, at: usize) {
        match v {
            Visibility::Inherited => cx.ed.insert(at, "pub "),
            v => {
                let (s, e) = range(v.span());
                cx.ed.replace(s, e, "pub")
            }
        }
    }

    fn derive(&self, cx: &mut Ctx, name: &str, attrs: &[Attribute], at: usize) {
        let mut list = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let t = a.meta.to_token_stream().to_string();
                for x in t.trim_start_matches("derive").split(|c: char| !c.is_alphanumeric()) {
                    if !x.is_empty() {
                        list.push(x.to_string());
                    }
                }
            }
        }
        let d = match self.ov.derives.get(name) {
            Some(d) => d.clone(),
            None if list.iter().any(|x| x == "Copy") => "Copy, Clone".into(),
            None => String::new(),
        };
        if !d.is_empty() {
            cx.ed.insert(at, format!("#[derive({d})] "));
        }
    }

    fn is_dropped_impl(&self, i: &ItemImpl, key: &str) -> bool {
        if self.ov.drop_impls.contains(key) {
            return true;
        }
        if let Some((_, p, _)) = &i.trait_ {
            let t = last_ident(p);
            if self.ov.drop_traits.contains(&t) && !self.ov.impls.contains_key(key) {
                return true;
            }
        }
        false
    }

    fn item(&mut self, cx: &mut Ctx, it: &Item) {
        match it {
            Item::Mod(m) => {
                if is_cfg_off(&m.attrs) || self.ov.drop_items.contains(&format!("mod {}", m.ident)) {
                    self.dropped.insert(format!("mod {}", m.ident));
                    return self.del(cx, it);
                }
                let name = m.ident.to_string();
                let mut mp = cx.modpath.clone();
                mp.push(name.clone());
                match &m.content {
                    None => {
                        let mut rel = format!("{name}.rs");
                        for a in &m.attrs {
                            if a.path().is_ident("path") {
                                if let Meta::NameValue(nv) = &a.meta {
                                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                                        rel = s.value();
                                    }
                                }
                            }
                        }
                        let mut p = cx.dir.join(&rel);
                        if !p.exists() {
                            p = cx.dir.join(&name).join("mod.rs");
                        }
                        let body = self.module_file(p.to_str().unwrap(), &mp);
                        let t = self.wrap_mod(&name, &body);
                        cx.after.push_str(&t);
                        self.del(cx, it);
                    }
                    Some((_, items)) => {
                        let has_opt = items.iter().any(|i| matches!(i, Item::Macro(m) if last_ident(&m.mac.path) == "option_struct"));
                        if has_opt {
                            let t = self.expanded_module(&mp, &name);
                            cx.after.push_str(&t);
                            self.del(cx, it);
                        } else {
                            self.attrs(cx, &m.attrs);
                            self.vis(cx, &m.vis, range(m.mod_token.span()).0);
                            self.items(cx, items);
                        }
                    }
                }
            }
            Item::Use(u) => {
                let t = u.to_token_stream().to_string().replace(' ', "");
                if is_cfg_off(&u.attrs) || t.contains("bitflags") || t.contains("c_enum") || t.contains("arbitrary") {
                    return self.del(cx, it);
                }
                self.note_consts(u);
                self.attrs(cx, &u.attrs);
            }
            Item::Macro(m) => self.item_macro(cx, m),
            Item::Fn(f) => {
                if is_cfg_off(&f.attrs) {
                    return self.del(cx, it);
                }
                let key = pre(&cx.prefix, &f.sig.ident.to_string());
                self.func(cx, &key, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), range(it.span()), false);
            }
            Item::Impl(i) => self.item_impl(cx, it, i),
            Item::Trait(t) => {
                self.attrs(cx, &t.attrs);
                let name = t.ident.to_string();
                if self.ov.drop_items.contains(&name) {
                    return self.del(cx, it);
                }
                let at = t.unsafety.as_ref().map(|u| range(u.span())).unwrap_or_else(|| range(t.trait_token.span()));
                if let Some(u) = &t.unsafety {
                    self.del(cx, u);
                }
                self.vis(cx, &t.vis, at.0);
                if let Some(x) = self.ov.traits.get(&name) {
                    let (s, _) = range(t.brace_token.span.open());
                    cx.ed.insert(s + 1, format!("\n{x}"));
                }
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        let key = pre(&cx.prefix, &format!("{name}::{}", f.sig.ident));
                        self.func(cx, &key, &f.attrs, None, &f.sig, f.default.as_ref(), range(x.span()), false);
                    } else if let TraitItem::Type(ty) = x {
                        self.attrs(cx, &ty.attrs);
                    }
                }
                let p = std::mem::take(&mut self.pending);
                cx.ed.insert(range(it.span()).1, format!("\n{p}"));
            }
            Item::Struct(s) => {
                if self.ov.drop_items.contains(&s.ident.to_string()) {
                    return self.del(cx, it);
                }
                self.attrs(cx, &s.attrs);
                let at = match &s.vis {
                    Visibility::Inherited => range(s.struct_token.span()).0,
                    v => range(v.span()).0,
                };
                self.derive(cx, &s.ident.to_string(), &s.attrs, at);
                self.vis(cx, &s.vis, at);
                for f in &s.fields {
                    self.attrs(cx, &f.attrs);
                    let at = match (&f.vis, &f.ident) {
                        (_, Some(i)) => range(i.span()).0,
                        (_, None) => range(f.ty.span()).0,
                    };
                    self.vis(cx, &f.vis, at);
                }
                self.layout_axiom(cx, s);
            }
            Item::Enum(s) => {
                if self.ov.drop_items.contains(&s.ident.to_string()) {
                    return self.del(cx, it);
                }
                self.attrs(cx, &s.attrs);
                let at = match &s.vis {
                    Visibility::Inherited => range(s.enum_token.span()).0,
                    v => range(v.span()).0,
                };
                self.derive(cx, &s.ident.to_string(), &s.attrs, at);
                self.vis(cx, &s.vis, at);
                if s.variants.is_empty() {
                    // an uninhabited enum used as a namespace
                    let (ks, _) = range(s.enum_token.span());
                    let (_, e) = range(s.brace_token.span.close());
                    cx.ed.replace(ks, e, format!("struct {};", s.ident));
                }
                for v in &s.variants {
                    self.attrs(cx, &v.attrs);
                    for f in &v.fields {
                        self.attrs(cx, &f.attrs);
                    }
                }
            }
            Item::Const(c) => {
                if c.ident == "_" {
                    // `const _: () = { items };` from a macro expansion: the items are hoisted
                    if let Expr::Block(b) = &*c.expr {
                        let (s, e) = range(it.span());
                        let st: Vec<_> = b.block.stmts.iter().collect();
                        if !st.is_empty() {
                            cx.ed.delete(s, range(st[0].span()).0);
                            cx.ed.delete(range(st[st.len() - 1].span()).1, e);
                            for x in st {
                                match x {
                                    Stmt::Item(i) => self.item(cx, i),
                                    x => self.del(cx, x),
                                }
                            }
                            return;
                        }
                    }
                    return self.del(cx, it);
                }
                if self.ov.drop_items.contains(&c.ident.to_string()) {
                    return self.del(cx, it);
                }
                self.attrs(cx, &c.attrs);
                self.vis(cx, &c.vis, range(c.const_token.span()).0);
                self.note_consts(&c.expr);
            }
            Item::Type(t) => {
                if self.ov.drop_items.contains(&t.ident.to_string()) {
                    return self.del(cx, it);
                }
                self.attrs(cx, &t.attrs);
                self.vis(cx, &t.vis, range(t.type_token.span()).0);
            }
            _ => self.del(cx, it),
        }
    }

    /// A `repr(C)` struct whose fields are all `u64`: what its memory layout says about a transmuted slice.
    fn layout_axiom(&self, cx: &mut Ctx, s: &ItemStruct) {
        let repr_c = s.attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "") == "#[repr(C)]");
        let n = s.fields.len();
        if !repr_c || n == 0 || !s.generics.params.is_empty() {
            return;
        }
        if !s.fields.iter().all(|f| f.ident.is_some() && type_key(&f.ty) == "u64") {
            return;
        }
        let name = &s.ident;
        let mut t = format!(
            "\nglobal size_of {name} == {};\npub axiom fn axiom_layout_{name}(b: Seq<u8>, i: int)\n    requires b.len() % {} == 0, 0 <= i < b.len() / {},\n    ensures true,\n",
            8 * n, 8 * n, 8 * n
        );
        for (k, f) in s.fields.iter().enumerate() {
            t.push_str(&format!(
                "        transmuted::<{name}>(b)[i].{} == dec64(host_big(), b.subrange({} * i + {}, {} * i + {})),\n",
                f.ident.as_ref().unwrap(), 8 * n, 8 * k, 8 * n, 8 * k + 8
            ));
        }
        t.push_str(";\n");
        cx.ed.insert(range(s.span()).1, t);
    }

    fn expanded_module(&mut self, mp: &[String], name: &str) -> String {
        let Some(items) = self.find_expanded(mp) else {
            self.notes.push(format!("module {} not found in the expansion", mp.join("::")));
            return String::new();
        };
        let expanded = self.expanded.clone();
        let mut cx = Ctx {
            src: &expanded,
            ed: Edits::default(),
            after: String::new(),
            dir: PathBuf::new(),
            modpath: mp.to_vec(),
            prefix: name.to_string(),
            impl_keys: Default::default(),
            parts: String::new(),
            expansion: false,
        };
        *self.cur_fields.borrow_mut() = items.iter().find_map(|i| match i {
            Item::Struct(s) => Some(
                s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), type_key(&f.ty) == "MaybeUninit")).collect(),
            ),
            _ => None,
        });
        self.items(&mut cx, &items);
        *self.cur_fields.borrow_mut() = None;
        let mut body = String::new();
        for it in &items {
            let (s, e) = range(it.span());
            body.push_str(&cx.ed.apply(&expanded, s, e));
            body.push('\n');
        }
        if let Some(t) = self.ov.modules.get(&mp.join("::")) {
            body.push_str(t);
        }
        body.push_str(&cx.parts);
        let body = body.replace("perf_event_open_sys::", "crate::");
        self.wrap_mod(name, &format!("use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vp::*;\nverus! {{\nbroadcast use crate::vp::group_vp;\n{body}\n}}\n"))
    }

    fn item_impl(&mut self, cx: &mut Ctx, it: &Item, i: &ItemImpl) {
        let key = impl_key(i);
        // an impl whose body is mostly a local macro is read from the expansion
        if !cx.expansion && self.ov.derived.contains(&format!("{} {key}", cx.modpath.join("::"))) {
            return self.del(cx, it);
        }
        cx.impl_keys.insert(key.clone());
        let pkey = pre(&cx.prefix, &key);
        if is_cfg_off(&i.attrs) || self.is_dropped_impl(i, &pkey) {
            self.dropped.insert(format!("impl {pkey}"));
            return self.del(cx, it);
        }
        self.attrs(cx, &i.attrs);
        if let Some(u) = &i.unsafety {
            self.del(cx, u);
        }
        if let Some(mut x) = self.ov.impls.get(&pkey).cloned() {
            // `@provided TRAIT::METHOD`: the provided body, in an impl that does not override it
            for (k, t) in &self.provided {
                let m = k.rsplit("::").next().unwrap();
                let own = i.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == m));
                x = x.replace(&format!("@provided {k}"), if own { "" } else { t });
            }
            // several impl blocks may share a key; the text goes into the first
            if self.seen.insert(format!("impl {pkey}")) {
                let (s, _) = range(i.brace_token.span.open());
                cx.ed.insert(s + 1, format!("\n{x}"));
            }
        }
        let is_trait = i.trait_.is_some();
        if self.ov.inherent.contains_key(&pkey) {
            return self.inherent_impl(cx, i, &pkey);
        }
        if let Some((_, p, _)) = &i.trait_ {
            // vstd ties From to a spec function unless told otherwise
            let tr = last_ident(p);
            if tr == "From" || tr == "TryFrom" {
                let (lo, res) = if tr == "From" { ("from", "Self") } else { ("try_from", "core::result::Result<Self, Self::Error>") };
                if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                    let (s, e) = range(i.generics.params.span());
                    let g = if i.generics.params.is_empty() { String::new() } else { format!("<{}>", &cx.src[s..e]) };
                    let w = match &i.generics.where_clause {
                        Some(w) => {
                            let (s, e) = range(w.span());
                            cx.src[s..e].to_string()
                        }
                        None => String::new(),
                    };
                    let arg = a.args.to_token_stream().to_string();
                    let (s, e) = range(i.self_ty.span());
                    let fs = self.ov.from_spec.get(&pkey);
                    let (ob, val) = (fs.is_some(), fs.map_or("arbitrary()", |x| x));
                    let t = format!(
                        "\nimpl{g} vstd::std_specs::convert::{tr}SpecImpl<{arg}> for {} {w} {{\n    open spec fn obeys_{lo}_spec() -> bool {{ {ob} }}\n    open spec fn {lo}_spec(v: {arg}) -> {res} {{ {val} }}\n}}\n",
                        &cx.src[s..e]
                    );
                    // before the impl, so that its axioms precede the obligations of the impl
                    cx.ed.insert(range(it.span()).0, t);
                }
            }
        }
        for x in &i.items {
            match x {
                ImplItem::Fn(f) => {
                    let k = format!("{pkey}::{}", f.sig.ident);
                    self.func(
                        cx,
                        &k,
                        &f.attrs,
                        if is_trait { None } else { Some(&f.vis) },
                        &f.sig,
                        Some(&f.block),
                        range(x.span()),
                        is_trait,
                    );
                }
                ImplItem::Const(c) => {
                    let k = format!("{pkey}::{}", c.ident);
                    if self.ov.drop_items.contains(&k) {
                        self.del(cx, x);
                        continue;
                    }
                    self.attrs(cx, &c.attrs);
                    if !is_trait {
                        self.vis(cx, &c.vis, range(c.const_token.span()).0);
                    }
                    let env = |n: &str| self.local_consts.get(n).copied();
                    let v = self.consts.eval(&c.expr, &env).or_else(|| self.eval_block(&c.expr));
                    if let Some(v) = v {
                        let (s, e) = range(c.expr.span());
                        let old = cx.src[s..e].replace('\n', " ").replace("*/", "* /");
                        cx.ed.replace(s, e, format!("{v} /* {old} */"));
                    }
                }
                ImplItem::Type(t) => self.attrs(cx, &t.attrs),
                _ => {}
            }
        }
    }

    /// `let mut x = MaybeUninit::<Self>::uninit(); (&raw mut (*x.as_mut_ptr()).f).write(v); x.assume_init()`
    /// -> a struct literal with `f: v` and every other field uninitialised. Only where all the other fields are
    /// MaybeUninit, so that leaving them unwritten is allowed.
    fn uninit_literal(&self, b: &Block, src: &str) -> Option<Vec<(usize, usize, String)>> {
        let [Stmt::Local(l), Stmt::Expr(Expr::Unsafe(u), None)] = &b.stmts[..] else { return None };
        let Pat::Ident(x) = &l.pat else { return None };
        let x = x.ident.to_string();
        let init = norm(&l.init.as_ref()?.expr.to_token_stream().to_string());
        if !init.ends_with("MaybeUninit::<Self>::uninit()") {
            return None;
        }
        let (last, writes) = u.block.stmts.split_last()?;
        let Stmt::Expr(last, None) = last else { return None };
        if norm(&last.to_token_stream().to_string()) != format!("{x}.assume_init()") {
            return None;
        }
        let mut set = BTreeMap::new();
        for w in writes {
            let Stmt::Expr(Expr::MethodCall(m), Some(_)) = w else { return None };
            if m.method != "write" || m.args.len() != 1 {
                return None;
            }
            let r = norm(&m.receiver.to_token_stream().to_string());
            let f = r.strip_prefix(&format!("(&rawmut(*{x}.as_mut_ptr())."))?.strip_suffix(')')?.to_string();
            let (s, e) = range(m.args[0].span());
            set.insert(f, src[s..e].to_string());
        }
        let mut t = String::from("Self { ");
        for (f, mu) in self.cur_fields.borrow().as_ref()? {
            match set.remove(f) {
                Some(v) => t.push_str(&format!("{f}: {v}, ")),
                None if *mu => t.push_str(&format!("{f}: ::std::mem::MaybeUninit::uninit(), ")),
                None => return None,
            }
        }
        if !set.is_empty() {
            return None;
        }
        t.push('}');
        let (s, e) = range(l.span());
        let (s2, e2) = range(b.stmts[1].span());
        Some(vec![(s, e, String::new()), (s2, e2, t)])
    }

    /// `impl Trait for T { type A = X; fn f.. }` -> `impl T { pub fn f.. }` with `Self::A` written out
    fn inherent_impl(&mut self, cx: &mut Ctx, i: &ItemImpl, pkey: &str) {
        let (_, p, f) = i.trait_.as_ref().unwrap();
        cx.ed.delete(range(p.span()).0, range(f.span()).1);
        // DoubleEndedIterator refers to the Item of Iterator
        let own = pkey.split(" as ").next().unwrap().to_string();
        let mut types = self.assoc.remove(&own).unwrap_or_default();
        for x in &i.items {
            if let ImplItem::Type(t) = x {
                let (s, e) = range(t.ty.span());
                types.insert(t.ident.to_string(), cx.src[s..e].to_string());
                self.del(cx, x);
            }
        }
        struct V<'a>(&'a BTreeMap<String, String>, Vec<(usize, usize, String)>);
        impl<'a, 'ast> Visit<'ast> for V<'a> {
            fn visit_path(&mut self, p: &'ast Path) {
                if p.segments.len() == 2 && p.segments[0].ident == "Self" {
                    if let Some(t) = self.0.get(&p.segments[1].ident.to_string()) {
                        let (s, e) = range(p.span());
                        self.1.push((s, e, t.clone()));
                    }
                }
                visit::visit_path(self, p);
            }
        }
        use syn::Path;
        let mut v = V(&types, vec![]);
        v.visit_item_impl(i);
        for (s, e, t) in v.1 {
            cx.ed.replace(s, e, t);
        }
        self.assoc.insert(own, types);
        for x in &i.items {
            if let ImplItem::Fn(f) = x {
                let k = format!("{pkey}::{}", f.sig.ident);
                let to = self.ov.inherent[pkey].clone();
                if !to.is_empty() {
                    let (s, e) = range(f.sig.ident.span());
                    cx.ed.replace(s, e, to);
                }
                self.func(cx, &k, &f.attrs, Some(&f.vis), &f.sig, Some(&f.block), range(x.span()), false);
            }
        }
    }

    fn eval_block(&self, e: &Expr) -> Option<i128> {
        let Expr::Block(b) = e else { return None };
        let mut env: BTreeMap<String, i128> = BTreeMap::new();
        for s in &b.block.stmts {
            match s {
                Stmt::Local(l) => {
                    let n = match &l.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => continue,
                    };
                    let v = self.consts.eval(&l.init.as_ref()?.expr, &|n| env.get(n).copied())?;
                    env.insert(n, v);
                }
                Stmt::Expr(x, None) => {
                    if let Some(v) = self.consts.eval(x, &|n| env.get(n).copied()) {
                        return Some(v);
                    }
                }
                _ => {}
            }
        }
        None
    }

    fn note_consts(&self, e: &dyn ToTokens) {
        fn rec(t: TokenStream, c: &Consts, used: &mut BTreeSet<String>) {
            for x in t {
                match x {
                    proc_macro2::TokenTree::Ident(i) => {
                        let s = i.to_string();
                        if c.map.contains_key(&s) {
                            used.insert(s);
                        }
                    }
                    proc_macro2::TokenTree::Group(g) => rec(g.stream(), c, used),
                    _ => {}
                }
            }
        }
        rec(e.to_token_stream(), &self.consts, &mut self.used_consts.borrow_mut());
    }

    fn item_macro(&mut self, cx: &mut Ctx, m: &ItemMacro) {
        let name = last_ident(&m.mac.path);
        let (s, e) = range(m.span());
        match &*name {
            "bitflags" => match m.mac.parse_body::<BitflagsInput>() {
                Ok(b) => {
                    let mut out = String::new();
                    for d in &b.0 {
                        out.push_str(&self.flag_type(d, true));
                    }
                    cx.ed.replace(s, e, out);
                }
                Err(err) => panic!("bitflags!: {err}"),
            },
            "c_enum" => match m.mac.parse_body::<CEnumInput>() {
                Ok(b) => {
                    let mut out = String::new();
                    for d in &b.0 {
                        out.push_str(&self.flag_type(d, false));
                    }
                    cx.ed.replace(s, e, out);
                }
                Err(err) => panic!("c_enum!: {err}"),
            },
            _ => cx.ed.delete(s, e),
        }
    }

    fn flag_type(&mut self, d: &FlagDef, flags: bool) -> String {
        let n = d.name.to_string();
        let ty = type_key(&d.ty);
        let mut out = format!("#[derive(Copy, Clone, PartialEq, Eq, Structural)]\npub struct {n}(pub {ty});\nimpl {n} {{\n");
        let mut all: i128 = 0;
        for (c, e) in &d.consts {
            let lc = &self.local_consts;
            let nn = n.clone();
            let env = move |x: &str| lc.get(&format!("{nn}::{x}")).or_else(|| lc.get(x)).copied();
            match self.consts.eval(e, &env) {
                Some(v) => {
                    let v = wrap(&ty, v);
                    all |= v;
                    let src = e.to_token_stream().to_string();
                    out.push_str(&format!("    pub const {c}: {n} = {n}({v}); // {src}\n"));
                }
                None => self.notes.push(format!("constant {n}::{c} not evaluated")),
            }
        }
        out.push_str("}\n");
        let _ = &d.attrs;
        if flags {
            let width: u32 = ty.trim_start_matches(['u', 'i']).parse().unwrap_or(64);
            let single = |v: &str| format!("({})", (0..width).map(|i| format!("{v} == {:#x}{ty}", 1u128 << i)).collect::<Vec<_>>().join(" || "));
            out.push_str(
                &FLAGS_TEMPLATE
                    .replace("$SINGLEB$", &single("b"))
                    .replace("$SINGLE$", &single("o.0"))
                    .replace("$N$", &n)
                    .replace("$T$", &ty)
                    .replace("$ALL$", &all.to_string()),
            );
        }
        out
    }

    #[allow(clippy::too_many_arguments)]
    fn func(
        &mut self,
        cx: &mut Ctx,
        key: &str,
        attrs: &[Attribute],
        vis: Option<&Visibility>,
        sig: &Signature,
        block: Option<&Block>,
        span: (usize, usize),
        _in_trait_impl: bool,
    ) {
        let fo = self.ov.fns.get(key).cloned().unwrap_or_default();
        self.seen.insert(key.to_string());
        if fo.mode == Mode::Drop || is_cfg_off(attrs) {
            self.dropped.insert(format!("fn {key}"));
            cx.ed.delete(span.0, span.1);
            return;
        }
        self.attrs(cx, attrs);
        let at = [
            sig.constness.as_ref().map(|x| range(x.span()).0),
            sig.unsafety.as_ref().map(|x| range(x.span()).0),
            Some(range(sig.fn_token.span()).0),
        ]
        .into_iter()
        .flatten()
        .min()
        .unwrap();
        let first = match vis {
            Some(Visibility::Inherited) | None => at,
            Some(v) => range(v.span()).0,
        };
        let external = fo.mode == Mode::External && block.is_some();
        let required = fo.mode == Mode::Required && block.is_some();
        cx.ed.insert(first, format!("/*@fn {key}*/ "));
        if external {
            cx.ed.insert(first, "#[verifier::external_body] ");
        }
        if !fo.attrs.trim().is_empty() {
            cx.ed.insert(first, format!("{} ", fo.attrs.trim()));
        }
        if let Some(v) = vis {
            self.vis(cx, v, at);
        }
        if let Some(c) = &sig.constness {
            if !fo.listed || true {
                self.del(cx, c);
            }
        }
        if !fo.ret.is_empty() {
            match &sig.output {
                ReturnType::Default => {
                    let (_, e) = range(sig.paren_token.span.close());
                    cx.ed.insert(e, format!(" -> ({}: ())", fo.ret));
                }
                ReturnType::Type(_, t) => {
                    let (s, e) = range(t.span());
                    cx.ed.insert(s, format!("({}: ", fo.ret));
                    cx.ed.insert(e, ")");
                }
            }
        }
        // where the contract goes: before the body or the semicolon
        let spec_at = match block {
            Some(b) => range(b.brace_token.span.open()).0,
            None => span.1 - 1,
        };
        if !fo.spec.trim().is_empty() {
            let comma = match &sig.generics.where_clause {
                Some(w) if !w.predicates.trailing_punct() => ",",
                _ => "",
            };
            if let Some(w) = &sig.generics.where_clause {
                cx.ed.insert(range(w.span()).1, comma);
            }
            cx.ed.insert(spec_at, format!("\n{}", fo.spec));
        }
        let mut rep = FnRep {
            key: key.to_string(),
            mode: match fo.mode {
                Mode::External => "external",
                Mode::Required => "required",
                _ => "verify",
            },
            listed: fo.listed,
            loops: 0,
            loops_spec: fo.loops.len(),
            missing_closures: vec![],
            extra_closures: vec![],
            reason: fo.reason.clone(),
            shape: block.map(shape).unwrap_or_default() + &if param_names(sig) != self.ov.params.get(key).cloned().unwrap_or_else(|| param_names(sig)) { " params" } else { "" },
            hints: !fo.loops.is_empty() || !fo.closures.is_empty() || !fo.subst.is_empty() || !fo.tail.trim().is_empty() || !(fo.start.trim().is_empty() || fo.start.contains("// neutral")),
            params: param_names(sig),
        };
        let mut parts = vec![];
        let mut mut_self = false;
        let mut lets = String::new();
        for (k, i) in sig.inputs.iter().enumerate() {
            match i {
                FnArg::Receiver(r) if r.reference.is_none() => {
                    if let Some(m) = &r.mutability {
                        self.del(cx, m);
                        mut_self = true;
                    }
                }
                FnArg::Typed(t) => {
                    // the name the contract was written for
                    if let Some(n) = self.param_name(key, sig, k) {
                        let (s, e) = range(t.pat.span());
                        if !matches!(&*t.pat, Pat::Wild(_)) {
                            lets.push_str(&format!("\nlet {} = {n};", &cx.src[s..e]));
                        }
                        cx.ed.replace(s, e, n);
                    } else if let Pat::Wild(w) = &*t.pat {
                        let (s, e) = range(w.span());
                        cx.ed.replace(s, e, format!("_vp{k}"));
                    }
                }
                _ => {}
            }
        }
        if let Some(b) = block {
            let (bs, be) = (range(b.brace_token.span.open()).0, range(b.brace_token.span.close()).1);
            if required {
                let (a, _) = range(sig.span());
                self.provided.insert(key.to_string(), cx.src[a..be].to_string());
                cx.ed.replace(bs, be, ";");
                if let Some(d) = &fo.dspec {
                    let t = self.default_fn(cx, key, sig, b, d, &fo.ret);
                    self.pending.push_str(&t);
                }
            } else if external {
                let dirty = sig.inputs.iter().any(|_| true);
                let _ = dirty;
                // an opaque return type takes its type from the body
                if !sig.output.to_token_stream().to_string().contains("impl ") {
                    cx.ed.replace(bs, be, "{ unimplemented!() }");
                }
                for (k, i) in sig.inputs.iter().enumerate() {
                    if let FnArg::Typed(t) = i {
                        if let Pat::Ident(p) = &*t.pat {
                            if let (Some(m), None) = (&p.mutability, self.param_name(key, sig, k)) {
                                self.del(cx, m);
                            }
                        }
                    }
                }
            } else {
                if mut_self {
                    cx.ed.insert(bs + 1, "\nlet mut vp_self = self;");
                }
                cx.ed.insert(bs + 1, lets);
                if !fo.start.trim().is_empty() {
                    cx.ed.insert(bs + 1, format!("\n{}", fo.start));
                }
                self.note_consts(b);
                if let Some(t) = self.uninit_literal(b, cx.src) {
                    for (s, e, t) in t {
                        cx.ed.replace(s, e, t);
                    }
                }
                let mut v = Body {
                    ed: &mut cx.ed,
                    src: cx.src,
                    fo: &fo,
                    nloops: 0,
                    lets: vec![],
                    closure_count: BTreeMap::new(),
                    used_closures: BTreeSet::new(),
                    extra: vec![],
                    substs: 0,
                    rename_self: mut_self,
                    inline: BTreeMap::new(),
                    binds: bound_names(b),
                };
                v.visit_block(b);
                rep.loops = v.nloops;
                rep.extra_closures = v.extra.clone();
                if v.substs != fo.subst.len() {
                    rep.missing_closures.push(format!("{} of {} substitutions applied", v.substs, fo.subst.len()));
                }
                for c in fo.closures.keys() {
                    if !v.used_closures.contains(c) {
                        rep.missing_closures.push(c.clone());
                    }
                }
                // each `match` on a parameter as a function of its own
                if let Some(t) = &fo.outline {
                    let mut o = Outline { params: Default::default(), found: vec![], flag: String::new() };
                    let (first, rest) = t.split_once('\n').unwrap();
                    let (from, to) = first.split_once("=>").expect("outline: VAR => PARAM");
                    o.flag = from.trim().to_string();
                    for i in &sig.inputs {
                        if let FnArg::Typed(t) = i {
                            if let Pat::Ident(p) = &*t.pat {
                                let (s, e) = range(t.ty.span());
                                o.params.insert(p.ident.to_string(), cx.src[s..e].to_string());
                            }
                        }
                    }
                    o.visit_block(b);
                    if o.found.len() != o.params.len() {
                        rep.missing_closures.push("its matches".into());
                    }
                    for (name, (s, e), uses) in o.found {
                        for (a, b) in uses {
                            cx.ed.replace(a, b, format!("(*{})", to.trim()));
                        }
                        let body = cx.ed.apply(cx.src, s, e);
                        let ty = norm_ty(&o.params[&name]);
                        let inner = ty.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')).unwrap_or(&ty).to_string();
                        let pk = format!("{key} (part {name})");
                        let head = rest.trim().replace("$X", &name).replace("$T", &inner);
                        let (sp, hint) = head.split_once("\n---\n").unwrap_or((&head, ""));
                        cx.parts.push_str(&format!("/*@fn {pk}*/ {sp}\n{{\n{hint}\n{body}\n}}/*@end*/\n"));
                        let fname = sp.split("fn ").nth(1).unwrap().split(|c: char| c == '<' || c == '(').next().unwrap().trim();
                        cx.ed.replace(s, e, format!("{fname}({name}, &mut {})", from.trim()));
                        parts.push(FnRep {
                            key: pk, mode: "verify", listed: true, loops: 0, loops_spec: 0,
                            missing_closures: vec![], extra_closures: vec![], reason: String::new(),
                            shape: String::new(), hints: false, params: vec![],
                        });
                    }
                }
                // each top-level `if` about one field of self as a method of its own
                if let Some(t) = &fo.ifs {
                    let (first, rest) = t.split_once('\n').unwrap();
                    let (skip, head) = first.split_once("=>").expect("ifs: FIELD => IMPL");
                    // with a third entry: what is looked at may be a getter, and the first `let` is handed on as $D
                    let (head, arg) = head.split_once("=>").map_or((head, None), |(h, a)| (h, Some(a.trim())));
                    let local = match b.stmts.first() {
                        Some(Stmt::Local(l)) => match &l.pat {
                            Pat::Ident(p) => p.ident.to_string(),
                            _ => String::new(),
                        },
                        _ => String::new(),
                    };
                    let mut n: BTreeMap<String, usize> = BTreeMap::new();
                    for st in &b.stmts {
                        let Stmt::Expr(Expr::If(i), _) = st else { continue };
                        let mut v = SelfFields(BTreeSet::new(), arg.is_some());
                        v.visit_expr_if(i);
                        v.0.remove(skip.trim());
                        if v.0.len() != 1 {
                            continue;
                        }
                        let name = v.0.pop_first().unwrap();
                        let k = n.entry(name.clone()).or_default();
                        *k += 1;
                        let tag = if *k == 1 { name.clone() } else { format!("{name}_{k}") };
                        let (s, e) = range(i.span());
                        let body = cx.ed.apply(cx.src, s, e);
                        let pk = format!("{key} (part {tag})");
                        let spec = rest.trim().replace("$TAG", &tag).replace("$X", &name).replace("$D", &local);
                        let (sp, hint) = spec.split_once("\n---\n").unwrap_or((&spec, ""));
                        cx.parts.push_str(&format!("{} {{\n/*@fn {pk}*/ {sp}\n{{\n{hint}\n{body}\n}}/*@end*/\n}}\n", head.trim()));
                        let fname = sp.split("fn ").nth(1).unwrap().split('(').next().unwrap().trim();
                        cx.ed.replace(s, e, format!("self.{fname}({})", arg.unwrap_or("").replace("$D", &local)));
                        parts.push(FnRep {
                            key: pk, mode: "verify", listed: true, loops: 0, loops_spec: 0,
                            missing_closures: vec![], extra_closures: vec![], reason: String::new(),
                            shape: String::new(), hints: false, params: vec![],
                        });
                        // a statement on its own
                        cx.ed.insert(e, ";");
                    }
                    // the method is written for a body of such `if`s and nothing else
                    if parts.len() + if arg.is_some() { 2 } else { 0 } != b.stmts.len() {
                        rep.missing_closures.push("its ifs".into());
                    }
                }
                // parts of a long function, each verified on its own
                let lets: Vec<(String, usize)> = b
                    .stmts
                    .iter()
                    .filter_map(|s| match s {
                        Stmt::Local(l) => match &l.pat {
                            Pat::Ident(p) => Some((p.ident.to_string(), range(l.span()).0)),
                            _ => None,
                        },
                        _ => None,
                    })
                    .collect();
                let last = match b.stmts.last() {
                    Some(Stmt::Expr(e, None)) => Some(range(e.span()).0),
                    _ => None,
                };
                let at: Vec<Option<usize>> = fo.parts.iter().map(|x| lets.iter().find(|l| l.0 == x.at).map(|l| l.1)).collect();
                if !at.is_empty() {
                    if at.iter().all(|x| x.is_some()) && last.is_some() && at.windows(2).all(|w| w[0] < w[1]) {
                        let mut cut: Vec<usize> = at.iter().map(|x| x.unwrap()).collect();
                        cut.push(last.unwrap());
                        for (k, x) in fo.parts.iter().enumerate() {
                            let body = cx.ed.apply(cx.src, cut[k], cut[k + 1]);
                            let pk = format!("{key} (part {})", x.name);
                            cx.parts.push_str(&format!(
                                "/*@fn {pk}*/ {}\n{}\n{{\n{}\n{body}\n{}\n}}/*@end*/\n",
                                x.sig, x.spec, x.start, x.out
                            ));
                            parts.push(FnRep {
                                key: pk,
                                mode: "verify",
                                listed: true,
                                loops: 0,
                                loops_spec: 0,
                                missing_closures: rep.missing_closures.clone(),
                                extra_closures: rep.extra_closures.clone(),
                                reason: String::new(),
                                shape: rep.shape.clone(),
                                hints: true,
                                params: vec![],
                            });
                        }
                        for (k, x) in fo.parts.iter().enumerate() {
                            cx.ed.replace(cut[k], cut[k + 1], format!("{}\n        ", x.call));
                        }
                    } else {
                        rep.missing_closures.push("its parts".into());
                    }
                }
                if !fo.tail.trim().is_empty() {
                    match b.stmts.last() {
                        Some(Stmt::Expr(e, None)) => {
                            let (s, t) = range(e.span());
                            let name = if fo.ret.is_empty() { "vp_r" } else { &fo.ret };
                            cx.ed.insert(s, format!("let {name} = "));
                            cx.ed.insert(t, format!(";\nproof {{ {} }}\n{name}\n", fo.tail));
                        }
                        _ => {
                            cx.ed.insert(be - 1, format!("\nproof {{ {} }}\n", fo.tail));
                        }
                    }
                }
            }
        }
        cx.ed.insert(span.1, "/*@end*/");
        self.fns.push(rep);
        self.fns.append(&mut parts);
    }

    pub fn bindings_module(&self) -> String {
        let mut out = String::from("#[allow(unused, non_snake_case, non_upper_case_globals, non_camel_case_types)]\npub mod bindings {\nuse vstd::prelude::*;\nuse crate::vp::*;\nverus! {\n");
        for u in self.used_consts.borrow().iter() {
            let c = &self.consts.map[u];
            out.push_str(&format!("pub const {u}: {} = {};\n", c.ty, c.val));
        }
        if let Some(t) = self.ov.modules.get("bindings") {
            out.push_str(t);
        }
        out.push_str("} // verus!\n} // mod bindings\n");
        out
    }

    pub fn report(&self, text: &str) -> String {
        fn esc(s: &str) -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        fn arr(v: &[String]) -> String {
            format!("[{}]", v.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","))
        }
        // line ranges of the functions in the generated file
        let mut lines: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        let mut stack: Vec<(String, usize)> = vec![];
        for (n, l) in text.lines().enumerate() {
            let mut rest = l;
            loop {
                let a = rest.find("/*@fn ");
                let b = rest.find("/*@end*/");
                match (a, b) {
                    (Some(x), y) if y.map_or(true, |y| x < y) => {
                        let r = &rest[x + 6..];
                        let e = r.find("*/").unwrap();
                        stack.push((r[..e].to_string(), n + 1));
                        rest = &r[e + 2..];
                    }
                    (_, Some(y)) => {
                        if let Some((k, s)) = stack.pop() {
                            lines.insert(k, (s, n + 1));
                        }
                        rest = &rest[y + 8..];
                    }
                    _ => break,
                }
            }
        }
        let mut f = vec![];
        for r in &self.fns {
            let (a, b) = lines.get(&r.key).copied().unwrap_or((0, 0));
            f.push(format!(
                "{{\"key\":{},\"mode\":{},\"listed\":{},\"loops\":{},\"loops_spec\":{},\"missing_closures\":{},\"extra_closures\":{},\"reason\":{},\"shape\":{},\"hints\":{},\"params\":{},\"from\":{a},\"to\":{b}}}",
                esc(&r.key), esc(r.mode), r.listed, r.loops, r.loops_spec, arr(&r.missing_closures), arr(&r.extra_closures), esc(&r.reason), esc(&r.shape), r.hints, arr(&r.params)
            ));
        }
        let lost: Vec<String> = self
            .ov
            .fns
            .iter()
            .filter(|(k, v)| v.listed && !self.seen.contains(*k))
            .map(|(k, _)| k.clone())
            .collect();
        let lost_impls: Vec<String> = self
            .ov
            .impls
            .keys()
            .filter(|k| !self.seen.contains(&format!("impl {k}")))
            .cloned()
            .collect();
        let dropped: Vec<String> = self.dropped.iter().cloned().collect();
        format!(
            "{{\"functions\":[\n{}\n],\n\"lost\":{},\n\"lost_impls\":{},\n\"dropped\":{},\n\"notes\":{}}}\n",
            f.join(",\n"),
            arr(&lost),
            arr(&lost_impls),
            arr(&dropped),
            arr(&self.notes)
        )
    }
}

struct Body<'a> {
    ed: &'a mut Edits,
    src: &'a str,
    fo: &'a FnOv,
    nloops: usize,
    lets: Vec<String>,
    closure_count: BTreeMap<String, usize>,
    used_closures: BTreeSet<String>,
    extra: Vec<String>,
    substs: usize,
    rename_self: bool,
    /// parameterless `let mut` closures, inlined where they are called
    inline: BTreeMap<String, String>,
    /// names bound in the function, with repetitions
    binds: Vec<String>,
}

/// Whether a parameterless closure can be written out at its uses: no control flow leaves its body.
fn can_inline(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = false }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = false }
        fn visit_expr_break(&mut self, _: &'ast ExprBreak) { self.0 = false }
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) { self.0 = false }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) { self.0 = false }
        fn visit_local(&mut self, _: &'ast Local) { self.0 = false }
        fn visit_macro(&mut self, _: &'ast Macro) { self.0 = false }
    }
    let mut v = V(true);
    v.visit_expr(e);
    v.0
}

/// the text of a closure body that can be repeated in a specification: names, fields, literals, dereferences,
/// comparisons, bit operations
fn plain_closure(c: &ExprClosure) -> Option<String> {
    fn plain(e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.qself.is_none(),
            Expr::Lit(_) => true,
            Expr::Paren(p) => plain(&p.expr),
            Expr::Group(p) => plain(&p.expr),
            Expr::Field(f) => plain(&f.base),
            Expr::Cast(c) => plain(&c.expr),
            Expr::Tuple(t) => t.elems.iter().all(plain),
            // a constructor
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let last = last_ident(&p.path);
                    p.qself.is_none() && last.starts_with(char::is_uppercase) && last.chars().any(char::is_lowercase) && c.args.iter().all(plain)
                }
                _ => false,
            },
            Expr::Unary(u) => matches!(u.op, UnOp::Deref(_) | UnOp::Not(_)) && plain(&u.expr),
            Expr::Binary(b) => {
                matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_)
                    | BinOp::Or(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_))
                    && plain(&b.left) && plain(&b.right)
            }
            _ => false,
        }
    }
    fn params(p: &Pat) -> bool {
        match p {
            Pat::Ident(i) => i.by_ref.is_none() && i.mutability.is_none(),
            Pat::Wild(_) => true,
            Pat::Type(t) => params(&t.pat),
            _ => false,
        }
    }
    let ok = matches!(c.output, ReturnType::Default) && c.inputs.iter().all(params) && plain(&c.body);
    ok.then(|| c.body.to_token_stream().to_string())
}

fn bound_names(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, e: &'ast syn::PatIdent) {
            self.0.push(e.ident.to_string());
            syn::visit::visit_pat_ident(self, e)
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}

impl<'a> Body<'a> {
    /// a name used in `e` is bound more than once in the function, so `e` may mean something else elsewhere
    fn shadows(&self, e: &Expr) -> bool {
        struct V<'b>(&'b [String], bool);
        impl<'b, 'ast> Visit<'ast> for V<'b> {
            fn visit_ident(&mut self, i: &'ast Ident) {
                let n = i.to_string();
                self.1 |= self.0.iter().filter(|x| **x == n).count() > 1;
            }
        }
        let mut v = V(&self.binds, false);
        v.visit_expr(e);
        v.1
    }
    fn loop_at(&mut self, body: &Block, whole: (usize, usize), iter: Option<&Expr>) {
        let i = self.nloops;
        self.nloops += 1;
        if let Some(l) = self.fo.loops.get(&i) {
            let (s, _) = range(body.brace_token.span.open());
            let (_, e) = range(body.brace_token.span.close());
            self.ed.insert(s, format!("\n{}", l.spec));
            if !l.start.is_empty() {
                self.ed.insert(s + 1, format!("\n{}", l.start));
            }
            if !l.end.is_empty() {
                self.ed.insert(e - 1, format!("\n{}", l.end));
            }
            if !l.pre.is_empty() {
                self.ed.insert(whole.0, format!("{}\n", l.pre));
            }
            if let (Some(x), false) = (iter, l.iter.is_empty()) {
                let (s, _) = range(x.span());
                self.ed.insert(s, format!("{}: ", l.iter));
            }
        }
    }

    fn mac(&mut self, m: &Macro, whole: (usize, usize), stmt: bool) {
        let name = last_ident(&m.path);
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        let text = |e: &Expr| {
            let (a, b) = range(e.span());
            self.src[a..b].to_string()
        };
        let semi = if stmt { ";" } else { "" };
        let new = match &*name {
            "assert" | "debug_assert" => args().ok().map(|a| format!("vp_assert({}){semi}", text(&a[0]))),
            "assert_ne" | "debug_assert_ne" => args().ok().map(|a| format!("vp_assert({} != {}){semi}", text(&a[0]), text(&a[1]))),
            "assert_eq" | "debug_assert_eq" => args().ok().map(|a| format!("vp_assert({} == {}){semi}", text(&a[0]), text(&a[1]))),
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(if stmt { "return vp_panic();".into() } else { "vp_panic()".to_string() }),
            "format_args" | "format" => Some(format!("vp_message(){semi}")),
            _ => None,
        };
        if let Some(t) = new {
            self.ed.replace(whole.0, whole.1, t);
        }
    }
}

/// matches on parameters, and the uses of one local variable in them
struct Outline {
    params: BTreeMap<String, String>,
    found: Vec<(String, (usize, usize), Vec<(usize, usize)>)>,
    flag: String,
}
impl<'ast> Visit<'ast> for Outline {
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        if let Expr::Path(p) = &*m.expr {
            if let Some(n) = p.path.get_ident().map(|i| i.to_string()).filter(|n| self.params.contains_key(n)) {
                struct V(String, Vec<(usize, usize)>);
                impl<'ast> Visit<'ast> for V {
                    fn visit_ident(&mut self, i: &'ast Ident) {
                        if *i == self.0 {
                            self.1.push(range(i.span()));
                        }
                    }
                }
                let mut v = V(self.flag.clone(), vec![]);
                v.visit_expr_match(m);
                self.found.push((n, range(m.span()), v.1));
                return;
            }
        }
        visit::visit_expr_match(self, m);
    }
}
/// the fields of self that are mentioned
struct SelfFields(BTreeSet<String>, bool);
impl<'ast> Visit<'ast> for SelfFields {
    fn visit_expr_field(&mut self, f: &'ast ExprField) {
        if let (Expr::Path(p), Member::Named(n)) = (&*f.base, &f.member) {
            if p.path.is_ident("self") {
                self.0.insert(n.to_string());
            }
        }
        visit::visit_expr_field(self, f);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if let (Expr::Path(p), true) = (&*m.receiver, self.1) {
            if p.path.is_ident("self") && m.args.is_empty() {
                self.0.insert(m.method.to_string());
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}
fn norm_ty(t: &str) -> String {
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn norm(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

impl<'a, 'ast> Visit<'ast> for Body<'a> {
    fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
        // a look at the other member of a union
        if let Expr::Field(f) = &*r.expr {
            if matches!(&f.member, Member::Named(n) if n == "__bindgen_anon_1") && r.mutability.is_none() {
                let (s, e) = range(f.span());
                self.ed.insert(s, "(*");
                let (_, b) = range(f.base.span());
                self.ed.replace(b, e, ".vp_anon_1())");
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        if !self.fo.subst.is_empty() {
            let (s, t) = range(e.span());
            let n = norm(&self.src[s..t]);
            if let Some((_, r)) = self.fo.subst.iter().find(|(a, _)| norm(a) == n) {
                self.ed.replace(s, t, r.clone());
                self.substs += 1;
                return;
            }
        }
        visit::visit_expr(self, e);
    }
    fn visit_attribute(&mut self, a: &'ast Attribute) {
        let (s, e) = range(a.span());
        self.ed.delete(s, e);
    }
    fn visit_expr_while(&mut self, n: &'ast ExprWhile) {
        self.loop_at(&n.body, range(n.span()), None);
        visit::visit_expr_while(self, n);
    }
    fn visit_expr_loop(&mut self, n: &'ast ExprLoop) {
        self.loop_at(&n.body, range(n.span()), None);
        visit::visit_expr_loop(self, n);
    }
    fn visit_expr_for_loop(&mut self, n: &'ast ExprForLoop) {
        let i = self.nloops;
        if self.fo.loops.get(&i).map_or(false, |l| l.items) && n.label.is_none() {
            // `for P in X { B }` -> take the items, then count through them
            let (fs, _) = range(n.span());
            let (xs, xe) = range(n.expr.span());
            let (bs, _) = range(n.body.brace_token.span.open());
            self.ed.replace(fs, xs, format!("let vp_v{i} = vp_items("));
            self.ed.replace(xe, bs, format!("); let mut vp_i{i}: usize = 0; while vp_i{i} < vp_v{i}.len() "));
            self.loop_at(&n.body, range(n.span()), None);
            let (pat, star) = match &*n.pat {
                Pat::Reference(r) => (&*r.pat, "*"),
                p => (p, ""),
            };
            let (ps, pe) = range(pat.span());
            self.ed.insert(bs + 1, format!(" let {} = {star}vp_v{i}[vp_i{i}]; vp_i{i} = vp_i{i} + 1; ", &self.src[ps..pe]));
            self.visit_expr(&n.expr);
            visit::visit_block(self, &n.body);
            return;
        }
        self.loop_at(&n.body, range(n.span()), Some(&n.expr));
        visit::visit_expr_for_loop(self, n);
    }
    fn visit_item(&mut self, i: &'ast Item) {
        match i {
            Item::Fn(_) | Item::Impl(_) | Item::Struct(_) => {}
            i => visit::visit_item(self, i),
        }
    }
    fn visit_local(&mut self, l: &'ast Local) {
        // `let [a] = e;` -> `let vp_arr = e; let a = vp_arr[0];`
        if let Pat::Slice(p) = &l.pat {
            if let Some(init) = &l.init {
                let names: Vec<String> = p.elems.iter().map(|e| e.to_token_stream().to_string()).collect();
                let (ps, pe) = range(p.span());
                self.ed.replace(ps, pe, format!("vp_arr: [_; {}]", names.len()));
                let mut t = String::new();
                for (i, n) in names.iter().enumerate() {
                    t.push_str(&format!(" let {n} = vp_arr[{i}];"));
                }
                let (_, e) = range(l.semi_token.span());
                self.ed.insert(e, t);
                self.visit_expr(&init.expr);
                return;
            }
        }
        // `let mut f = || e;` captures by reference: written out where it is called
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let (Some(_), Expr::Closure(c)) = (&i.mutability, &*init.expr) {
                if c.inputs.is_empty() && c.capture.is_none() && can_inline(&c.body) && !self.shadows(&c.body) {
                    self.visit_expr(&c.body);
                    let (s, e) = range(c.body.span());
                    let t = self.ed.apply(self.src, s, e);
                    self.inline.insert(i.ident.to_string(), t);
                    let (s, e) = range(l.span());
                    self.ed.delete(s, e);
                    return;
                }
            }
        }
        let name = match &l.pat {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "_".into(),
            },
            _ => "_".into(),
        };
        self.lets.push(name);
        visit::visit_local(self, l);
        self.lets.pop();
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        let base = self.lets.last().cloned().unwrap_or_default();
        let n = self.closure_count.entry(base.clone()).or_insert(0);
        let key = format!("{base}#{n}");
        *n += 1;
        if let Some(cl) = self.fo.closures.get(&key).cloned() {
            self.used_closures.insert(key.clone());
            let ClOv { params, ret, spec, start } = cl;
            let (s, _) = range(c.or1_token.span());
            let (_, e) = range(c.or2_token.span());
            if !params.is_empty() {
                self.ed.replace(s, e, format!("|{params}|"));
            }
            let (bs, be) = range(c.body.span());
            let is_block = matches!(&*c.body, Expr::Block(b) if b.attrs.is_empty() && b.label.is_none());
            let mut head = String::new();
            if !ret.is_empty() {
                head = format!(" -> ({ret})\n{spec}\n");
            }
            if is_block {
                self.ed.insert(bs, head);
                if !start.is_empty() {
                    self.ed.insert(bs + 1, format!("\n{start}"));
                }
            } else {
                self.ed.insert(bs, format!("{head}{{ {start} "));
                self.ed.insert(be, " }");
            }
        } else if let Some(b) = plain_closure(c) {
            // a closure that only selects or compares says in its contract what it does
            let (bs, be) = range(c.body.span());
            self.ed.insert(bs, format!(" -> (vp_r: _) ensures crate::vp::same(vp_r, {b}) {{ "));
            self.ed.insert(be, " }");
        } else {
            self.extra.push(key);
        }
        visit::visit_expr(self, &c.body);
    }
    fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
        // `P if G => A, P => B` -> `P => if G { A } else { B }`
        for w in m.arms.windows(2) {
            let (a, b) = (&w[0], &w[1]);
            let same = norm(&a.pat.to_token_stream().to_string()) == norm(&b.pat.to_token_stream().to_string());
            if let (Some((i, g)), None, true) = (&a.guard, &b.guard, same) {
                let (s, _) = range(i.span());
                let (gs, ge) = range(g.span());
                self.ed.replace(s, gs, " => if ");
                let (bs, be) = range(a.body.span());
                self.ed.replace(ge, bs, " { ");
                let (cs, ce) = range(b.body.span());
                self.ed.replace(be, cs, " } else { ");
                self.ed.insert(ce, " }");
            }
        }
        if let (Expr::Path(x), false) = (&*m.expr, self.fo.match_post.is_empty()) {
            let x = x.to_token_stream().to_string();
            let (s, e) = range(m.span());
            self.ed.insert(s, format!("{{ {} let vp_m = ", self.fo.match_pre.trim().replace("$X", &x)));
            self.ed.insert(e, format!("; proof {{ {} }} vp_m }}", self.fo.match_post.trim().replace("$X", &x)));
        }
        visit::visit_expr_match(self, m);
        // `P if G => A, _ => B` -> `P => { if G { A } else { B } }, _ => B`, where B is not about what is matched
        if let [.., a, b] = &m.arms[..] {
            if let (Some((i, g)), None, Pat::Wild(_)) = (&a.guard, &b.guard, &b.pat) {
                let root = m.expr.to_token_stream().into_iter().next().map(|t| t.to_string()).unwrap_or_default();
                let plain = matches!(&*m.expr, Expr::Path(_) | Expr::Field(_));
                let again = b.body.to_token_stream().to_string();
                let loops = again.contains('|') || again.contains("loop") || again.contains("while") || again.contains("for ");
                if !(plain && bound_in(&b.body, &root)) && !loops && !matches!(a.pat, Pat::Wild(_)) {
                    let (bs, be) = range(b.body.span());
                    let other = self.ed.apply(self.src, bs, be);
                    let (s, _) = range(i.span());
                    let (gs, ge) = range(g.span());
                    let (xs, xe) = range(a.body.span());
                    self.ed.replace(s, gs, " => { if ");
                    self.ed.replace(ge, xs, " { ");
                    self.ed.insert(xe, format!(" }} else {{ {other} }} }}"));
                }
            }
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let name = m.method.to_string();
        let (ms, me) = range(m.span());
        let (_, re) = range(m.receiver.span());
        let wrap = match &*name {
            "into" if m.args.is_empty() => match &*m.receiver {
                Expr::MethodCall(x) if x.method == "into_owned" && x.args.is_empty() => {
                    let (_, e) = range(x.receiver.span());
                    self.ed.insert(ms, "vp_own(");
                    self.ed.replace(e, me, ")");
                    self.visit_expr(&x.receiver);
                    return;
                }
                _ if !self.fo.into.is_empty() => Some(format!("{}(", self.fo.into)),
                _ => None,
            },
            "fill_buf" | "consume" | "to_ne_bytes" => {
                let (s, e) = range(m.method.span());
                self.ed.replace(s, e, format!("vp_{}", m.method));
                None
            }
            "flat_map" if m.args.len() == 1 => match (&*m.receiver, &m.args[0]) {
                // `X.chars().flat_map(|c| c.escape_debug())`, `X.iter().flat_map(|b| b.escape_ascii())`
                (Expr::MethodCall(x), Expr::Closure(c)) if x.args.is_empty() && c.inputs.len() == 1 => {
                    let a = norm(&c.inputs[0].to_token_stream().to_string());
                    let b = norm(&c.body.to_token_stream().to_string());
                    let how = b.strip_prefix(&format!("{a}.")).and_then(|b| b.strip_suffix("()")).unwrap_or("");
                    if [("chars", "escape_debug"), ("iter", "escape_ascii")].contains(&(&*x.method.to_string(), how)) {
                        let (_, e) = range(x.receiver.span());
                        self.ed.insert(ms, format!("vp_{how}("));
                        self.ed.replace(e, me, ")");
                        self.visit_expr(&x.receiver);
                        return;
                    }
                    None
                }
                _ => None,
            },
            "assume_init_drop" => Some("vp_drop_field(&mut ".to_string()),
            "to_mut" => Some("vp_to_mut(&mut ".to_string()),
            "copied" => match &*m.receiver {
                Expr::MethodCall(x) if x.method == "iter" && x.args.is_empty() => {
                    let (_, e) = range(x.receiver.span());
                    self.ed.insert(ms, "vp_iter_copied(&");
                    self.ed.replace(e, me, ")");
                    self.visit_expr(&x.receiver);
                    return;
                }
                _ => None,
            },
            "then" if m.args.len() == 1 => {
                let x = match &m.args[0] {
                    Expr::Reference(r) => &*r.expr,
                    x => x,
                };
                match x {
                    Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.inline.contains_key(&i.to_string())) => {
                        let t = self.inline[&p.path.get_ident().unwrap().to_string()].clone();
                        self.ed.insert(ms, "(if ");
                        self.ed.replace(re, me, format!(" {{ Some({t}) }} else {{ None }})"));
                        self.visit_expr(&m.receiver);
                        return;
                    }
                    _ => None,
                }
            }
            "extend" if m.args.len() == 1 => {
                self.ed.insert(ms, "vp_extend(&mut ");
                let (as_, _) = range(m.args[0].span());
                self.ed.replace(re, as_, ", ");
                None
            }
            "align_to" if m.turbofish.is_none() => Some("vp_align_to(".to_string()),
            "spare_capacity_mut" => Some("vp_spare(&mut ".to_string()),
            "collect" => match &*m.receiver {
                Expr::MethodCall(x) if x.method == "drain" && x.args.len() == 1 => match &x.args[0] {
                    Expr::Range(r) if r.end.is_none() && r.start.is_some() => {
                        let n = r.start.as_ref().unwrap();
                        let (ns, ne) = range(n.span());
                        let (_, e) = range(x.receiver.span());
                        self.ed.insert(ms, "vp_drain_tail(&mut ");
                        self.ed.replace(e, ns, ", ");
                        self.ed.replace(ne, me, ")");
                        self.visit_expr(&x.receiver);
                        self.visit_expr(n);
                        return;
                    }
                    _ => None,
                },
                _ => None,
            },
            "set_len" if m.args.len() == 1 => {
                self.ed.insert(ms, "vp_set_len(&mut ");
                let (as_, _) = range(m.args[0].span());
                self.ed.replace(re, as_, ", ");
                None
            }
            _ => None,
        };
        if let Some(w) = wrap {
            self.ed.insert(ms, w);
            self.ed.replace(re, me, ")");
            self.visit_expr(&m.receiver);
            return;
        }
        if m.method == "map" && m.args.len() == 1 {
            // `X.map(|v| &**v)`
            if let Expr::Closure(c) = &m.args[0] {
                let b = norm(&c.body.to_token_stream().to_string());
                if c.inputs.len() == 1 && b == format!("&**{}", norm(&c.inputs[0].to_token_stream().to_string())) {
                    self.ed.insert(ms, "vp_map_deref(");
                    self.ed.replace(re, me, ")");
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
            if let Expr::Path(p) = &m.args[0] {
                if p.path.is_ident("Some") {
                    let (s, e) = range(p.span());
                    self.ed.replace(s, e, "vp_some");
                }
            }
        }
        if ["map", "map_err", "and_then"].contains(&&*name) && m.args.len() == 1 {
            // a tuple constructor as a function value
            if let Expr::Path(p) = &m.args[0] {
                let last = last_ident(&p.path);
                let ctor = p.qself.is_none() && last != "Some" && last.starts_with(char::is_uppercase) && (last.chars().any(char::is_lowercase));
                if ctor {
                    let (s, e) = range(p.span());
                    let t = self.src[s..e].to_string();
                    self.ed.replace(s, e, format!("|vp_x| -> (vp_r: _) ensures crate::vp::same(vp_r, {t}(vp_x)) {{ {t}(vp_x) }}"));
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if let Some(t) = p.path.get_ident().and_then(|i| self.inline.get(&i.to_string())) {
                if c.args.is_empty() {
                    let (s, e) = range(c.span());
                    self.ed.replace(s, e, format!("({t})"));
                    return;
                }
            }
            let t: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = t.len();
            if n >= 2 && t[n - 2] == "Vec" && t[n - 1] == "with_capacity" && c.args.len() == 1 {
                let (s, e) = range(p.span());
                self.ed.replace(s, e, "vp_with_capacity");
                let (x, _) = range(c.paren_token.span.close());
                let b = if self.fo.alloc.is_empty() { "small()" } else { &self.fo.alloc };
                self.ed.insert(x, format!(", Ghost({b})"));
            }
            if t.join("::") == "core::panicking::panic" {
                let (s, e) = range(c.span());
                self.ed.replace(s, e, "vp_panic()");
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        let t: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = t.len();
        if p.qself.is_none() && n >= 2 && ["u16", "u32", "u64"].contains(&&*t[n - 2]) && t[n - 1].ends_with("_bytes") {
            let (s, e) = range(p.span());
            self.ed.replace(s, e, format!("vp_{}_{}", t[n - 2], t[n - 1]));
        }
        if p.qself.is_none() && n >= 2 {
            let to = match (&*t[n - 2], &*t[n - 1]) {
                ("OsStrExt" | "OsStr", "from_bytes") => Some("vp_os_str"),
                ("Path", "new") => Some("vp_path"),
                ("str", "from_utf8") => Some("vp_from_utf8"),
                ("str", "from_utf8_unchecked") => Some("vp_from_utf8_unchecked"),
                _ => None,
            };
            if let Some(to) = to {
                let (s, e) = range(p.span());
                self.ed.replace(s, e, to);
            }
        }
        if self.rename_self && n == 1 && t[0] == "self" {
            let (s, e) = range(p.span());
            self.ed.replace(s, e, "vp_self");
        }
    }
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
        self.mac(&m.mac, range(m.span()), false);
    }
    fn visit_stmt_macro(&mut self, m: &'ast StmtMacro) {
        let whole = range(m.span());
        self.mac(&m.mac, whole, m.semi_token.is_some());
    }
}

const FLAGS_TEMPLATE: &str = include_str!("flags.tmpl");

struct Shape(Vec<String>);
impl<'ast> Visit<'ast> for Shape {
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) { self.0.push("while".into()); syn::visit::visit_expr_while(self, e) }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) { self.0.push("loop".into()); syn::visit::visit_expr_loop(self, e) }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) { self.0.push("for".into()); syn::visit::visit_expr_for_loop(self, e) }
    fn visit_expr_closure(&mut self, e: &'ast syn::ExprClosure) { self.0.push("closure".into()); syn::visit::visit_expr_closure(self, e) }
    fn visit_pat_ident(&mut self, e: &'ast syn::PatIdent) { self.0.push(e.ident.to_string()); syn::visit::visit_pat_ident(self, e) }
}
/// whether an expression mentions a name
fn bound_in(e: &Expr, n: &str) -> bool {
    fn rec(t: TokenStream, n: &str) -> bool {
        t.into_iter().any(|x| match x {
            proc_macro2::TokenTree::Ident(i) => i == n,
            proc_macro2::TokenTree::Group(g) => rec(g.stream(), n),
            _ => false,
        })
    }
    rec(e.to_token_stream(), n)
}
fn param_names(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .enumerate()
        .map(|(k, i)| match i {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) => p.ident.to_string(),
                Pat::Wild(_) => format!("_vp{k}"),
                _ => String::new(),
            },
            _ => String::new(),
        })
        .collect()
}
fn shape(b: &Block) -> String {
    let mut s = Shape(vec![]);
    s.visit_block(b);
    s.0.sort();
    s.0.join(" ")
}
