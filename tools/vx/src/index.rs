//! Finds every item of the source roots, with its module path; expands item-position macros of the repository.
use crate::mbe::Rules;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use syn::{Attribute, ImplItem, Item, Meta};

pub enum Kind {
    Fn(syn::ItemFn),
    Method { imp: syn::ItemImpl, f: syn::ImplItemFn },
    TraitFn { tr: syn::ItemTrait, f: syn::TraitItemFn },
    Struct(syn::ItemStruct),
    Enum(syn::ItemEnum),
    Const { name: String, ty: syn::Type, expr: syn::Expr },
    TypeAlias(syn::ItemType),
}

pub struct It {
    pub key: String,
    pub module: Vec<String>,
    pub kind: Kind,
    pub file: String,
    pub line: usize,
}

pub struct Index {
    pub items: Vec<It>,
    pub macros: HashMap<String, Rules>,
    pub features: Vec<String>,
    pub errors: Vec<String>,
    /// functions (and methods) with a closure-typed generic parameter: name -> key
    pub hof: BTreeMap<String, usize>,
    pub builtins: Vec<String>,
    /// re-exports: alias path -> path as written, relative to the module
    pub uses: BTreeMap<String, String>,
    /// functions that touch the world (config `effects`), by key, and the calls that pass it on
    pub eff_fns: std::collections::BTreeSet<String>,
    pub eff_calls: std::collections::BTreeSet<String>,
    /// names of functions and methods of which every one in the source returns a Result
    pub res_fns: std::collections::BTreeSet<String>,
}

/// the calls of a function body: `f`, `T::f`, `.f`
fn calls_of(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    use proc_macro2::{Delimiter, TokenTree as T};
    let v: Vec<T> = ts.into_iter().collect();
    let punct = |i: usize, c: char| matches!(v.get(i), Some(T::Punct(p)) if p.as_char() == c);
    for i in 0..v.len() {
        if let T::Group(g) = &v[i] {
            calls_of(g.stream(), out);
            if g.delimiter() == Delimiter::Parenthesis && i > 0 {
                if let T::Ident(f) = &v[i - 1] {
                    if i > 1 && punct(i - 2, '.') {
                        out.push(format!(".{}", f));
                    } else if i > 3 && punct(i - 2, ':') && punct(i - 3, ':') {
                        if let T::Ident(t) = &v[i - 4] {
                            out.push(format!("{}::{}", t, f));
                        }
                    } else {
                        out.push(f.to_string());
                    }
                }
            }
        }
    }
}

impl Index {
    pub fn load(cfg: &Value) -> Index {
        let mut idx = Index {
            items: vec![],
            macros: HashMap::new(),
            features: cfg["features"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect(),
            errors: vec![],
            hof: BTreeMap::new(),
            builtins: vec![],
            uses: BTreeMap::new(),
            eff_fns: Default::default(),
            eff_calls: Default::default(),
            res_fns: Default::default(),
        };
        for r in cfg["roots"].as_array().unwrap() {
            let name = r["name"].as_str().unwrap();
            let dir = PathBuf::from(r["dir"].as_str().unwrap());
            let mut files = vec![];
            walk(&dir, &dir, &mut files);
            files.sort();
            let mut parsed = vec![];
            for f in files {
                let text = match std::fs::read_to_string(&f) {
                    Ok(t) => t,
                    Err(e) => {
                        idx.errors.push(format!("{}: {}", f.display(), e));
                        continue;
                    }
                };
                match syn::parse_file(&text) {
                    Ok(p) => {
                        let rel = f.strip_prefix(&dir).unwrap().to_path_buf();
                        parsed.push((rel, f.clone(), p));
                    }
                    Err(e) => idx.errors.push(format!("{}: {}", f.display(), e)),
                }
            }
            // macros first
            for (_, _, p) in &parsed {
                idx.collect_macros(&p.items);
            }
            for (rel, full, p) in parsed {
                let mut module = vec![name.to_string()];
                let mut comps: Vec<String> =
                    rel.components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
                let last = comps.pop().unwrap();
                module.extend(comps);
                let stem = last.trim_end_matches(".rs").to_string();
                if stem != "mod" && stem != "lib" && stem != "main" {
                    module.push(stem);
                }
                idx.collect(&module, p.items, &full.to_string_lossy());
            }
        }
        for (i, it) in idx.items.iter().enumerate() {
            let sig = match &it.kind {
                Kind::Fn(f) => &f.sig,
                Kind::Method { f, .. } => &f.sig,
                _ => continue,
            };
            if crate::lower::closure_param(sig).is_some() {
                idx.hof.insert(sig.ident.to_string(), i);
            }
        }
        idx.effects(cfg);
        idx
    }

    /// the functions of the scopes that make one of the calls of the world, directly or through each other
    fn effects(&mut self, cfg: &Value) {
        let mut other = std::collections::BTreeSet::new();
        for it in &self.items {
            let sig = match &it.kind {
                Kind::Fn(f) => &f.sig,
                Kind::Method { f, .. } => &f.sig,
                _ => continue,
            };
            let res = matches!(&sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::Path(p) if p.path.segments.last().unwrap().ident == "Result"));
            if res { self.res_fns.insert(sig.ident.to_string()); } else { other.insert(sig.ident.to_string()); }
        }
        self.res_fns.retain(|n| !other.contains(n));
        for e in cfg["effects"].as_array().unwrap() {
            let list = |k: &str| -> Vec<String> { e[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
            let scopes = list("scopes");
            let except: Vec<String> = e["except"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().to_string()).collect();
            let mut on: std::collections::BTreeSet<String> = list("calls").into_iter().collect();
            let mut fns = vec![];
            for it in &self.items {
                let (name, ty, body) = match &it.kind {
                    Kind::Fn(f) => (f.sig.ident.to_string(), None, { let b = &f.block; quote::quote!(#b) }),
                    Kind::Method { imp, f } => (f.sig.ident.to_string(), { let t = &imp.self_ty; Some(quote::quote!(#t).to_string()) }, { let b = &f.block; quote::quote!(#b) }),
                    _ => continue,
                };
                if !scopes.iter().any(|s| it.key.starts_with(s)) || except.iter().any(|s| it.key.starts_with(s)) {
                    continue;
                }
                let mut c = vec![];
                calls_of(body, &mut c);
                if let Some(t) = &ty {
                    for x in c.iter_mut() {
                        if let Some(f) = x.strip_prefix("Self::") {
                            *x = format!("{}::{}", t, f);
                        }
                    }
                }
                fns.push((it.key.clone(), name, ty, c));
            }
            loop {
                let mut more = false;
                for (key, name, ty, calls) in &fns {
                    if !self.eff_fns.contains(key) && calls.iter().any(|c| on.contains(c)) {
                        more = true;
                        self.eff_fns.insert(key.clone());
                        match ty {
                            Some(t) => {
                                on.insert(format!(".{}", name));
                                on.insert(format!("{}::{}", t, name));
                            }
                            None => {
                                on.insert(name.clone());
                            }
                        }
                    }
                }
                if !more {
                    break;
                }
            }
            on.extend(list("also"));
            self.eff_calls.extend(on);
        }
    }

    fn collect_macros(&mut self, items: &[Item]) {
        for it in items {
            match it {
                Item::Macro(m) if m.mac.path.is_ident("macro_rules") => {
                    if let Some(id) = &m.ident {
                        self.macros.insert(id.to_string(), Rules::parse(m.mac.tokens.clone()));
                    }
                }
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        self.collect_macros(items);
                    }
                }
                _ => (),
            }
        }
    }

    fn push(&mut self, module: &[String], name: String, kind: Kind, file: &str, line: usize) {
        let key = format!("{}::{}", module.join("::"), name);
        self.items.push(It { key, module: module.to_vec(), kind, file: file.to_string(), line });
    }

    fn collect(&mut self, module: &[String], items: Vec<Item>, file: &str) {
        for it in items {
            match it {
                Item::Fn(f) if self.cfg_ok(&f.attrs) => {
                    let n = f.sig.ident.to_string();
                    let l = f.sig.ident.span().start().line;
                    self.push(module, n, Kind::Fn(f), file, l);
                }
                Item::Struct(s) if self.cfg_ok(&s.attrs) => {
                    let n = s.ident.to_string();
                    let l = s.ident.span().start().line;
                    self.push(module, n, Kind::Struct(s), file, l);
                }
                Item::Enum(s) if self.cfg_ok(&s.attrs) => {
                    let n = s.ident.to_string();
                    let l = s.ident.span().start().line;
                    self.push(module, n, Kind::Enum(s), file, l);
                }
                Item::Type(s) if self.cfg_ok(&s.attrs) => {
                    let n = s.ident.to_string();
                    let l = s.ident.span().start().line;
                    self.push(module, n, Kind::TypeAlias(s), file, l);
                }
                Item::Const(c) if self.cfg_ok(&c.attrs) => {
                    let n = c.ident.to_string();
                    let l = c.ident.span().start().line;
                    self.push(module, n.clone(), Kind::Const { name: n, ty: *c.ty, expr: *c.expr }, file, l);
                }
                Item::Static(c) if self.cfg_ok(&c.attrs) => {
                    let n = c.ident.to_string();
                    let l = c.ident.span().start().line;
                    self.push(module, n.clone(), Kind::Const { name: n, ty: *c.ty, expr: *c.expr }, file, l);
                }
                Item::Impl(i) if self.cfg_ok(&i.attrs) => {
                    let ty = type_name(&i.self_ty);
                    let head = match &i.trait_ {
                        Some((_, p, _)) => {
                            format!("{}#{}", ty, p.segments.last().unwrap().ident)
                        }
                        None => ty,
                    };
                    let base = {
                        let mut b = i.clone();
                        b.items = b.items.into_iter().filter(|x| matches!(x, ImplItem::Type(_))).collect();
                        b
                    };
                    for x in i.items {
                        if let ImplItem::Fn(f) = x {
                            if !self.cfg_ok(&f.attrs) {
                                continue;
                            }
                            let l = f.sig.ident.span().start().line;
                            let n = format!("{}::{}", head, f.sig.ident);
                            self.push(module, n, Kind::Method { imp: base.clone(), f }, file, l);
                        }
                    }
                }
                Item::Trait(t) => {
                    let mut base = t.clone();
                    base.items.clear();
                    for x in t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            if f.default.is_some() {
                                let l = f.sig.ident.span().start().line;
                                let n = format!("{}#trait::{}", base.ident, f.sig.ident);
                                self.push(module, n, Kind::TraitFn { tr: base.clone(), f }, file, l);
                            }
                        }
                    }
                }
                Item::Mod(m) if self.cfg_ok(&m.attrs) => {
                    if let Some((_, items)) = m.content {
                        let mut m2 = module.to_vec();
                        m2.push(m.ident.to_string());
                        self.collect(&m2, items, file);
                    }
                }
                Item::Macro(m) if self.cfg_ok(&m.attrs) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "macro_rules" {
                        continue;
                    }
                    if name == "define_functions" {
                        // the table of built-in parsers: the expressions, in order
                        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                        if let Ok(l) = syn::parse::Parser::parse2(p, m.mac.tokens.clone()) {
                            for e in l {
                                self.builtins.push(quote::quote!(#e).to_string().replace(' ', ""));
                            }
                        }
                        continue;
                    }
                    if let Some(r) = self.macros.get(&name) {
                        match r.expand(m.mac.tokens.clone()).and_then(|ts| syn::parse2::<syn::File>(ts).ok()) {
                            Some(f) => self.collect(module, f.items, file),
                            None => self.errors.push(format!("{}: cannot expand {}!", file, name)),
                        }
                    }
                }
                Item::Use(u) => {
                    let mut v = vec![];
                    use_tree(&u.tree, &mut vec![], &mut v);
                    for (alias, path) in v {
                        let k = format!("{}::{}", module.join("::"), alias);
                        self.uses.insert(k, path);
                    }
                }
                _ => (),
            }
        }
    }

    pub fn cfg_ok(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                match a.parse_args::<Meta>() {
                    Ok(m) => self.eval(&m),
                    Err(_) => true,
                }
            } else {
                true
            }
        })
    }

    fn eval(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => {
                if p.is_ident("test") {
                    false
                } else {
                    p.is_ident("unix") || p.is_ident("debug_assertions")
                }
            }
            Meta::NameValue(nv) => {
                let v = match &nv.value {
                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
                    _ => return false,
                };
                if nv.path.is_ident("feature") {
                    self.features.contains(&v)
                } else if nv.path.is_ident("target_os") {
                    v == "linux"
                } else {
                    false
                }
            }
            Meta::List(l) => {
                let p = syn::punctuated::Punctuated::<Meta, syn::Token![,]>::parse_terminated;
                let ms: Vec<Meta> = match syn::parse::Parser::parse2(p, l.tokens.clone()) {
                    Ok(x) => x.into_iter().collect(),
                    Err(_) => return false,
                };
                if l.path.is_ident("not") {
                    !ms.iter().all(|x| self.eval(x))
                } else if l.path.is_ident("all") {
                    ms.iter().all(|x| self.eval(x))
                } else {
                    ms.iter().any(|x| self.eval(x))
                }
            }
        }
    }
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => quote::quote!(#t).to_string().replace(' ', ""),
    }
}

fn use_tree(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut Vec<(String, String)>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            use_tree(&p.tree, pre, out);
            pre.pop();
        }
        syn::UseTree::Name(n) => {
            let mut v = pre.clone();
            v.push(n.ident.to_string());
            out.push((n.ident.to_string(), v.join("::")));
        }
        syn::UseTree::Rename(r) => {
            let mut v = pre.clone();
            v.push(r.ident.to_string());
            out.push((r.rename.to_string(), v.join("::")));
        }
        syn::UseTree::Group(g) => {
            for x in &g.items {
                use_tree(x, pre, out);
            }
        }
        syn::UseTree::Glob(_) => (),
    }
}

fn walk(root: &Path, d: &Path, out: &mut Vec<PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            let n = e.file_name().to_string_lossy().to_string();
            if p.is_dir() {
                if n != "tests" && n != "target" {
                    walk(root, &p, out);
                }
            } else if n.ends_with(".rs") && n != "test.rs" {
                out.push(p);
            }
        }
    }
}
