//! Lowers functions and types to the subset of Rust that Verus accepts, by fixed syntactic rules.
use crate::index::{Index, It, Kind};
use crate::print;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;

type R<T> = std::result::Result<T, String>;

const ITER_SRC: &[&str] = &[
    "iter", "into_iter", "iter_mut", "chars", "lines", "split", "splitn", "rsplit", "split_whitespace", "components",
    "char_indices", "bytes", "windows", "keys", "values", "split_terminator", "rsplitn", "matches", "ancestors", "drain", "entries",
];
const ITER_ADAPT: &[&str] = &["enumerate", "rev", "skip", "take", "peekable", "zip", "chain", "flatten", "step_by", "cloned", "copied"];
const ITER_CLO: &[&str] = &["map", "filter", "filter_map", "inspect", "take_while", "skip_while", "map_while"];
const ITER_TERM_CLO: &[&str] = &["any", "all", "find", "position", "find_map", "for_each"];

/// method -> method of a shim trait (assumed contract on std)
const RENAME: &[(&str, &str)] = &[
    ("starts_with", "vx_starts_with"),
    ("ends_with", "vx_ends_with"),
    ("strip_prefix", "vx_strip_prefix"),
    ("strip_suffix", "vx_strip_suffix"),
    ("contains", "vx_contains"),
    ("split", "vx_split"),
    ("splitn", "vx_splitn"),
    ("split_once", "vx_split_once"),
    ("rsplit", "vx_rsplit"),
    ("split_whitespace", "vx_split_whitespace"),
    ("trim", "vx_trim"),
    ("trim_start", "vx_trim_start"),
    ("trim_end", "vx_trim_end"),
    ("trim_start_matches", "vx_trim_start_matches"),
    ("trim_end_matches", "vx_trim_end_matches"),
    ("trim_matches", "vx_trim_matches"),
    ("find", "vx_find"),
    ("rfind", "vx_rfind"),
    ("rsplit_once", "vx_rsplit_once"),
    ("eq_ignore_ascii_case", "vx_eq_ignore_ascii_case"),
    ("to_ascii_lowercase", "vx_to_ascii_lowercase"),
    ("to_ascii_uppercase", "vx_to_ascii_uppercase"),
    ("is_ascii_digit", "vx_is_ascii_digit"),
    ("is_ascii_alphabetic", "vx_is_ascii_alphabetic"),
    ("is_ascii_alphanumeric", "vx_is_ascii_alphanumeric"),
    ("is_ascii_whitespace", "vx_is_ascii_whitespace"),
    ("is_ascii", "vx_is_ascii"),
    ("is_alphabetic", "vx_is_alphabetic"),
    ("is_numeric", "vx_is_numeric"),
    ("is_control", "vx_is_control"),
    ("is_uppercase", "vx_is_uppercase"),
    ("is_lowercase", "vx_is_lowercase"),
    ("to_uppercase", "vx_to_uppercase"),
    ("chars", "vx_chars"),
    ("lines", "vx_lines"),
    ("bytes", "vx_bytes"),
    ("replace", "vx_replace"),
    ("to_string", "vx_to_string"),
    ("to_owned", "vx_to_owned"),
    ("to_vec", "vx_to_vec"),
    ("clone", "vx_clone"),
    ("cloned", "vx_cloned"),
    ("copied", "vx_copied"),
    ("iter", "vx_iter"),
    ("into_iter", "vx_into_iter"),
    ("extend_from_slice", "vx_extend_from_slice"),
    ("truncate", "vx_truncate"),
    ("as_bytes", "vx_as_bytes"),
    ("is_whitespace", "vx_is_whitespace"),
    ("is_alphanumeric", "vx_is_alphanumeric"),
    ("is_empty", "vx_is_empty"),
    ("join", "vx_join"),
    ("push_str", "vx_push_str"),
    ("sort_by_cached_key", "vx_sort_by_cached_key"),
    ("sort_by_key", "vx_sort_by_key"),
    ("as_deref", "vx_as_deref"),
    ("try_into", "vx_try_into"),
    ("into", "vx_into"),
    ("max", "vx_max"),
    ("min", "vx_min"),
    ("len", "vx_len"),
    ("remove", "vx_remove"),
    ("windows", "vx_windows"),
    ("splice", "vx_splice"),
    ("first", "vx_first"),
    ("last", "vx_last"),
    ("to_lowercase", "vx_to_lowercase"),
    ("to_str", "vx_to_str"),
    ("to_string_lossy", "vx_to_string_lossy"),
    ("unwrap_or_default", "vx_unwrap_or_default"),
];

pub fn closure_param(sig: &Signature) -> Option<usize> {
    // a parameter whose type is a generic bounded by Fn*, or impl Fn*
    let mut fnty = BTreeSet::new();
    let mut chk = |name: String, bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
        for b in bounds {
            if let TypeParamBound::Trait(t) = b {
                let n = t.path.segments.last().unwrap().ident.to_string();
                if n == "Fn" || n == "FnMut" || n == "FnOnce" {
                    fnty.insert(name.clone());
                }
            }
        }
    };
    for g in &sig.generics.params {
        if let GenericParam::Type(t) = g {
            chk(t.ident.to_string(), &t.bounds);
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if let Type::Path(tp) = &t.bounded_ty {
                    if let Some(id) = tp.path.get_ident() {
                        chk(id.to_string(), &t.bounds);
                    }
                }
            }
        }
    }
    for (i, a) in sig.inputs.iter().enumerate() {
        if let FnArg::Typed(p) = a {
            match &*p.ty {
                Type::Path(tp) => {
                    if let Some(id) = tp.path.get_ident() {
                        if fnty.contains(&id.to_string()) {
                            return Some(i);
                        }
                    }
                }
                Type::ImplTrait(it) => {
                    for b in &it.bounds {
                        if let TypeParamBound::Trait(t) = b {
                            let n = t.path.segments.last().unwrap().ident.to_string();
                            if n == "Fn" || n == "FnMut" || n == "FnOnce" {
                                return Some(i);
                            }
                        }
                    }
                }
                _ => (),
            }
        }
    }
    None
}

pub fn lower_item(it: &It, idx: &Index, cfg: &Value) -> R<Vec<(String, Value)>> {
    match &it.kind {
        Kind::Struct(s) => {
            let mut l = L::new(it, idx, cfg);
            let name = l.ty_ident(&s.ident);
            let (g, w) = l.generics(&s.generics);
            let text = match &s.fields {
                Fields::Named(f) => {
                    let mut fs = TokenStream::new();
                    for x in &f.named {
                        let n = x.ident.as_ref().unwrap();
                        let t = l.ty(&x.ty)?;
                        fs.extend(quote!(pub #n : #t ,));
                    }
                    quote!(pub struct #name #g #w { #fs })
                }
                Fields::Unnamed(f) => {
                    let mut fs = TokenStream::new();
                    for x in &f.unnamed {
                        let t = l.ty(&x.ty)?;
                        fs.extend(quote!(pub #t ,));
                    }
                    quote!(pub struct #name #g ( #fs );)
                }
                Fields::Unit => quote!(pub struct #name #g ;),
            };
            Ok(vec![(it.key.clone(), l.type_json("struct", text))])
        }
        Kind::Enum(s) => {
            let mut l = L::new(it, idx, cfg);
            let name = l.ty_ident(&s.ident);
            let (g, w) = l.generics(&s.generics);
            let mut vs = TokenStream::new();
            for v in &s.variants {
                let n = &v.ident;
                match &v.fields {
                    Fields::Named(f) => {
                        let mut fs = TokenStream::new();
                        for x in &f.named {
                            let n = x.ident.as_ref().unwrap();
                            let t = l.ty(&x.ty)?;
                            fs.extend(quote!(#n : #t ,));
                        }
                        vs.extend(quote!(#n { #fs },));
                    }
                    Fields::Unnamed(f) => {
                        let mut fs = TokenStream::new();
                        for x in &f.unnamed {
                            let t = l.ty(&x.ty)?;
                            fs.extend(quote!(#t ,));
                        }
                        vs.extend(quote!(#n ( #fs ),));
                    }
                    Fields::Unit => vs.extend(quote!(#n ,)),
                }
            }
            Ok(vec![(it.key.clone(), l.type_json("enum", quote!(pub enum #name #g #w { #vs })))])
        }
        Kind::Const { name, ty, expr } => {
            let mut l = L::new(it, idx, cfg);
            let n = format_ident!("{}", name);
            let t = l.ty(ty)?;
            let e = l.expr(expr)?;
            Ok(vec![(it.key.clone(), l.type_json("const", quote!(pub const #n : #t = #e ;)))])
        }
        Kind::TypeAlias(_) => Ok(vec![]),
        Kind::Fn(f) => lower_fn(it, idx, cfg, None, &f.sig, &f.block),
        Kind::Method { imp, f } => lower_fn(it, idx, cfg, Some(imp), &f.sig, &f.block),
        Kind::TraitFn { f, .. } => lower_fn(it, idx, cfg, None, &f.sig, f.default.as_ref().unwrap()),
    }
}

/// t is a type parameter bounded by AsRef<Path>
fn bound_path(g: &Generics, t: &TokenStream) -> bool {
    let n = print::flat(t).trim().to_string();
    g.type_params().any(|p| p.ident == n && { let b = &p.bounds; quote!(#b).to_string().replace(' ', "").contains("AsRef<Path>") })
}

fn lower_fn(it: &It, idx: &Index, cfg: &Value, imp: Option<&ItemImpl>, sig: &Signature, block: &Block) -> R<Vec<(String, Value)>> {
    let mut l = L::new(it, idx, cfg);
    if closure_param(sig).is_some() {
        // higher-order: verified through its specialisations
        let v = json!({"kind": "hof", "key": it.key, "file": it.file, "line": it.line});
        return Ok(vec![(it.key.clone(), v)]);
    }
    let v = l.function(imp, sig, block, None)?;
    let mut out = vec![(it.key.clone(), v)];
    let specs = std::mem::take(&mut l.specs);
    for (k, v) in specs {
        out.push((k, v));
    }
    Ok(out)
}

struct Hof {
    fparam: String,
    closure: ExprClosure,
    captured: Vec<(String, TokenStream)>,
}

pub struct L<'a> {
    it: &'a It,
    idx: &'a Index,
    cfg: &'a Value,
    assoc: HashMap<String, Type>,
    loops: Vec<Value>,
    clos: Vec<Value>,
    n_blk: usize,
    n_ret: usize,
    n_arm: usize,
    n_str: usize,
    /// what the string literals in the pattern being lowered ask for
    str_pats: Vec<TokenStream>,
    tmp: usize,
    bindings: Vec<String>,
    aft: BTreeMap<String, usize>,
    calls: BTreeSet<String>,
    dropped: BTreeSet<String>,
    specs: Vec<(String, Value)>,
    effect: bool,
    eff_calls: BTreeSet<String>,
    dyn_ret: Option<String>,
    /// parameters of a type bounded by a trait which is used as an object
    dyn_par: BTreeMap<String, String>,
    hof: Option<Hof>,
    deref: BTreeSet<String>,
    bool_lits: BTreeMap<String, TokenStream>,
    /// the variables that were given a floating-point number
    floats: BTreeSet<String>,
    held: usize,
    self_name: String,
    closure_vars: BTreeSet<String>,
    caller_tag: String,
}

/// an expression that is clearly a floating-point number
fn is_float(e: &Expr, fl: &BTreeSet<String>) -> bool {
    match strip(e) {
        Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
        Expr::Cast(c) => matches!(&*c.ty, Type::Path(p) if p.path.is_ident("f64") || p.path.is_ident("f32")),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_)) && (is_float(&b.left, fl) || is_float(&b.right, fl)),
        Expr::Unary(u) => is_float(&u.expr, fl),
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| fl.contains(&i.to_string())),
        _ => false,
    }
}

/// the names of the v8 crate are kept apart from those of the standard library
fn v8_name(i: &Ident) -> Ident {
    let s = i.to_string();
    if s.chars().next().map_or(false, |c| c.is_uppercase()) {
        format_ident!("V8{}", s)
    } else {
        format_ident!("v8_{}", s)
    }
}

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

impl<'a> L<'a> {
    pub fn new(it: &'a It, idx: &'a Index, cfg: &'a Value) -> L<'a> {
        let effect = idx.eff_fns.contains(&it.key);
        let eff_calls = if effect { idx.eff_calls.clone() } else { BTreeSet::new() };
        L {
            it,
            idx,
            cfg,
            assoc: HashMap::new(),
            loops: vec![],
            clos: vec![],
            n_blk: 0,
            n_ret: 0,
            n_arm: 0,
            n_str: 0,
            str_pats: vec![],
            tmp: 0,
            bindings: vec![],
            aft: BTreeMap::new(),
            calls: BTreeSet::new(),
            dropped: BTreeSet::new(),
            specs: vec![],
            effect,
            eff_calls,
            dyn_ret: None,
            dyn_par: Default::default(),
            hof: None,
            deref: BTreeSet::new(),
            bool_lits: BTreeMap::new(),
            floats: BTreeSet::new(),
            held: 0,
            self_name: String::new(),
            closure_vars: BTreeSet::new(),
            caller_tag: it.key.split("::").skip(1).collect::<Vec<_>>().join("::"),
        }
    }

    fn type_json(&self, kind: &str, text: TokenStream) -> Value {
        let attrs = match &self.it.kind {
            Kind::Struct(s) => &s.attrs[..],
            Kind::Enum(s) => &s.attrs[..],
            _ => &[],
        };
        let mut derives = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    derives.push(m.path.segments.last().unwrap().ident.to_string());
                    Ok(())
                });
            }
        }
        json!({"kind": kind, "key": self.it.key, "file": self.it.file, "line": self.it.line, "text": print::print(&text, 0), "derives": derives})
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("vx_{}{}", p, self.tmp)
    }

    // ---------------------------------------------------------------- names

    fn ty_ident(&self, i: &Ident) -> Ident {
        let name = i.to_string();
        if let Some(m) = self.cfg["type_rename"].as_object() {
            for (k, v) in m {
                let mut full = self.it.module.join("::");
                full.push_str("::");
                full.push_str(&name);
                if suffix(&full, k) {
                    return id(v.as_str().unwrap());
                }
            }
        }
        i.clone()
    }

    fn path_args(&mut self, a: &PathArguments, turbofish: bool) -> R<TokenStream> {
        Ok(match a {
            PathArguments::None => TokenStream::new(),
            PathArguments::AngleBracketed(ab) => {
                let mut v = vec![];
                for x in &ab.args {
                    match x {
                        GenericArgument::Lifetime(l) => v.push(quote!(#l)),
                        GenericArgument::Type(t) => v.push(self.ty(t)?),
                        GenericArgument::AssocType(_) => return Err("associated type argument".into()),
                        other => v.push(quote!(#other)),
                    }
                }
                if v.is_empty() {
                    TokenStream::new()
                } else if turbofish {
                    quote!(:: < #(#v),* >)
                } else {
                    quote!(< #(#v),* >)
                }
            }
            PathArguments::Parenthesized(_) => return Err("Fn type".into()),
        })
    }

    /// A path in expression or pattern position: module segments are dropped.
    fn path(&mut self, p: &Path) -> R<TokenStream> {
        let segs: Vec<&PathSegment> = p.segments.iter().collect();
        let n = segs.len();
        let mut start = n - 1;
        if n >= 2 {
            let prev = segs[n - 2].ident.to_string();
            const PRIM: &[&str] = &["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"];
            if prev.chars().next().unwrap().is_uppercase() || (PRIM.contains(&prev.as_str()) && segs[n - 1].ident.to_string().chars().next().unwrap().is_uppercase()) {
                start = n - 2;
            }
        }
        let mut out = TokenStream::new();
        let mut flat = vec![];
        for (k, s) in segs[start..].iter().enumerate() {
            let first = k == 0 && n - start == n;
            let mut i = s.ident.clone();
            if k == 0 && n >= 2 && segs[0].ident == "v8" {
                i = v8_name(&i);
            }
            if i == "self" && !self.self_name.is_empty() {
                i = id(&self.self_name);
            }
            if first {
                i = self.ty_ident(&i);
            }
            if i == "FUNCTION_PARSERS" {
                return Ok(quote!(vx_function_parsers()));
            }
            flat.push(i.to_string());
            let a = self.path_args(&s.arguments, true)?;
            if k > 0 {
                out.extend(quote!(::));
            }
            out.extend(quote!(#i #a));
        }
        let flat = flat.join("::");
        let full = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        for sr in self.cfg["scope_rename"].as_array().into_iter().flatten() {
            if sr["scopes"].as_array().into_iter().flatten().any(|x| x.as_str().map_or(false, |x| self.it.key.starts_with(x))) {
                if let Some(r) = sr["rename"].get(&flat).or_else(|| sr["rename"].get(&full)).and_then(|v| v.as_str()) {
                    let t: TokenStream = r.parse().map_err(|_| "scope_rename")?;
                    return Ok(t);
                }
            }
        }
        if let Some(r) = self.cfg["path_rename"].get(&flat).and_then(|v| v.as_str()) {
            let t: TokenStream = r.parse().map_err(|_| "path_rename")?;
            return Ok(t);
        }
        // module-qualified renames, e.g. std::fs::write
        if let Some(r) = self.cfg["path_rename"].get(&full).and_then(|v| v.as_str()) {
            let t: TokenStream = r.parse().map_err(|_| "path_rename")?;
            return Ok(t);
        }
        Ok(out)
    }

    pub fn ty(&mut self, t: &Type) -> R<TokenStream> {
        Ok(match t {
            Type::Path(tp) => {
                if tp.qself.is_some() {
                    return Err("qualified type".into());
                }
                let s = tp.path.segments.last().unwrap();
                let name = s.ident.to_string();
                if tp.path.segments.len() == 2 && tp.path.segments[0].ident == "Self" {
                    if let Some(t2) = self.assoc.get(&name).cloned() {
                        return self.ty(&t2);
                    }
                }
                let inner = |a: &PathArguments| -> Option<Type> {
                    if let PathArguments::AngleBracketed(ab) = a {
                        ab.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None })
                    } else {
                        None
                    }
                };
                match name.as_str() {
                    "Peekable" => {
                        let t = inner(&s.arguments).ok_or("Peekable")?;
                        return self.ty(&t);
                    }
                    "Chars" => return Ok(quote!(VxIter<char>)),
                    "Box" => {
                        if let Some(Type::TraitObject(to)) = inner(&s.arguments) {
                            if let Some(item) = iterator_item(&to.bounds) {
                                let it = self.ty(&item)?;
                                return Ok(quote!(VxIter<#it>));
                            }
                        }
                    }
                    _ => (),
                }
                let i = if tp.path.segments.len() == 1 { self.ty_ident(&s.ident) } else { s.ident.clone() };
                let mut i = i;
                if tp.path.segments.len() >= 2 && tp.path.segments[0].ident == "v8" {
                    i = v8_name(&i);
                }
                if let Some(r) = self.cfg["type_map"].get(i.to_string()).and_then(|v| v.as_str()) {
                    i = id(r);
                }
                let full = tp.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some(r) = self.cfg["type_map"].get(full).and_then(|v| v.as_str()) {
                    i = id(r);
                }
                let a = self.path_args(&s.arguments, false)?;
                quote!(#i #a)
            }
            Type::Reference(r) => {
                let lt = &r.lifetime;
                let m = &r.mutability;
                let e = self.ty(&r.elem)?;
                quote!(& #lt #m #e)
            }
            Type::Tuple(t) => {
                let mut v = vec![];
                for x in &t.elems {
                    v.push(self.ty(x)?);
                }
                if v.len() == 1 {
                    let x = &v[0];
                    quote!((#x,))
                } else {
                    quote!(( #(#v),* ))
                }
            }
            Type::Slice(s) => {
                let e = self.ty(&s.elem)?;
                quote!([ #e ])
            }
            Type::Array(a) => {
                let e = self.ty(&a.elem)?;
                let n = self.expr(&a.len)?;
                quote!([ #e ; #n ])
            }
            Type::Paren(p) => self.ty(&p.elem)?,
            Type::Group(p) => self.ty(&p.elem)?,
            Type::TraitObject(o) => {
                let n = dyn_name(&o.bounds).ok_or("trait object")?;
                let i = format_ident!("VxDyn{}", n);
                quote!(#i)
            }
            Type::ImplTrait(i) => {
                for b in &i.bounds {
                    if let TypeParamBound::Trait(t) = b {
                        let s = t.path.segments.last().unwrap();
                        if OBJECTS.contains(&s.ident.to_string().as_str()) {
                            let n = format_ident!("VxIntoDyn{}", s.ident);
                            return Ok(quote!(impl #n));
                        }
                        if s.ident == "AsRef" {
                            let txt = quote!(#s).to_string().replace(' ', "");
                            let n = match txt.as_str() {
                                "AsRef<str>" => "VxAsRefStr",
                                "AsRef<Path>" => "VxAsRefPath",
                                "AsRef<[u8]>" => "VxAsRefBytes",
                                _ => return Err(format!("impl {}", txt)),
                            };
                            let n = id(n);
                            return Ok(quote!(impl #n));
                        }
                    }
                }
                return Err("impl Trait".into());
            }
            Type::Infer(_) => quote!(_),
            Type::Never(_) => quote!(!),
            other => return Err(format!("type {}", quote!(#other))),
        })
    }

    fn generics(&mut self, g: &Generics) -> (TokenStream, TokenStream) {
        let mut v = vec![];
        for p in &g.params {
            match p {
                GenericParam::Lifetime(l) => {
                    let lt = &l.lifetime;
                    v.push(quote!(#lt));
                }
                GenericParam::Type(t) => {
                    let i = &t.ident;
                    v.push(quote!(#i));
                }
                GenericParam::Const(c) => v.push(quote!(#c)),
            }
        }
        let g = if v.is_empty() { TokenStream::new() } else { quote!(< #(#v),* >) };
        (g, TokenStream::new())
    }

    // ---------------------------------------------------------------- functions

    fn function(&mut self, imp: Option<&ItemImpl>, sig: &Signature, block: &Block, spec: Option<(String, Hof)>) -> R<Value> {
        let mut impl_head = String::new();
        let mut trait_ = Value::Null;
        if let Some(imp) = imp {
            for x in &imp.items {
                if let ImplItem::Type(t) = x {
                    self.assoc.insert(t.ident.to_string(), t.ty.clone());
                }
            }
            let (g, _) = self.generics(&imp.generics);
            let st = match &*imp.self_ty {
                Type::Path(tp) if tp.path.segments.len() == 1 => {
                    let s = tp.path.segments.last().unwrap();
                    let i = self.ty_ident(&s.ident);
                    let a = self.path_args(&s.arguments, false)?;
                    quote!(#i #a)
                }
                t => self.ty(t)?,
            };
            impl_head = print::flat(&quote!(impl #g #st));
            if let Some((_, p, _)) = &imp.trait_ {
                trait_ = json!(p.segments.last().unwrap().ident.to_string());
            }
        }
        let (g, _) = self.generics_nofn(&sig.generics);
        let mut params = vec![];
        let mut pnames = vec![];
        let mut prologue = TokenStream::new();
        let skip = spec.as_ref().map(|(_, h)| h.fparam.clone());
        for (n, a) in sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    if r.reference.is_some() {
                        let m = &r.mutability;
                        let lt = &r.reference.as_ref().unwrap().1;
                        params.push(quote!(& #lt #m self));
                    } else if r.mutability.is_some() {
                        params.push(quote!(self));
                        prologue.extend(quote!(let mut vx_self = self;));
                        self.self_name = "vx_self".into();
                    } else {
                        params.push(quote!(self));
                    }
                    pnames.push("self".to_string());
                }
                FnArg::Typed(p) => {
                    let t = self.ty(&p.ty);
                    match &*p.pat {
                        Pat::Ident(pi) => {
                            let name = pi.ident.to_string();
                            if Some(&name) == skip.as_ref() {
                                continue;
                            }
                            let mut t = t?;
                            // a function that calls itself takes the path itself, and its callers give it that
                            if n == 0 && self.by_path(&sig.ident.to_string()) && (print::flat(&t).contains("VxAsRefPath") || bound_path(&sig.generics, &t)) {
                                t = quote!(&Path);
                            }
                            let i = &pi.ident;
                            let ob = match &*p.ty {
                                Type::Path(tp) => tp.path.get_ident().and_then(|x| object_bound(&sig.generics, &x.to_string())),
                                Type::ImplTrait(it) => bound_in(&it.bounds),
                                _ => None,
                            };
                            if let Some(tr) = ob {
                                self.dyn_par.insert(name.clone(), tr);
                            }
                            self.bindings.push(name.clone());
                            pnames.push(name);
                            if pi.mutability.is_some() {
                                prologue.extend(quote!(let mut #i = #i;));
                            }
                            params.push(quote!(#i : #t));
                        }
                        Pat::Wild(_) => {
                            let t = t?;
                            let i = format_ident!("_vx_p{}", n);
                            pnames.push(i.to_string());
                            params.push(quote!(#i : #t));
                        }
                        other => {
                            let t = t?;
                            let i = format_ident!("vx_p{}", n);
                            let p = self.pat(other)?;
                            prologue.extend(quote!(let #p = #i;));
                            pnames.push(i.to_string());
                            params.push(quote!(#i : #t));
                        }
                    }
                }
            }
        }
        let mut name = sig.ident.to_string();
        if let Some((n, h)) = spec {
            name = n;
            for (c, t) in &h.captured {
                let i = id(c);
                params.push(quote!(#i : &mut #t));
                pnames.push(c.clone());
                self.deref.insert(c.clone());
            }
            self.hof = Some(h);
        }
        if self.effect {
            params.push(quote!(vx_w: &mut VxWorld));
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                self.dyn_ret = dyn_in(t);
                let t = self.ty(t)?;
                print::flat(&t)
            }
        };
        let body = self.block_inner(block, true)?;
        let body = quote!(__vx_start__ #prologue #body);
        let kind = "fn";
        if !self.str_pats.is_empty() {
            return Err("string literal in a pattern".into());
        }
        Ok(json!({
            "kind": kind,
            "key": self.it.key,
            "file": self.it.file,
            "line": self.it.line,
            "impl": impl_head,
            "trait": trait_,
            "name": name,
            "generics": print::flat(&g),
            "params": params.iter().map(print::flat).collect::<Vec<_>>(),
            "pnames": pnames,
            "ret": ret,
            "body": print::print(&body, 2),
            "loops": self.loops,
            "closures": self.clos,
            "blocks": self.n_blk,
            "arms": self.n_arm,
            "bindings": self.bindings,
            "calls": self.calls,
            "dropped": self.dropped,
            "effect": self.effect,
            "unsafe": sig.unsafety.is_some(),
        }))
    }

    fn generics_nofn(&mut self, g: &Generics) -> (TokenStream, TokenStream) {
        let mut v = vec![];
        let fnp = |t: &Ident| -> bool {
            let mut s = parse_quote!(fn f());
            let sg: &mut Signature = &mut s;
            sg.generics = g.clone();
            sg.inputs.push(parse_quote!(x: #t));
            closure_param(sg).is_some()
        };
        for p in &g.params {
            match p {
                GenericParam::Lifetime(l) => {
                    let lt = &l.lifetime;
                    v.push(quote!(#lt));
                }
                GenericParam::Type(t) => {
                    let i = &t.ident;
                    if let Some(tr) = object_bound(g, &i.to_string()) {
                        let n = format_ident!("VxIntoDyn{}", tr);
                        v.push(quote!(#i : #n));
                    } else if !fnp(i) {
                        v.push(quote!(#i));
                    }
                }
                GenericParam::Const(c) => v.push(quote!(#c)),
            }
        }
        let g = if v.is_empty() { TokenStream::new() } else { quote!(< #(#v),* >) };
        (g, TokenStream::new())
    }

    // ---------------------------------------------------------------- blocks and statements

    fn block(&mut self, b: &Block) -> R<TokenStream> {
        let i = self.block_inner(b, false)?;
        Ok(quote!({ #i }))
    }

    fn block_inner(&mut self, b: &Block, _top: bool) -> R<TokenStream> {
        let k = self.n_blk;
        self.n_blk += 1;
        let m = format_ident!("__vx_blk_{}__", k);
        let mut out = quote!(#m);
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            let last = i + 1 == n;
            match s {
                Stmt::Local(l) => {
                    if !self.idx.cfg_ok(&l.attrs) {
                        continue;
                    }
                    out.extend(self.local(l)?);
                }
                Stmt::Item(Item::Use(_)) => {
                    self.dropped.insert("use".into());
                }
                Stmt::Item(_) => return Err("item inside a function".into()),
                Stmt::Expr(e, semi) => {
                    if !self.idx.cfg_ok(attrs_of(e)) {
                        continue;
                    }
                    let name = call_name(e);
                    if last && semi.is_none() {
                        let t = format_ident!("__vx_tail_{}__", k);
                        let x = match thread_local_with(e) {
                            // what the closure returns is what the function returns
                            Some((v, c)) if _top => self.with_thread_local(v, c)?,
                            _ => self.expr(e)?,
                        };
                        out.extend(quote!(#t #x));
                    } else {
                        let x = self.expr(e)?;
                        if semi.is_some() {
                            out.extend(quote!(#x ;));
                        } else {
                            out.extend(quote!(#x));
                        }
                        if let Some(nm) = name {
                            let c = self.aft.entry(nm.clone()).or_insert(0);
                            let m = format_ident!("__vx_aft_{}_{}__", nm, *c);
                            *c += 1;
                            out.extend(quote!(#m));
                        }
                    }
                }
                Stmt::Macro(m) => {
                    if !self.idx.cfg_ok(&m.attrs) {
                        continue;
                    }
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if self.is_dropped_macro(&name) {
                        self.dropped.insert(format!("{}!", name));
                        continue;
                    }
                    let x = self.mac(&m.mac)?;
                    if last && m.semi_token.is_none() {
                        out.extend(quote!(#x));
                    } else {
                        out.extend(quote!(#x ;));
                    }
                }
            }
        }
        Ok(out)
    }

    fn by_path(&self, n: &str) -> bool {
        self.cfg["by_path"].as_array().map_or(false, |l| l.iter().any(|x| x.as_str() == Some(n)))
    }

    fn is_dropped_macro(&self, n: &str) -> bool {
        self.cfg["drop_macros"].as_array().unwrap().iter().any(|x| x.as_str() == Some(n))
    }

    fn local(&mut self, l: &Local) -> R<TokenStream> {
        let (pat, ty) = match &l.pat {
            Pat::Type(pt) => ((*pt.pat).clone(), Some((*pt.ty).clone())),
            p => (p.clone(), None),
        };
        let init = match &l.init {
            None => None,
            Some(i) => {
                if let Some((_, e)) = &i.diverge {
                    // let P = E else { B };
                    let e1 = self.expr(&i.expr)?;
                    let e2 = self.expr(e)?;
                    let (p, g) = self.pat_guarded(&pat, None)?;
                    let names = pat_names(&pat);
                    let ids: Vec<Ident> = names.iter().map(|n| id(n)).collect();
                    return Ok(quote!(let ( #(#ids),* ) = match #e1 { #p #g => ( #(#ids),* ), _ => #e2 };));
                }
                if let (Pat::Ident(pi), Expr::Closure(_)) = (&pat, &*i.expr) {
                    self.closure_vars.insert(pi.ident.to_string());
                }
                if let (Pat::Ident(pi), Expr::Lit(ExprLit { lit: Lit::Bool(_), .. })) = (&pat, &*i.expr) {
                    self.bool_lits.insert(pi.ident.to_string(), quote!(bool));
                }
                let e = self.expr(&i.expr)?;
                if let Pat::Ident(pi) = &pat {
                    if is_float(&i.expr, &self.floats) {
                        self.floats.insert(pi.ident.to_string());
                    } else {
                        self.floats.remove(&pi.ident.to_string());
                    }
                }
                Some(e)
            }
        };
        let names = pat_names(&pat);
        let p = self.pat(&pat)?;
        let t = match ty {
            Some(t) => {
                let t = self.ty(&t)?;
                quote!(: #t)
            }
            None => TokenStream::new(),
        };
        let i = match init {
            Some(e) => quote!(= #e),
            None => TokenStream::new(),
        };
        let m = if names.is_empty() { TokenStream::new() } else {
            let m = format_ident!("__vx_let_{}__", names.join("_"));
            quote!(#m)
        };
        Ok(quote!(let #p #t #i ; #m))
    }

    // ---------------------------------------------------------------- patterns

    /// a pattern of a match arm, and its guard
    fn pat_guarded(&mut self, p: &Pat, g: Option<TokenStream>) -> R<(TokenStream, TokenStream)> {
        let before = std::mem::take(&mut self.str_pats);
        let p = self.pat(p)?;
        let mut all = std::mem::replace(&mut self.str_pats, before);
        if all.is_empty() && g.is_none() {
            return Ok((p, TokenStream::new()));
        }
        if let Some(g) = g {
            if all.is_empty() {
                return Ok((p, quote!(if #g)));
            }
            all.push(quote!((#g)));
        }
        Ok((p, quote!(if #(#all)&&*)))
    }

    fn pat(&mut self, p: &Pat) -> R<TokenStream> {
        Ok(match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                let b = &i.by_ref;
                let m = &i.mutability;
                let x = &i.ident;
                if n.chars().next().unwrap().is_uppercase() && i.subpat.is_none() {
                    return Ok(quote!(#x));
                }
                self.bindings.push(n);
                match &i.subpat {
                    None => quote!(#b #m #x),
                    Some((_, s)) => {
                        let s = self.pat(s)?;
                        quote!(#b #m #x @ #s)
                    }
                }
            }
            Pat::Wild(_) => quote!(_),
            Pat::Rest(_) => quote!(..),
            Pat::Lit(l) => self.lit(&l.lit)?,
            Pat::Path(pp) => self.path(&pp.path)?,
            Pat::Tuple(t) => {
                let mut v = vec![];
                for x in &t.elems {
                    v.push(self.pat(x)?);
                }
                quote!(( #(#v),* ))
            }
            Pat::TupleStruct(t) => {
                let path = self.path(&t.path)?;
                let mut v = vec![];
                for x in &t.elems {
                    v.push(self.pat(x)?);
                }
                quote!(#path ( #(#v),* ))
            }
            Pat::Struct(s) => {
                let path = self.path(&s.path)?;
                let mut v = vec![];
                for f in &s.fields {
                    let m = &f.member;
                    let p = self.pat(&f.pat)?;
                    if f.colon_token.is_some() {
                        v.push(quote!(#m : #p));
                    } else {
                        v.push(quote!(#p));
                    }
                }
                let rest = if s.rest.is_some() { quote!(..) } else { TokenStream::new() };
                quote!(#path { #(#v ,)* #rest })
            }
            Pat::Or(o) => {
                let mut v = vec![];
                for x in &o.cases {
                    v.push(self.pat(x)?);
                }
                quote!(#(#v)|*)
            }
            Pat::Reference(r) => {
                let x = self.pat(&r.pat)?;
                quote!(& #x)
            }
            Pat::Paren(p) => self.pat(&p.pat)?,
            Pat::Type(t) => self.pat(&t.pat)?,
            Pat::Range(r) => quote!(#r),
            Pat::Slice(s) => {
                let mut v = vec![];
                for x in &s.elems {
                    v.push(self.pat(x)?);
                }
                quote!([ #(#v),* ])
            }
            other => return Err(format!("pattern {}", quote!(#other))),
        })
    }

    /// `let PAT = EXPR;`, with a top-level reference pattern turned into a dereference.
    fn bind(&mut self, p: &Pat, e: TokenStream) -> R<TokenStream> {
        match p {
            Pat::Reference(r) => {
                let inner = self.pat(&r.pat)?;
                Ok(quote!(let #inner = *#e;))
            }
            Pat::Type(t) => self.bind(&t.pat, e),
            _ => {
                let q = self.pat(p)?;
                Ok(quote!(let #q = #e;))
            }
        }
    }

    // ---------------------------------------------------------------- expressions

    fn lit(&mut self, l: &Lit) -> R<TokenStream> {
        Ok(match l {
            Lit::ByteStr(b) => {
                let v = b.value();
                let xs: Vec<TokenStream> = v
                    .iter()
                    .map(|x| {
                        let l = proc_macro2::Literal::u8_suffixed(*x);
                        quote!(#l)
                    })
                    .collect();
                quote!((&[ #(#xs),* ]))
            }
            Lit::Byte(b) => {
                let l = proc_macro2::Literal::u8_suffixed(b.value());
                quote!(#l)
            }
            other => quote!(#other),
        })
    }

    fn is_iter(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let n = n.as_str();
                if ITER_SRC.contains(&n) {
                    return true;
                }
                if n == "take" && m.args.is_empty() {
                    return false;
                }
                if ["enumerate", "rev", "peekable", "step_by", "zip", "chain", "flatten"].contains(&n) {
                    return true;
                }
                if (n == "skip" || n == "take") && m.args.len() == 1 {
                    return true;
                }
                if ITER_ADAPT.contains(&n) || ITER_CLO.contains(&n) {
                    return self.is_iter(&m.receiver);
                }
                false
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => ["vars", "vars_os", "args", "args_os"].contains(&p.path.segments.last().unwrap().ident.to_string().as_str()),
                _ => false,
            },
            Expr::Paren(p) => self.is_iter(&p.expr),
            Expr::Group(p) => self.is_iter(&p.expr),
            _ => false,
        }
    }

    /// does the expression look like a Result? (a wrong guess makes the generated text ill-typed, never silently wrong)
    fn is_res(&self, e: &Expr) -> bool {
        const M: &[&str] = &["ok_or", "ok_or_else", "map_err", "canonicalize", "file_type", "metadata", "status", "output", "spawn", "read_dir"];
        const F: &[&str] = &["metadata", "read", "read_dir", "write", "create_dir", "create_dir_all", "remove_dir_all", "remove_file", "copy", "rename", "read_to_string", "from_utf8", "current_dir", "canonicalize", "Ok", "Err"];
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if M.contains(&n.as_str()) || (self.idx.res_fns.contains(&n) && !["parse", "read", "write", "get", "load"].contains(&n.as_str())) {
                    return true;
                }
                ["map", "and_then", "or_else", "inspect"].contains(&n.as_str()) && self.is_res(&m.receiver)
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => F.contains(&p.path.segments.last().unwrap().ident.to_string().as_str()),
                _ => false,
            },
            _ => false,
        }
    }

    fn has_clo(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                (ITER_CLO.contains(&n.as_str()) && self.is_iter(&m.receiver)) || (self.is_iter(&m.receiver) && self.has_clo(&m.receiver))
            }
            Expr::Paren(p) => self.has_clo(&p.expr),
            _ => false,
        }
    }

    fn apply(&mut self, f: &Expr, arg: TokenStream) -> R<TokenStream> {
        match f {
            Expr::Closure(c) => {
                if diverts(&c.body) {
                    return Err("return or ? inside an inlined closure".into());
                }
                if c.inputs.len() == 1 {
                    let b = self.bind(&c.inputs[0], arg)?;
                    let body = self.expr(&c.body)?;
                    Ok(quote!({ #b #body }))
                } else if c.inputs.is_empty() {
                    let body = self.expr(&c.body)?;
                    Ok(body)
                } else {
                    Err("closure arity".into())
                }
            }
            Expr::Path(p) => {
                let f = self.path(&p.path)?;
                let name = print::flat(&f);
                self.calls.insert(name);
                Ok(quote!(#f ( #arg )))
            }
            Expr::Paren(p) => self.apply(&p.expr, arg),
            other => Err(format!("function value {}", quote!(#other))),
        }
    }

    fn apply0(&mut self, f: &Expr) -> R<TokenStream> {
        match f {
            Expr::Closure(c) if c.inputs.is_empty() => {
                if diverts(&c.body) {
                    return Err("return or ? inside an inlined closure".into());
                }
                self.expr(&c.body)
            }
            Expr::Path(p) => {
                let f = self.path(&p.path)?;
                Ok(quote!(#f ()))
            }
            other => Err(format!("function value {}", quote!(#other))),
        }
    }

    fn nullary(f: &Expr) -> bool {
        match f {
            Expr::Closure(c) => c.inputs.is_empty(),
            _ => false,
        }
    }

    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>) -> R<Vec<TokenStream>> {
        let mut v = vec![];
        for x in a {
            v.push(self.expr(x)?);
        }
        Ok(v)
    }

    fn loop_mark(&mut self, kind: &str, it: &str) -> (Ident, Ident, Ident, usize) {
        let k = self.loops.len();
        self.loops.push(json!({"kind": kind, "it": it}));
        (format_ident!("__vx_loop_{}__", k), format_ident!("__vx_body_{}__", k), format_ident!("__vx_bend_{}__", k), k)
    }

    pub fn expr(&mut self, e: &Expr) -> R<TokenStream> {
        Ok(match e {
            Expr::Lit(l) => self.lit(&l.lit)?,
            Expr::Path(p) => {
                if p.qself.is_some() {
                    return Err("qualified path".into());
                }
                if let Some(i) = p.path.get_ident() {
                    if self.deref.contains(&i.to_string()) {
                        return Ok(quote!((*#i)));
                    }
                }
                self.path(&p.path)?
            }
            Expr::Paren(p) => {
                let x = self.expr(&p.expr)?;
                quote!((#x))
            }
            Expr::Group(p) => {
                let x = self.expr(&p.expr)?;
                quote!((#x))
            }
            Expr::Array(a) => {
                let mut v = vec![];
                for x in &a.elems {
                    v.push(self.expr(x)?);
                }
                quote!([ #(#v),* ])
            }
            Expr::Repeat(r) => {
                let x = self.expr(&r.expr)?;
                let n = self.expr(&r.len)?;
                quote!([ #x ; #n ])
            }
            Expr::Tuple(t) => {
                let mut v = vec![];
                for x in &t.elems {
                    v.push(self.expr(x)?);
                }
                if v.len() == 1 {
                    let x = &v[0];
                    quote!((#x,))
                } else {
                    quote!(( #(#v),* ))
                }
            }
            Expr::Assign(a) => self.assign(a)?,
            Expr::Binary(b) => self.binary(b)?,
            Expr::Unary(u) => {
                let x = self.expr(&u.expr)?;
                let op = &u.op;
                quote!(#op #x)
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                self.block(&b.block)?
            }
            Expr::Unsafe(b) => {
                self.dropped.insert("unsafe".into());
                self.block(&b.block)?
            }
            Expr::Break(b) => {
                if b.expr.is_some() {
                    return Err("break with a value".into());
                }
                let l = &b.label;
                quote!(break #l)
            }
            Expr::Continue(c) => {
                let l = &c.label;
                quote!(continue #l)
            }
            Expr::Return(r) => {
                let k = self.n_ret;
                self.n_ret += 1;
                let m = format_ident!("__vx_ret_{}__", k);
                match &r.expr {
                    Some(x) => {
                        let x = self.expr(x)?;
                        quote!({ #m return #x; })
                    }
                    None => quote!({ #m return; }),
                }
            }
            Expr::Call(c) => self.call(c)?,
            Expr::Cast(c) => {
                let x = self.expr(&c.expr)?;
                let t = self.ty(&c.ty)?;
                if matches!(strip(&c.expr), Expr::Lit(_)) {
                    return Ok(quote!((#x as #t)));
                }
                if print::flat(&t).contains("Box < VxDynStuartError") {
                    return Ok(quote!(#x));
                }
                let f = format_ident!("vx_as_{}", print::flat(&t).replace(|c: char| !c.is_alphanumeric(), "_"));
                quote!((#x).#f())
            }
            Expr::Closure(c) => self.closure(c)?,
            Expr::Field(f) => {
                let x = self.expr(&f.base)?;
                let m = &f.member;
                quote!(#x . #m)
            }
            Expr::Index(i) => {
                if let Expr::Range(r) = &*i.index {
                    let x = self.expr(&i.expr)?;
                    let a = match &r.start {
                        Some(s) => {
                            let s = self.expr(s)?;
                            quote!(Some(#s))
                        }
                        None => quote!(None),
                    };
                    let b = match &r.end {
                        Some(s) => {
                            let s = self.expr(s)?;
                            quote!(Some(#s))
                        }
                        None => quote!(None),
                    };
                    let incl = matches!(r.limits, RangeLimits::Closed(_));
                    return Ok(quote!((*(#x).vx_range(#a, #b, #incl))));
                }
                let x = self.expr(&i.expr)?;
                let y = self.expr(&i.index)?;
                if is_str_like(&i.index) {
                    return Ok(quote!((*vx_json_index(&#x, #y))));
                }
                quote!(#x [ #y ])
            }
            Expr::Reference(r) => {
                let m = &r.mutability;
                // &format!(..) and friends
                let x = self.expr(&r.expr)?;
                quote!(& #m #x)
            }
            Expr::Struct(s) => {
                let p = self.path(&s.path)?;
                let mut v = vec![];
                for f in &s.fields {
                    let m = &f.member;
                    if f.colon_token.is_some() {
                        let x = self.expr(&f.expr)?;
                        v.push(quote!(#m : #x));
                    } else {
                        let x = self.expr(&f.expr)?;
                        v.push(quote!(#m : #x));
                    }
                }
                match &s.rest {
                    Some(r) => {
                        let r = self.expr(r)?;
                        quote!(#p { #(#v ,)* .. #r })
                    }
                    None => quote!(#p { #(#v),* }),
                }
            }
            Expr::Try(t) => {
                let x = self.expr(&t.expr)?;
                if self.cfg["try_convert"].as_array().unwrap().iter().any(|k| suffix(&self.it.key, k.as_str().unwrap())) {
                    quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_e.vx_err_into()) })
                } else {
                    quote!(#x ?)
                }
            }
            Expr::If(i) => self.if_(i)?,
            Expr::Match(m) => self.match_(m)?,
            Expr::Loop(l) => {
                let lab = label(&l.label);
                let (m, bm, be, _) = self.loop_mark("loop", "");
                let b = self.block_inner(&l.body, false)?;
                quote!(#lab loop #m { #bm #b #be })
            }
            Expr::While(w) => {
                let lab = label(&w.label);
                if let Expr::Let(c) = &*w.cond {
                    let (m, bm, be, _) = self.loop_mark("while_let", "");
                    let s = self.expr(&c.expr)?;
                    let (p, g) = self.pat_guarded(&c.pat, None)?;
                    let b = self.block_inner(&w.body, false)?;
                    quote!(#lab loop #m { #bm match #s { #p #g => { #b #be } _ => { break; } } })
                } else {
                    let (m, bm, be, _) = self.loop_mark("while", "");
                    let c = self.expr(&w.cond)?;
                    let b = self.block_inner(&w.body, false)?;
                    quote!(#lab while #c #m { #bm #b #be })
                }
            }
            Expr::ForLoop(f) => self.for_(f)?,
            Expr::MethodCall(m) => self.method(m)?,
            Expr::Macro(m) => self.mac(&m.mac)?,
            Expr::Let(_) => return Err("let chain".into()),
            Expr::Range(r) => {
                let a = match &r.start {
                    Some(x) => self.expr(x)?,
                    None => return Err("range".into()),
                };
                let b = match &r.end {
                    Some(x) => self.expr(x)?,
                    None => return Err("range".into()),
                };
                match r.limits {
                    RangeLimits::HalfOpen(_) => quote!(vx_range(#a, #b)),
                    RangeLimits::Closed(_) => quote!(vx_range_incl(#a, #b)),
                }
            }
            other => return Err(format!("expression {}", quote!(#other))),
        })
    }

    fn assign(&mut self, a: &ExprAssign) -> R<TokenStream> {
        if let Expr::Tuple(t) = &*a.left {
            let r = self.expr(&a.right)?;
            let ids: Vec<Ident> = t.elems.iter().map(|_| self.fresh("t")).collect();
            let mut st = TokenStream::new();
            for (x, i) in t.elems.iter().zip(&ids) {
                if matches!(x, Expr::Infer(_)) {
                    continue;
                }
                let l = self.expr(x)?;
                st.extend(quote!(#l = #i;));
            }
            return Ok(quote!({ let ( #(#ids),* ) = #r; #st }));
        }
        if let Expr::Index(i) = &*a.left {
            if is_str_like(&i.index) {
                let b = self.expr(&i.expr)?;
                let k = self.expr(&i.index)?;
                let r = self.expr(&a.right)?;
                return Ok(quote!(vx_json_set(&mut #b, #k, #r)));
            }
        }
        let l = self.expr(&a.left)?;
        let r = self.expr(&a.right)?;
        Ok(quote!(#l = #r))
    }

    fn binary(&mut self, b: &ExprBinary) -> R<TokenStream> {
        let l = self.expr(&b.left)?;
        let r = self.expr(&b.right)?;
        let op = &b.op;
        let prim = |e: &Expr| -> bool {
            match strip(e) {
                Expr::Lit(ExprLit { lit, .. }) => !matches!(lit, Lit::Str(_) | Lit::ByteStr(_)),
                Expr::MethodCall(m) => m.method == "len" || m.method == "count",
                Expr::Unary(_) | Expr::Cast(_) => true,
                Expr::Binary(_) => true,
                _ => false,
            }
        };
        Ok(match b.op {
            BinOp::Eq(_) | BinOp::Ne(_) => {
                if prim(&b.left) || prim(&b.right) {
                    quote!(#l #op #r)
                } else {
                    let neg = matches!(b.op, BinOp::Ne(_));
                    if neg {
                        quote!((!vx_eq(&#l, &#r)))
                    } else {
                        quote!(vx_eq(&#l, &#r))
                    }
                }
            }
            BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => {
                let simple = |e: &Expr| matches!(strip(e), Expr::Path(_));
                if simple(&b.left) && simple(&b.right) {
                    let f = match b.op {
                        BinOp::Lt(_) => id("vx_lt"),
                        BinOp::Le(_) => id("vx_le"),
                        BinOp::Gt(_) => id("vx_gt"),
                        _ => id("vx_ge"),
                    };
                    quote!(#f(&#l, &#r))
                } else {
                    quote!(#l #op #r)
                }
            }
            BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) if is_float(&b.left, &self.floats) || is_float(&b.right, &self.floats) => {
                let f = id(match b.op {
                    BinOp::Add(_) => "vx_fadd",
                    BinOp::Sub(_) => "vx_fsub",
                    BinOp::Mul(_) => "vx_fmul",
                    BinOp::Div(_) => "vx_fdiv",
                    _ => "vx_frem",
                });
                quote!(#f ( #l , #r ))
            }
            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) if is_float(&b.left, &self.floats) || is_float(&b.right, &self.floats) => {
                let f = id(match b.op {
                    BinOp::AddAssign(_) => "vx_fadd",
                    BinOp::SubAssign(_) => "vx_fsub",
                    BinOp::MulAssign(_) => "vx_fmul",
                    _ => "vx_fdiv",
                });
                quote!(#l = #f ( #l , #r ))
            }
            _ => quote!(#l #op #r),
        })
    }

    fn closure(&mut self, c: &ExprClosure) -> R<TokenStream> {
        let k = self.clos.len();
        self.clos.push(Value::Null);
        let mut binds = TokenStream::new();
        let mut ps = vec![];
        for (n, p) in c.inputs.iter().enumerate() {
            let v = format_ident!("vx_c{}_{}", k, n);
            ps.push(v.to_string());
            binds.extend(self.bind(p, quote!(#v))?);
        }
        let body = self.expr(&c.body)?;
        self.clos[k] = json!({"params": ps});
        let m = format_ident!("__vx_clo_{}__", k);
        Ok(quote!(#m { #binds #body }))
    }

    fn if_(&mut self, i: &ExprIf) -> R<TokenStream> {
        let els = |s: &mut Self| -> R<TokenStream> {
            Ok(match &i.else_branch {
                Some((_, e)) => {
                    let x = s.expr(e)?;
                    match &**e {
                        Expr::Block(_) => quote!(else #x),
                        Expr::If(n) if !matches!(&*n.cond, Expr::Let(_)) => quote!(else #x),
                        _ => quote!(else { #x }),
                    }
                }
                None => TokenStream::new(),
            })
        };
        if let Expr::Let(c) = &*i.cond {
            let s = self.expr(&c.expr)?;
            let (p, g) = self.pat_guarded(&c.pat, None)?;
            let b = self.block(&i.then_branch)?;
            // a match keeps the scrutinee's temporaries in one place and prints the same for every form
            match &i.else_branch {
                Some((_, e)) => {
                    let x = self.expr(e)?;
                    Ok(quote!(match #s { #p #g => #b _ => { #x } }))
                }
                None => Ok(quote!(match #s { #p #g => #b _ => { } })),
            }
        } else {
            let c = self.expr(&i.cond)?;
            let b = self.block(&i.then_branch)?;
            let e = els(self)?;
            Ok(quote!(if #c #b #e))
        }
    }

    fn match_(&mut self, m: &ExprMatch) -> R<TokenStream> {
        let s = self.expr(&m.expr)?;
        let mut arms = TokenStream::new();
        for a in &m.arms {
            let k = self.n_arm;
            self.n_arm += 1;
            let g = match &a.guard {
                Some((_, g)) => Some(self.expr(g)?),
                None => None,
            };
            let (p, g) = self.pat_guarded(&a.pat, g)?;
            let b = self.expr(&a.body)?;
            let mk = format_ident!("__vx_arm_{}__", k);
            arms.extend(quote!(#p #g => { #mk #b }));
        }
        Ok(quote!(match #s { #arms }))
    }

    fn for_(&mut self, f: &ExprForLoop) -> R<TokenStream> {
        let lab = label(&f.label);
        // for x in E.iter_mut(), for (i, x) in E.iter_mut().enumerate()
        if let Expr::MethodCall(m) = &*f.expr {
            let (m, counted) = match &*m.receiver {
                Expr::MethodCall(r) if m.method == "enumerate" && r.method == "iter_mut" => (r, true),
                _ => (m, false),
            };
            if m.method == "iter_mut" {
                let base = self.expr(&m.receiver)?;
                let i = self.fresh("i");
                let (mk, bm, be, k) = self.loop_mark("for_mut", &i.to_string());
                let (pre, post) = (format_ident!("__vx_pre_{}__", k), format_ident!("__vx_post_{}__", k));
                let b = self.bind(&f.pat, if counted { quote!((#i, &mut #base[#i])) } else { quote!(&mut #base[#i]) })?;
                let body = self.block_inner(&f.body, false)?;
                return Ok(quote!({
                    let mut #i : usize = 0;
                    #pre
                    #lab loop #mk {
                        if #i >= #base.vx_len() { break; }
                        #bm
                        #b
                        #i = #i + 1;
                        #body #be
                    };
                    #post
                }));
            }
        }
        if self.has_clo(&f.expr) {
            let body = f.body.clone();
            let pat = (*f.pat).clone();
            return self.pipeline(&f.expr, Term::For { pat, body, label: lab });
        }
        let src = self.iter_source(&f.expr)?;
        let it = self.fresh("it");
        let (mk, bm, be, _) = self.loop_mark("for", &it.to_string());
        let x = self.fresh("x");
        let b = self.bind(&f.pat, quote!(#x))?;
        let body = self.block_inner(&f.body, false)?;
        let k: usize = mk.to_string().trim_start_matches("__vx_loop_").trim_end_matches("__").parse().unwrap();
        let pre = format_ident!("__vx_pre_{}__", k);
        let post = format_ident!("__vx_post_{}__", k);
        Ok(quote!({
            let mut #it = #src;
            #pre
            #lab loop #mk {
                match #it.next() { None => { break; } Some(#x) => { #bm #b #body #be } }
            };
            #post
        }))
    }

    /// An expression used as an iterator: method chains lower to shim iterators, anything else is converted.
    fn iter_source(&mut self, e: &Expr) -> R<TokenStream> {
        if self.is_iter(e) {
            self.expr(e)
        } else {
            let x = self.expr(e)?;
            Ok(quote!((#x).vx_into_iter()))
        }
    }

    fn pipeline(&mut self, chain: &Expr, term: Term) -> R<TokenStream> {
        // decompose: base . stage . stage ...
        let mut stages: Vec<(String, Option<Expr>)> = vec![];
        let mut cur = chain.clone();
        loop {
            let next = match strip(&cur) {
                Expr::MethodCall(m) if self.has_clo(&cur) => {
                    let n = m.method.to_string();
                    if !ITER_CLO.contains(&n.as_str()) && n != "enumerate" && n != "cloned" && n != "copied" {
                        return Err(format!("iterator adaptor {} after a closure adaptor", n));
                    }
                    stages.push((n, m.args.first().cloned()));
                    (*m.receiver).clone()
                }
                _ => break,
            };
            cur = next;
        }
        stages.reverse();
        let src = self.iter_source(&cur)?;
        let it = self.fresh("it");
        let kind = match &term {
            Term::For { .. } => "for",
            Term::Collect => "collect",
            Term::CollectResult => "collect_result",
            Term::Clo(n, _) => n.as_str(),
            Term::Count => "count",
        }
        .to_string();
        let (mk, bm, be, k) = self.loop_mark(&kind, &it.to_string());
        let pre = format_ident!("__vx_pre_{}__", k);
        let post = format_ident!("__vx_post_{}__", k);
        let x0 = self.fresh("x");
        let out = format_ident!("vx_out{}", k);
        // innermost first: build from the terminal outwards, but bindings must be lowered in source order
        let mut heads: Vec<Head> = vec![];
        let mut x = x0.clone();
        let mut inits = TokenStream::new();
        for (n, f) in &stages {
            match n.as_str() {
                "map" => {
                    let y = self.fresh("x");
                    let v = self.apply(f.as_ref().unwrap(), quote!(#x))?;
                    heads.push(Head::Let(quote!(let #y = #v;)));
                    x = y;
                }
                "filter" => {
                    let v = self.apply(f.as_ref().unwrap(), quote!((&#x)))?;
                    heads.push(Head::If(v));
                }
                "filter_map" => {
                    let y = self.fresh("x");
                    let v = self.apply(f.as_ref().unwrap(), quote!(#x))?;
                    heads.push(Head::Some(v, y.clone()));
                    x = y;
                }
                "take_while" => {
                    let v = self.apply(f.as_ref().unwrap(), quote!((&#x)))?;
                    heads.push(Head::Let(quote!(if !#v { break; })));
                }
                "enumerate" => {
                    let c = self.fresh("n");
                    let y = self.fresh("x");
                    inits.extend(quote!(let mut #c : usize = 0;));
                    heads.push(Head::Let(quote!(let #y = (#c, #x); #c = #c + 1;)));
                    x = y;
                }
                "cloned" | "copied" => {
                    let y = self.fresh("x");
                    heads.push(Head::Let(quote!(let #y = (*#x).vx_clone();)));
                    x = y;
                }
                other => return Err(format!("iterator adaptor {}", other)),
            }
        }
        let mut lab = TokenStream::new();
        let (init, mut inner, after) = match &term {
            Term::For { pat, body, label } => {
                lab = label.clone();
                let b = self.bind(pat, quote!(#x))?;
                let body = self.block_inner(body, false)?;
                (TokenStream::new(), quote!(#b #body), TokenStream::new())
            }
            Term::Collect => (quote!(let mut #out = Vec::new();), quote!(#out.push(#x);), quote!(#out)),
            Term::CollectResult => {
                let e = format_ident!("vx_err{}", k);
                (
                    quote!(let mut #out = Vec::new(); let mut #e = None;),
                    quote!(match #x { Ok(vx_v) => { #out.push(vx_v); } Err(vx_e) => { #e = Some(vx_e); break; } }),
                    quote!(match #e { None => Ok(#out), Some(vx_e) => Err(vx_e) }),
                )
            }
            Term::Count => (quote!(let mut #out : usize = 0;), quote!(#out = #out + 1;), quote!(#out)),
            Term::Clo(n, f) => match n.as_str() {
                "any" => {
                    let v = self.apply(f, quote!(#x))?;
                    (quote!(let mut #out = false;), quote!(if #v { #out = true; break; }), quote!(#out))
                }
                "all" => {
                    let v = self.apply(f, quote!(#x))?;
                    (quote!(let mut #out = true;), quote!(if !#v { #out = false; break; }), quote!(#out))
                }
                "find" => {
                    let v = self.apply(f, quote!((&#x)))?;
                    (quote!(let mut #out = None;), quote!(if #v { #out = Some(#x); break; }), quote!(#out))
                }
                "find_map" => {
                    let v = self.apply(f, quote!(#x))?;
                    (
                        quote!(let mut #out = None;),
                        quote!(match #v { None => {} Some(vx_v) => { #out = Some(vx_v); break; } }),
                        quote!(#out),
                    )
                }
                "position" => {
                    let v = self.apply(f, quote!(#x))?;
                    let c = format_ident!("vx_pos{}", k);
                    (
                        quote!(let mut #out : Option<usize> = None; let mut #c : usize = 0;),
                        quote!(if #v { #out = Some(#c); break; } #c = #c + 1;),
                        quote!(#out),
                    )
                }
                "for_each" => {
                    let v = self.apply(f, quote!(#x))?;
                    (TokenStream::new(), quote!(#v;), TokenStream::new())
                }
                other => return Err(format!("iterator terminal {}", other)),
            },
        };
        for h in heads.iter().rev() {
            inner = match h {
                Head::Let(t) => quote!(#t #inner),
                Head::If(c) => quote!(if #c { #inner }),
                Head::Some(v, y) => quote!(match #v { None => {} Some(#y) => { #inner } }),
            };
        }
        Ok(quote!({
            let mut #it = #src;
            #inits
            #init
            #pre
            #lab loop #mk {
                match #it.next() { None => { break; } Some(#x0) => { #bm #inner #be } }
            }
            #post
            #after
        }))
    }

    fn call(&mut self, c: &ExprCall) -> R<TokenStream> {
        // the closure parameter of a specialised function
        if let Expr::Path(p) = &*c.func {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                if let Some(h) = &self.hof {
                    if h.fparam == n {
                        let cl = h.closure.clone();
                        let a = self.expr(&c.args[0])?;
                        return self.apply(&Expr::Closure(cl), a);
                    }
                }
                if self.closure_vars.contains(&n) {
                    let a = self.args(&c.args)?;
                    return Ok(quote!(#i ( #(#a),* )));
                }
            }
            // Box::new(..)
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() >= 2 && segs[segs.len() - 2] == "Box" && segs[segs.len() - 1] == "new" {
                if self.is_iter(&c.args[0]) {
                    return self.expr(&c.args[0]);
                }
                let a = self.expr(&c.args[0])?;
                let par = match strip(&c.args[0]) {
                    Expr::Path(p) => p.path.get_ident().and_then(|i| self.dyn_par.get(&i.to_string())),
                    _ => None,
                };
                if let Some(d) = par.or(self.dyn_ret.as_ref()) {
                    let f = format_ident!("vx_dyn_{}", d);
                    self.calls.insert(f.to_string());
                    return Ok(quote!(Box::new(#f(#a))));
                }
                return Ok(quote!(Box::new(#a)));
            }
        }
        // f(a)(b): a function which takes the arguments of both calls
        if let Expr::Call(inner) = strip(&c.func) {
            if let Expr::Path(p) = &*inner.func {
                let f = format_ident!("vx_curried_{}", p.path.segments.last().unwrap().ident);
                self.calls.insert(f.to_string());
                let mut a = self.args(&inner.args)?;
                a.extend(self.args(&c.args)?);
                return Ok(quote!(#f ( #(#a),* )));
            }
        }
        let f = match &*c.func {
            Expr::Path(p) => self.path(&p.path)?,
            other => self.expr(other)?,
        };
        let name = print::flat(&f).replace(' ', "");
        self.calls.insert(name.clone());
        let mut a = self.args(&c.args)?;
        if self.by_path(name.rsplit("::").next().unwrap()) && !a.is_empty() {
            let x = a[0].clone();
            a[0] = quote!(VxAsRefPath::as_ref(&(#x)));
        }
        let short = name.rsplit("::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::");
        let short = match (&self.it.kind, short.strip_prefix("Self::")) {
            (Kind::Method { imp, .. }, Some(f)) => {
                let t = &imp.self_ty;
                format!("{}::{}", quote!(#t), f)
            }
            _ => short,
        };
        if self.eff_calls.contains(&name) || self.eff_calls.contains(&short) {
            a.push(quote!(vx_w));
        }
        Ok(quote!(#f ( #(#a),* )))
    }

    /// V.with(|x| body), where V is a thread-local: the body, where x is (a handle to) its value
    fn with_thread_local(&mut self, v: &Ident, c: &ExprClosure) -> R<TokenStream> {
        let f = format_ident!("vx_thread_local_{}", v);
        let p = self.pat(&c.inputs[0])?;
        let b = self.expr(&c.body)?;
        Ok(quote!({ let #p = #f(); #b }))
    }

    fn method(&mut self, m: &ExprMethodCall) -> R<TokenStream> {
        let whole = Expr::MethodCall(m.clone());
        if let Some((v, c)) = thread_local_with(&whole) {
            if diverts(&c.body) {
                return Err("return or ? inside with()".into());
            }
            return self.with_thread_local(v, c);
        }
        if m.method == "call_once" {
            self.dropped.insert("call_once".into());
            return Ok(quote!(()));
        }
        // x.lock().unwrap().m(..): the guard gets a name, so that its content can be spoken of
        if let Some(l) = locked(&m.receiver) {
            let k = self.held;
            self.held += 1;
            let r = self.expr(l)?;
            let g = format_ident!("vx_held_{}", k);
            let mut m2 = m.clone();
            *m2.receiver = syn::parse_quote!(#g);
            let b = self.method(&m2)?;
            let (m0, m1) = (format_ident!("__vx_held_{}__", k), format_ident!("__vx_left_{}__", k));
            return Ok(quote!({ let mut #g = #r; #m0 let vx_r = #b; #m1 vx_r }));
        }
        let name = m.method.to_string();
        let n = name.as_str();
        let iter_recv = self.is_iter(&m.receiver);
        let nargs = m.args.len();
        let arg0 = m.args.first();
        let is_fn_arg = |e: Option<&Expr>| matches!(e.map(strip), Some(Expr::Closure(_)) | Some(Expr::Path(_)));

        // -- iterator terminals
        if iter_recv || matches!(strip(&m.receiver), Expr::Path(_)) {
            if ITER_TERM_CLO.contains(&n) && nargs == 1 && matches!(arg0.map(strip), Some(Expr::Closure(_))) && iter_recv {
                if let Expr::MethodCall(r) = strip(&m.receiver) {
                    if r.method == "iter_mut" {
                        return self.iter_mut_term(n, r, arg0.unwrap());
                    }
                }
                return self.pipeline(&m.receiver, Term::Clo(name.clone(), arg0.unwrap().clone()));
            }
            if n == "collect" {
                let tf = m.turbofish.as_ref().map(|t| quote!(#t).to_string().replace(' ', "")).unwrap_or_default();
                if self.has_clo(&m.receiver) {
                    if tf.contains("Result<") {
                        return self.pipeline(&m.receiver, Term::CollectResult);
                    }
                    if tf.contains("String>") && !tf.contains("Vec") {
                        return Err("collect into String".into());
                    }
                    return self.pipeline(&m.receiver, Term::Collect);
                }
                if iter_recv {
                    let r = self.expr(&m.receiver)?;
                    if tf.contains("::<String>") {
                        return Ok(quote!(#r.vx_collect_string()));
                    }
                    return Ok(quote!(#r.collect()));
                }
                let r = self.expr(&m.receiver)?;
                return Ok(quote!(#r.collect()));
            }
            if n == "count" && self.has_clo(&m.receiver) {
                return self.pipeline(&m.receiver, Term::Count);
            }
        }
        if iter_recv && ITER_CLO.contains(&n) {
            return Err(format!("iterator {} outside a terminated chain", n));
        }

        // -- Option/Result combinators
        match n {
            "map_err" if nargs == 1 => {
                let r = self.expr(&m.receiver)?;
                let v = self.fresh("e");
                let b = self.apply(arg0.unwrap(), quote!(#v))?;
                return Ok(quote!((match #r { Ok(vx_ok) => Ok(vx_ok), Err(#v) => Err(#b) })));
            }
            "ok_or_else" if nargs == 1 => {
                let r = self.expr(&m.receiver)?;
                let b = self.apply0(arg0.unwrap())?;
                return Ok(quote!((match #r { Some(vx_some) => Ok(vx_some), None => Err(#b) })));
            }
            "ok_or" if nargs == 1 => {
                let r = self.expr(&m.receiver)?;
                let b = self.expr(arg0.unwrap())?;
                return Ok(quote!((match (#r, #b) { (Some(vx_some), _) => Ok(vx_some), (None, vx_e) => Err(vx_e) })));
            }
            "map" if nargs == 1 && is_fn_arg(arg0) => {
                let r = self.expr(&m.receiver)?;
                let v = self.fresh("m");
                let b = self.apply(arg0.unwrap(), quote!(#v))?;
                if self.is_res(&m.receiver) {
                    return Ok(quote!((match #r { Ok(#v) => Ok(#b), Err(vx_e) => Err(vx_e) })));
                }
                return Ok(quote!((match #r { Some(#v) => Some(#b), None => None })));
            }
            "and_then" if nargs == 1 && is_fn_arg(arg0) => {
                let r = self.expr(&m.receiver)?;
                let v = self.fresh("m");
                let b = self.apply(arg0.unwrap(), quote!(#v))?;
                if self.is_res(&m.receiver) {
                    return Ok(quote!((match #r { Ok(#v) => #b, Err(vx_e) => Err(vx_e) })));
                }
                return Ok(quote!((match #r { Some(#v) => #b, None => None })));
            }
            "filter" if nargs == 1 && is_fn_arg(arg0) => {
                let r = self.expr(&m.receiver)?;
                let v = self.fresh("m");
                let b = self.apply(arg0.unwrap(), quote!((&#v)))?;
                return Ok(quote!((match #r { Some(#v) => { if #b { Some(#v) } else { None } } None => None })));
            }
            "is_some_and" if nargs == 1 && is_fn_arg(arg0) => {
                let r = self.expr(&m.receiver)?;
                let v = self.fresh("m");
                let b = self.apply(arg0.unwrap(), quote!(#v))?;
                return Ok(quote!((match #r { Some(#v) => #b, None => false })));
            }
            "is_none_or" if nargs == 1 && is_fn_arg(arg0) => {
                let r = self.expr(&m.receiver)?;
                let v = self.fresh("m");
                let b = self.apply(arg0.unwrap(), quote!(#v))?;
                return Ok(quote!((match #r { Some(#v) => #b, None => true })));
            }
            "or_else" if nargs == 1 && Self::nullary(arg0.unwrap()) => {
                let r = self.expr(&m.receiver)?;
                let b = self.apply0(arg0.unwrap())?;
                return Ok(quote!((match #r { Some(vx_some) => Some(vx_some), None => #b })));
            }
            "or" if nargs == 1 => {
                let r = self.expr(&m.receiver)?;
                let b = self.expr(arg0.unwrap())?;
                return Ok(quote!((match (#r, #b) { (Some(vx_some), _) => Some(vx_some), (None, vx_e) => vx_e })));
            }
            "unwrap_or_else" if nargs == 1 => {
                let r = self.expr(&m.receiver)?;
                if Self::nullary(arg0.unwrap()) {
                    let b = self.apply0(arg0.unwrap())?;
                    return Ok(quote!((match #r { Some(vx_some) => vx_some, None => #b })));
                }
                let v = self.fresh("e");
                let b = self.apply(arg0.unwrap(), quote!(#v))?;
                return Ok(quote!((match #r { Ok(vx_ok) => vx_ok, Err(#v) => #b })));
            }
            "splice" if nargs == 2 => {
                if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = strip(arg0.unwrap()) {
                    let r = self.expr(&m.receiver)?;
                    let a = self.expr(a)?;
                    let b = self.expr(b)?;
                    let v = self.expr(&m.args[1])?;
                    return Ok(quote!((#r).vx_splice(#a, #b, #v)));
                }
                return Err("splice of this range".into());
            }
            "unwrap_or" if nargs == 1 => {
                let r = self.expr(&m.receiver)?;
                let b = self.expr(arg0.unwrap())?;
                // of a text it is an option, of a path a result
                if matches!(strip(&m.receiver), Expr::MethodCall(x) if x.method == "strip_prefix") {
                    return Ok(quote!((#r).vx_unwrap_or(#b)));
                }
                if self.is_res(&m.receiver) {
                    return Ok(quote!((match (#r, #b) { (Ok(vx_ok), _) => vx_ok, (Err(_), vx_e) => vx_e })));
                }
                return Ok(quote!((match (#r, #b) { (Some(vx_some), _) => vx_some, (None, vx_e) => vx_e })));
            }
            "map_or" if nargs == 2 => {
                let r = self.expr(&m.receiver)?;
                let d = self.expr(arg0.unwrap())?;
                let v = self.fresh("m");
                let b = self.apply(&m.args[1], quote!(#v))?;
                if self.is_res(&m.receiver) {
                    return Ok(quote!((match #r { Ok(#v) => #b, Err(_) => #d })));
                }
                return Ok(quote!((match #r { Some(#v) => #b, None => #d })));
            }
            "is_ok_and" if nargs == 1 && is_fn_arg(arg0) => {
                let r = self.expr(&m.receiver)?;
                let v = self.fresh("m");
                let b = self.apply(arg0.unwrap(), quote!(#v))?;
                return Ok(quote!((match #r { Ok(#v) => #b, Err(_) => false })));
            }
            "map_or_else" if nargs == 2 && Self::nullary(arg0.unwrap()) => {
                let r = self.expr(&m.receiver)?;
                let d = self.apply0(arg0.unwrap())?;
                let v = self.fresh("m");
                let b = self.apply(&m.args[1], quote!(#v))?;
                return Ok(quote!((match #r { Some(#v) => #b, None => #d })));
            }
            "then" if nargs == 1 && Self::nullary(arg0.unwrap()) => {
                let r = self.expr(&m.receiver)?;
                let b = self.apply0(arg0.unwrap())?;
                return Ok(quote!((if #r { Some(#b) } else { None })));
            }
            "then_some" if nargs == 1 => {
                let r = self.expr(&m.receiver)?;
                let b = self.expr(arg0.unwrap())?;
                return Ok(quote!((if #r { Some(#b) } else { None })));
            }
            "parse" if m.turbofish.is_none() && nargs == 0 => {
                let r = self.expr(&m.receiver)?;
                return Ok(quote!(#r.vx_parse()));
            }
            "parse" if m.turbofish.is_some() => {
                let r = self.expr(&m.receiver)?;
                let t = m.turbofish.as_ref().unwrap();
                let txt = quote!(#t).to_string().replace(' ', "");
                let ty = txt.trim_start_matches("::<").trim_end_matches('>').to_string();
                let f = format_ident!("vx_parse_{}", ty);
                return Ok(quote!(#r.#f()));
            }
            "sort_by_cached_key" | "sort_by_key" if nargs == 1 => {
                let r = self.expr(&m.receiver)?;
                let c = self.expr(arg0.unwrap())?;
                let f = format_ident!("vx_{}", n);
                return Ok(quote!(#r.#f(#c)));
            }
            _ => (),
        }

        // -- specialised higher-order functions of the repository
        if let Some(&hi) = self.idx.hof.get(n) {
            return self.specialise(m, hi);
        }

        if n == "as_ref" {
            if let Expr::MethodCall(inner) = strip(&m.receiver) {
                if inner.method == "to_string_lossy" {
                    let r = self.expr(&m.receiver)?;
                    return Ok(quote!(#r.vx_as_str()));
                }
            }
        }
        let r = self.expr(&m.receiver)?;
        self.calls.insert(name.clone());
        let mut a = self.args(&m.args)?;
        if self.eff_calls.contains(&format!(".{}", n)) {
            a.push(quote!(vx_w));
        }
        let extracted = self.cfg["keep_methods"].as_array().unwrap().iter().any(|k| k.as_str() == Some(n));
        let mut meth = m.method.clone();
        if !extracted {
            if let Some((_, to)) = RENAME.iter().find(|(f, _)| *f == n) {
                meth = id(to);
                // methods of the shim iterator keep their names
                if iter_recv && (n == "cloned" || n == "copied" || n == "last") {
                    meth = m.method.clone();
                }
            }
        }
        let tf = match &m.turbofish {
            Some(t) => {
                let mut v = vec![];
                for x in &t.args {
                    if let GenericArgument::Type(ty) = x {
                        v.push(self.ty(ty)?);
                    }
                }
                quote!(:: < #(#v),* >)
            }
            None => TokenStream::new(),
        };
        // arguments which read the receiver are computed before it is borrowed for the change
        const CHANGING: [&str; 8] = ["remove", "truncate", "insert", "push", "push_str", "swap_remove", "swap", "split_off"];
        let rt = r.to_string();
        if CHANGING.contains(&n) && a.iter().any(|x| x.to_string().contains(&rt)) {
            let mut lets = TokenStream::new();
            let mut vs = vec![];
            for x in &a {
                let v = self.fresh("a");
                lets.extend(quote!(let #v = #x;));
                vs.push(v);
            }
            return Ok(quote!({ #lets #r . #meth #tf ( #(#vs),* ) }));
        }
        Ok(quote!(#r . #meth #tf ( #(#a),* )))
    }

    /// E.iter_mut().find(|c| P)  ==>  index search, then a mutable borrow of the element found
    fn iter_mut_term(&mut self, n: &str, r: &ExprMethodCall, f: &Expr) -> R<TokenStream> {
        if n != "find" {
            return Err(format!("iter_mut().{}", n));
        }
        let base = self.expr(&r.receiver)?;
        let i = self.fresh("i");
        let x = self.fresh("x");
        let (mk, bm, be, k) = self.loop_mark("find_mut", &i.to_string());
        let post = format_ident!("__vx_post_{}__", k);
        let p = self.apply(f, quote!((&#x)))?;
        Ok(quote!({
            let mut #i : usize = 0;
            loop #mk { #bm
                if #i >= #base.vx_len() { break; }
                let #x = &#base[#i];
                if #p { break; }
                #i = #i + 1;
                #be
            }
            #post
            if #i < #base.vx_len() { Some(&mut #base[#i]) } else { None }
        }))
    }

    fn specialise(&mut self, m: &ExprMethodCall, hi: usize) -> R<TokenStream> {
        let it = &self.idx.items[hi];
        let (imp, sig, block) = match &it.kind {
            Kind::Method { imp, f } => (Some(imp), &f.sig, &f.block),
            Kind::Fn(f) => (None, &f.sig, &*f.block),
            _ => return Err("hof".into()),
        };
        let pos = closure_param(sig).unwrap();
        let has_self = matches!(sig.inputs.first(), Some(FnArg::Receiver(_)));
        let apos = if has_self { pos - 1 } else { pos };
        let clo = match m.args.get(apos).map(strip) {
            Some(Expr::Closure(c)) => c.clone(),
            _ => return Err(format!("{} called with a function value that is not a closure", m.method)),
        };
        let fparam = match &sig.inputs[pos] {
            FnArg::Typed(p) => match &*p.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => return Err("hof param".into()),
            },
            _ => unreachable!(),
        };
        // captured variables: locals of the caller that occur in the closure
        let mut used = BTreeSet::new();
        collect_idents(&clo.body, &mut used);
        let own: BTreeSet<String> = clo.inputs.iter().flat_map(|p| pat_names(p)).collect();
        let mut captured = vec![];
        for b in self.bindings.clone() {
            if used.contains(&b) && !own.contains(&b) && !captured.iter().any(|(n, _)| *n == b) {
                match self.bool_lits.get(&b) {
                    Some(t) => captured.push((b.clone(), t.clone())),
                    None => return Err(format!("closure captures `{}`", b)),
                }
            }
        }
        let k = self.specs.len();
        let mname = m.method.to_string();
        let caller = self.it.key.rsplit("::").next().unwrap().to_string();
        let sname = format!("{}__{}_{}", mname, caller, k);
        let key = format!("{}@{}#{}", it.key, self.caller_tag, k);
        let mut l2 = L::new(it, self.idx, self.cfg);
        let caps = captured.clone();
        let mut v = l2.function(imp.map(|x| x as &ItemImpl), sig, block, Some((sname.clone(), Hof { fparam, closure: clo, captured })))?;
        v["key"] = json!(key);
        v["specialised_from"] = json!(it.key);
        v["closure_of"] = json!(self.it.key);
        self.specs.push((key, v));
        let r = self.expr(&m.receiver)?;
        let mut a = vec![];
        for (i, x) in m.args.iter().enumerate() {
            if i != apos {
                a.push(self.expr(x)?);
            }
        }
        for (c, _) in caps {
            let i = id(&c);
            a.push(quote!(&mut #i));
        }
        let f = id(&sname);
        self.calls.insert(sname);
        Ok(quote!(#r . #f ( #(#a),* )))
    }

    // ---------------------------------------------------------------- macros

    fn mac(&mut self, m: &Macro) -> R<TokenStream> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "format" => self.format(m.tokens.clone()),
            "write" | "writeln" => {
                let p = |input: parse::ParseStream| -> Result<(Expr, TokenStream)> {
                    let e: Expr = input.parse()?;
                    let _ = input.parse::<Option<Token![,]>>()?;
                    Ok((e, input.parse()?))
                };
                let (e, rest) = parse::Parser::parse2(p, m.tokens.clone()).map_err(|e| e.to_string())?;
                let e = self.expr(&e)?;
                let rest = if rest.is_empty() { quote!("") } else { rest };
                let mut t = self.format(rest)?;
                if name == "writeln" {
                    t = quote!(vx_cat(#t, ("\n").vx_to_string()));
                }
                Ok(quote!((#e).vx_write_text(#t)))
            }
            "vec" => {
                let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                let es = parse::Parser::parse2(p, m.tokens.clone()).map_err(|e| e.to_string())?;
                let mut v = vec![];
                for e in &es {
                    v.push(self.expr(e)?);
                }
                Ok(quote!(vec![ #(#v),* ]))
            }
            "matches" => {
                let p = |input: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    input.parse::<Token![,]>()?;
                    let pat = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        input.parse::<Token![if]>()?;
                        Some(input.parse()?)
                    } else {
                        None
                    };
                    let _ = input.parse::<Option<Token![,]>>()?;
                    Ok((e, pat, g))
                };
                let (e, pat, g) = parse::Parser::parse2(p, m.tokens.clone()).map_err(|e| e.to_string())?;
                let e = self.expr(&e)?;
                let g = match g {
                    Some(g) => Some(self.expr(&g)?),
                    None => None,
                };
                let (pat, g) = self.pat_guarded(&pat, g)?;
                Ok(quote!((match #e { #pat #g => true, _ => false })))
            }
            "json" => self.json(m.tokens.clone()),
            "stringify" => {
                let s = m.tokens.to_string();
                Ok(quote!(#s))
            }
            // a text of the build environment: any
            "env" => {
                let ts = m.tokens.clone();
                Ok(quote!(vx_env_text(#ts)))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Ok(quote!(vx_unreachable())),
            _ if self.is_dropped_macro(&name) => {
                self.dropped.insert(format!("{}!", name));
                Ok(quote!(()))
            }
            _ => {
                if let Some(r) = self.idx.macros.get(&name) {
                    let ts = r.expand(m.tokens.clone()).ok_or(format!("cannot expand {}!", name))?;
                    let e: Expr = parse2(ts).map_err(|e| format!("{}!: {}", name, e))?;
                    return self.expr(&e);
                }
                Err(format!("macro {}!", name))
            }
        }
    }

    fn format(&mut self, ts: TokenStream) -> R<TokenStream> {
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let es: Vec<Expr> = parse::Parser::parse2(p, ts).map_err(|e| e.to_string())?.into_iter().collect();
        let f = match es.first().map(strip) {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            _ => return Err("format string".into()),
        };
        let mut pieces: Vec<TokenStream> = vec![];
        let mut lit = String::new();
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        let mut next = 1;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    lit.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    lit.push('}');
                    i += 2;
                }
                '{' => {
                    let end = (i..cs.len()).find(|&k| cs[k] == '}').ok_or("format")?;
                    let inner: String = cs[i + 1..end].iter().collect();
                    if inner.contains(':') {
                        return Err(format!("format spec {{{}}}", inner));
                    }
                    if !lit.is_empty() {
                        let l = lit.clone();
                        pieces.push(quote!((#l).vx_to_string()));
                        lit.clear();
                    }
                    let e = if inner.is_empty() {
                        let e = es.get(next).ok_or("format args")?.clone();
                        next += 1;
                        e
                    } else if let Ok(k) = inner.parse::<usize>() {
                        es.get(k + 1).ok_or("format args")?.clone()
                    } else {
                        let named = es.iter().skip(1).find_map(|e| match e {
                            Expr::Assign(a) if quote::ToTokens::to_token_stream(&a.left).to_string() == inner => Some((*a.right).clone()),
                            _ => None,
                        });
                        match named {
                            Some(e) => e,
                            None => parse_str::<Expr>(&inner).map_err(|e| e.to_string())?,
                        }
                    };
                    let x = self.expr(&e)?;
                    pieces.push(quote!((#x).vx_to_string()));
                    i = end + 1;
                }
                c => {
                    lit.push(c);
                    i += 1;
                }
            }
        }
        if !lit.is_empty() || pieces.is_empty() {
            let l = lit.clone();
            pieces.push(quote!((#l).vx_to_string()));
        }
        let mut it = pieces.into_iter();
        let mut acc = it.next().unwrap();
        for p in it {
            acc = quote!(vx_cat(#acc, #p));
        }
        Ok(acc)
    }

    fn json(&mut self, ts: TokenStream) -> R<TokenStream> {
        use proc_macro2::{Delimiter, TokenTree};
        let v: Vec<TokenTree> = ts.into_iter().collect();
        if v.len() == 1 {
            if let TokenTree::Group(g) = &v[0] {
                match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut parts: Vec<TokenStream> = vec![];
                        let mut i = 0;
                        while i < inner.len() {
                            let key = inner[i].clone();
                            // ':'
                            i += 2;
                            let mut val = TokenStream::new();
                            while i < inner.len() {
                                if let TokenTree::Punct(p) = &inner[i] {
                                    if p.as_char() == ',' {
                                        break;
                                    }
                                }
                                val.extend(std::iter::once(inner[i].clone()));
                                i += 1;
                            }
                            i += 1;
                            let x = self.json(val)?;
                            let key: TokenStream = std::iter::once(key).collect();
                            parts.push(quote!(((#key).vx_to_string(), #x)));
                        }
                        return Ok(quote!(Value::Object(vec![ #(#parts),* ])));
                    }
                    Delimiter::Parenthesis => {
                        let e: Expr = parse2(g.stream()).map_err(|e| e.to_string())?;
                        let x = self.expr(&e)?;
                        return Ok(quote!((#x).vx_to_json()));
                    }
                    _ => return Err("json! array".into()),
                }
            }
        }
        let ts: TokenStream = v.into_iter().collect();
        let e: Expr = parse2(ts).map_err(|e| e.to_string())?;
        let x = self.expr(&e)?;
        Ok(quote!((#x).vx_to_json()))
    }
}

enum Head {
    Let(TokenStream),
    If(TokenStream),
    Some(TokenStream, Ident),
}

enum Term {
    For { pat: Pat, body: Block, label: TokenStream },
    Collect,
    CollectResult,
    Count,
    Clo(String, Expr),
}

fn label(l: &Option<Label>) -> TokenStream {
    match l {
        Some(l) => quote!(#l),
        None => TokenStream::new(),
    }
}

pub fn suffix(key: &str, pat: &str) -> bool {
    key == pat || key.ends_with(&format!("::{}", pat))
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        Expr::Reference(r) if matches!(&*r.expr, Expr::Lit(_)) => &r.expr,
        e => e,
    }
}

fn is_str_like(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Expr::MethodCall(m) => m.method == "as_str",
        _ => false,
    }
}

fn attrs_of(e: &Expr) -> &[Attribute] {
    match e {
        Expr::If(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Try(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::Loop(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        _ => &[],
    }
}

fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => Some(p.path.segments.last().unwrap().ident.to_string()),
            _ => None,
        },
        Expr::Try(t) => call_name(&t.expr),
        Expr::Assign(_) => Some("assign".into()),
        Expr::Binary(_) => Some("assign".into()),
        Expr::If(_) => Some("if".into()),
        Expr::Match(_) => Some("match".into()),
        Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => Some("loop".into()),
        _ => None,
    }
}

fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'x> visit::Visit<'x> for V {
        fn visit_pat_ident(&mut self, i: &'x PatIdent) {
            self.0.push(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_pat(&mut v, p);
    v.0
}

fn collect_idents(e: &Expr, out: &mut BTreeSet<String>) {
    struct V<'b>(&'b mut BTreeSet<String>);
    impl<'x, 'b> visit::Visit<'x> for V<'b> {
        fn visit_expr_path(&mut self, p: &'x ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.insert(i.to_string());
            }
        }
    }
    visit::Visit::visit_expr(&mut V(out), e);
}

/// Whether control can leave the expression other than by its value.
fn thread_local_with(e: &Expr) -> Option<(&Ident, &ExprClosure)> {
    if let Expr::MethodCall(m) = e {
        if let (Expr::Path(p), Some(Expr::Closure(c)), true) = (&*m.receiver, m.args.first(), m.method == "with" && m.args.len() == 1) {
            let i = p.path.get_ident()?;
            let s = i.to_string();
            if c.inputs.len() == 1 && s.len() > 1 && s.chars().all(|c| c.is_uppercase() || c == '_') {
                return Some((i, c));
            }
        }
    }
    None
}

fn diverts(e: &Expr) -> bool {
    struct V(bool);
    impl<'x> visit::Visit<'x> for V {
        fn visit_expr_return(&mut self, _: &'x ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'x ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'x ExprClosure) {}
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

fn dyn_name(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<String> {
    for x in b {
        if let TypeParamBound::Trait(t) = x {
            return Some(t.path.segments.last().unwrap().ident.to_string());
        }
    }
    None
}

fn iterator_item(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Type> {
    for x in b {
        if let TypeParamBound::Trait(t) = x {
            let s = t.path.segments.last().unwrap();
            if s.ident == "Iterator" || s.ident == "DoubleEndedIterator" {
                if let PathArguments::AngleBracketed(ab) = &s.arguments {
                    for a in &ab.args {
                        if let GenericArgument::AssocType(at) = a {
                            return Some(at.ty.clone());
                        }
                    }
                }
            }
        }
    }
    None
}

/// The trait object named in a function's return type, if any.
/// traits of this repository whose implementations are passed by a type parameter and kept as objects
const OBJECTS: &[&str] = &["Manager"];

fn bound_in(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<String> {
    b.iter().find_map(|b| match b {
        TypeParamBound::Trait(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            OBJECTS.contains(&n.as_str()).then_some(n)
        }
        _ => None,
    })
}

fn object_bound(g: &Generics, name: &str) -> Option<String> {
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            if t.ident == name {
                if let Some(n) = bound_in(&t.bounds) {
                    return Some(n);
                }
            }
        }
    }
    for p in g.where_clause.iter().flat_map(|w| &w.predicates) {
        if let WherePredicate::Type(t) = p {
            if let Type::Path(tp) = &t.bounded_ty {
                if tp.path.get_ident().map(|i| i == name).unwrap_or(false) {
                    if let Some(n) = bound_in(&t.bounds) {
                        return Some(n);
                    }
                }
            }
        }
    }
    None
}

fn dyn_in(t: &Type) -> Option<String> {
    struct V(Option<String>);
    impl<'x> visit::Visit<'x> for V {
        fn visit_type_trait_object(&mut self, o: &'x TypeTraitObject) {
            if self.0.is_none() {
                self.0 = dyn_name(&o.bounds);
            }
        }
    }
    let mut v = V(None);
    visit::Visit::visit_type(&mut v, t);
    v.0
}

/// x.lock().unwrap()
fn locked(e: &Expr) -> Option<&Expr> {
    match strip(e) {
        Expr::MethodCall(u) if (u.method == "unwrap" || u.method == "expect") => match strip(&u.receiver) {
            Expr::MethodCall(l) if l.method == "lock" && l.args.is_empty() => Some(e),
            _ => None,
        },
        _ => None,
    }
}
