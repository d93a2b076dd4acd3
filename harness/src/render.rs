//! Reference meaning of a content tree: reading, rendering, saving, metadata.
use crate::lex::{lex, Arg, Er, Fun, LTok, Plugs, Tok};
use humphrey_json::Value;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Md { pub fm: Vec<(String, String)>, pub toks: Vec<LTok>, pub text: String, pub html: Option<String> }
#[derive(Clone, Debug)]
pub enum Kind { Html(Vec<LTok>), Md(Md), Json(Value), Custom(String), Other, Ignored }
#[derive(Clone, Debug)]
pub enum RNode {
    Dir { name: String, children: Vec<RNode>, source: String },
    File { name: String, contents: Vec<u8>, kind: Kind, source: String },
}
/// a node of the output
#[derive(Clone, Debug)]
pub enum ONode {
    Dir { name: String, children: Vec<ONode>, source: String },
    File { name: String, contents: Vec<u8>, meta: Option<Value>, ignored: bool, source: String },
}
impl RNode {
    pub fn name(&self) -> &str { match self { RNode::Dir { name, .. } | RNode::File { name, .. } => name } }
}
impl ONode {
    pub fn name(&self) -> &str { match self { ONode::Dir { name, .. } | ONode::File { name, .. } => name } }
    pub fn source(&self) -> &str { match self { ONode::Dir { source, .. } | ONode::File { source, .. } => source } }
}

fn er(class: &'static str, kind: &str, path: &str) -> Er { Er { class, kind: kind.into(), path: path.into(), line: 0, col: 0 } }

// ------------------------------------------------------------------ reading

fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") { v.pop(); }
    v.into_iter().map(|l| l.strip_suffix('\r').unwrap_or(l)).enumerate().map(|(_, l)| l).collect()
}
/// `str::lines` keeps a lone carriage return at the end of a last line without newline
fn text_lines(s: &str) -> Vec<&str> {
    let mut v = lines(s);
    if !s.ends_with('\n') && s.ends_with('\r') { let k = s.rfind('\n').map(|i| i + 1).unwrap_or(0); if let Some(l) = v.last_mut() { *l = &s[k..]; } }
    v
}

pub fn markdown(text: &str, path: &str, plugs: &Plugs) -> Result<Md, Er> {
    let ls = text_lines(text);
    let at = |line: usize, kind: &str| Er { class: "parse", kind: kind.into(), path: path.into(), line: line as u32, col: 0 };
    let mut fm = vec![];
    let mut body = 0;
    if text.starts_with("---\n") || text.starts_with("---\r\n") {
        let mut closed = false;
        for (i, l) in ls.iter().enumerate().skip(1) {
            if l.starts_with("---") { closed = true; body = i + 1; break; }
            let k = l.find(':').ok_or_else(|| at(i + 1, "InvalidFrontmatter"))?;
            let v = l[k + 1..].trim();
            if !(v.len() >= 2 && v.starts_with('"') && v.ends_with('"')) { return Err(at(i + 1, "InvalidFrontmatter")); }
            fm.push((l[..k].trim().to_string(), v[1..v.len() - 1].to_string()));
        }
        if !closed { return Err(at(ls.len(), "UnexpectedEOF")); }
    }
    let raw = ls[body..].join("\n");
    Ok(Md { fm, toks: lex(&raw, path, plugs)?, text: raw, html: None })
}
pub fn md_value(md: &Md) -> Value {
    let mut o: Vec<(String, Value)> = md.fm.iter().map(|(k, v)| (k.clone(), Value::String(v.clone()))).collect();
    let mut set = |k: &str, v: Value| match o.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = v, None => o.push((k.into(), v)) };
    if let Some(h) = &md.html { set("content", Value::String(h.clone())); }
    set("markdown", Value::String(md.text.clone()));
    Value::Object(o)
}

pub fn read_file(p: &Path, parse: bool, plugs: &Plugs, exts: &[(String, String)]) -> Result<RNode, Er> {
    let source = p.to_string_lossy().to_string();
    let name = p.file_name().unwrap().to_string_lossy().to_string();
    let contents = std::fs::read(p).map_err(|_| er("fs", "Read", ""))?;
    let ext = name.rfind('.').filter(|i| *i > 0).map(|i| name[i + 1..].to_string());
    let text = || String::from_utf8(contents.clone()).map_err(|_| er("fs", "Read", ""));
    let kind = if !parse { Kind::Ignored } else {
        match ext.as_deref() {
            Some("html") => Kind::Html(lex(&text()?, &source, plugs)?),
            Some("md") => Kind::Md(markdown(&text()?, &source, plugs)?),
            Some("json") => Kind::Json(humphrey_json::from_str(text()?).map_err(|_| er("parse", "InvalidJson", &source))?),
            Some(e) => match exts.iter().find(|x| x.0 == e) { Some(x) => Kind::Custom(x.1.clone()), None => Kind::Other },
            None => Kind::Other,
        }
    };
    if let Kind::Custom(_) = kind { if contents.starts_with(b"unparsable") { return Err(er("plugin", "Plugin", "")); } }
    Ok(RNode::File { name, contents, kind, source })
}
pub fn read_dir(p: &Path, parse: bool, plugs: &Plugs, exts: &[(String, String)]) -> Result<RNode, Er> {
    let mut children = vec![];
    for e in std::fs::read_dir(p).unwrap().flatten() {
        let q = e.path();
        children.push(if q.is_dir() { read_dir(&q, parse, plugs, exts)? } else { read_file(&q, parse, plugs, exts)? });
    }
    Ok(RNode::Dir { name: p.file_name().unwrap().to_string_lossy().to_string(), children, source: p.to_string_lossy().to_string() })
}

// ------------------------------------------------------------------ rendering

pub struct Frame { pub name: String, pub vars: Vec<(String, Value)>, pub out: Vec<u8> }
pub struct Ctx<'a> { pub input: &'a RNode, pub env: Value, pub save_metadata: bool }
struct R<'a> { cx: &'a Ctx<'a>, toks: &'a [LTok], i: usize, stack: Vec<Frame>, sections: Vec<(String, Vec<u8>)>, depth: usize }

pub fn get<'a>(v: &'a Value, parts: &[&str]) -> Option<&'a Value> {
    let mut v = v;
    for p in parts {
        let by_key = match v { Value::Object(o) => o.iter().find(|e| e.0 == *p).map(|e| &e.1), _ => None };
        v = match by_key {
            Some(x) => x,
            None => match v { Value::Array(a) => a.get(index(p)?)?, _ => return None },
        };
    }
    Some(v)
}
fn index(p: &str) -> Option<usize> {
    let d = p.strip_prefix('+').unwrap_or(p);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    d.parse().ok()
}

impl<'a> R<'a> {
    fn top(&mut self) -> &mut Frame { self.stack.last_mut().unwrap() }
    fn var(&self, name: &str) -> Option<Value> {
        let parts: Vec<&str> = name.split('.').collect();
        for f in self.stack.iter().rev() {
            if let Some((_, v)) = f.vars.iter().find(|(n, _)| n == parts[0]) { return Some(get(v, &parts[1..]).cloned().unwrap_or(Value::Null)); }
        }
        None
    }
    fn operand(&self, a: &Arg) -> Option<Arg> {
        match a {
            Arg::Var(n) => match self.var(n)? { Value::String(s) => Some(Arg::Str(s)), Value::Number(x) => Some(Arg::Int(x as i32)), _ => None },
            x => Some(x.clone()),
        }
    }
    fn string_var(&self, n: &str) -> Result<String, &'static str> {
        match self.var(n) { None => Err("UndefinedVariable"), Some(Value::String(s)) => Ok(s), Some(_) => Err("InvalidDataType") }
    }
    /// moves past the `end` of the block whose inside starts here
    fn skip(&mut self) -> Option<()> {
        let mut open = 1;
        while open > 0 {
            let t = self.toks.get(self.i)?;
            self.i += 1;
            if let Tok::Fun(n, _) = &t.tok { if n == "end" { open -= 1 } else if opens(n) { open += 1 } }
        }
        Some(())
    }
    fn run(&mut self) -> Result<(), Er> {
        while self.i < self.toks.len() { self.i += 1; self.token(self.i - 1)?; }
        Ok(())
    }
    fn token(&mut self, at: usize) -> Result<(), Er> {
        let t = &self.toks[at];
        let fail = |k: &str| Err(Er { class: "process", kind: k.into(), path: t.path.clone(), line: t.line, col: t.col });
        match &t.tok {
            Tok::Raw(s) => self.top().out.extend_from_slice(s.as_bytes()),
            Tok::Var(n) => match self.var(n) {
                None => return fail("UndefinedVariable"),
                Some(Value::String(s)) => self.top().out.extend_from_slice(s.as_bytes()),
                Some(Value::Null) => return fail("NullError"),
                Some(_) => return fail("InvalidDataType"),
            },
            Tok::Fun(_, f) => match self.call(f) {
                Ok(()) => (),
                Err(Fail::Here(k)) => return fail(k),
                Err(Fail::Deep(e)) => return Err(e),
            },
        }
        Ok(())
    }
    fn block(&mut self, name: String, vars: Vec<(String, Value)>) -> usize { self.stack.push(Frame { name, vars, out: vec![] }); self.stack.len() - 1 }
    fn call(&mut self, f: &Fun) -> Result<(), Fail> {
        match f {
            Fun::Begin { label, .. } => { self.block(format!("begin:{}", label), vec![]); }
            Fun::End { label, custom } => {
                let fr = self.stack.pop().ok_or(Fail::Here("EndWithoutBegin"))?;
                let ok = if *custom { fr.name == format!("begin:{}", label) } else { fr.name.starts_with(&format!("{}:", label)) };
                if !ok { return Err(Fail::Here("EndWithoutBegin")); }
                self.top().out.extend_from_slice(&fr.out);
                if *custom { self.sections.push((label.clone(), fr.out)); }
            }
            Fun::Else => if !self.stack.last().map_or(false, |f| f.name.starts_with("if")) { return Err(Fail::Here("ElseWithoutIf")); },
            Fun::IfDefined(v) => { let c = self.var(v).map_or(false, |v| !matches!(v, Value::Null)); self.branch(c, format!("ifdefined:{}", v))?; }
            Fun::Cmp { op, a, b } => {
                let (x, y) = (self.operand(a).ok_or(Fail::Here("UndefinedVariable"))?, self.operand(b).ok_or(Fail::Here("UndefinedVariable"))?);
                let both = match (&x, &y) { (Arg::Int(x), Arg::Int(y)) => Some((*x, *y)), _ => None };
                let c = match *op {
                    "ifeq" => x == y,
                    "ifne" => x != y,
                    "ifgt" => both.map_or(false, |(x, y)| x > y),
                    "ifge" => both.map_or(false, |(x, y)| x >= y),
                    "iflt" => both.map_or(false, |(x, y)| x < y),
                    _ => both.map_or(false, |(x, y)| x <= y),
                };
                self.branch(c, format!("{}:", op))?;
            }
            Fun::For { var, source, kind, skip, limit, sort, desc } => {
                let body = self.i;
                let mut items = match kind {
                    'd' => match at_path(self.cx.input, source) {
                        Some(RNode::Dir { children, .. }) => children.iter().filter_map(|c| match c { RNode::File { kind: Kind::Md(m), .. } => Some(md_value(m)), _ => None }).collect(),
                        _ => return Err(Fail::Here("NotFound")),
                    },
                    'j' => match at_path(self.cx.input, source) {
                        Some(RNode::File { kind: Kind::Json(Value::Array(a)), .. }) => a.clone(),
                        Some(RNode::File { .. }) => return Err(Fail::Here("NotJsonArray")),
                        _ => return Err(Fail::Here("NotFound")),
                    },
                    _ => match self.var(source) { Some(Value::Array(a)) => a, _ => return Err(Fail::Here("NotJsonArray")) },
                };
                if let Some(s) = sort {
                    let parts: Vec<&str> = s.split('.').skip(1).collect();
                    let key = |v: &Value| match get(v, &parts) { Some(Value::String(s)) => s.clone(), _ => String::new() };
                    items.sort_by(|a, b| key(a).cmp(&key(b)));
                }
                if *desc { items.reverse(); }
                let items: Vec<Value> = items.into_iter().skip(skip.unwrap_or(0)).take(limit.unwrap_or(usize::MAX)).collect();
                if items.is_empty() { return self.skip().ok_or(Fail::Here("UnexpectedEndOfFile")); }
                for v in items {
                    self.i = body;
                    let h = self.block(format!("for:{}", var), vec![(var.clone(), v)]);
                    while self.stack.len() > h { self.step()?; }
                }
            }
            Fun::Import { var, file } => {
                let v = match at_path(self.cx.input, file) {
                    Some(RNode::File { kind: Kind::Json(v), .. }) => v.clone(),
                    Some(RNode::File { .. }) => return Err(Fail::Here("InvalidDataType")),
                    _ => return Err(Fail::Here("NotFound")),
                };
                if self.top().vars.iter().any(|(n, _)| n == var) { return Err(Fail::Here("VariableAlreadyExists")); }
                self.top().vars.push((var.clone(), v));
            }
            Fun::Insert(l) => {
                let s = self.sections.iter().find(|(n, _)| n == l).ok_or(Fail::Here("UndefinedSection"))?.1.clone();
                self.top().out.extend_from_slice(&s);
            }
            Fun::Excerpt { var, len } => {
                let s = self.string_var(var).map_err(Fail::Here)?;
                let cs: Vec<char> = s.chars().collect();
                let (mut out, mut i, mut tag) = (String::new(), 0, false);
                while out.len() < *len && i < cs.len() {
                    match cs[i] { '<' => tag = true, '>' => tag = false, c => if !tag { out.push(c) } }
                    i += 1;
                }
                if i < cs.len() { out += "..."; }
                self.top().out.extend_from_slice(out.as_bytes());
            }
            Fun::TimeToRead(v) => {
                let s = self.string_var(v).map_err(Fail::Here)?;
                let words = s.split(|c: char| c.is_whitespace()).filter(|w| !w.is_empty()).count();
                let m = std::cmp::max(1, words / 200);
                self.top().out.extend_from_slice(format!("{}", m).as_bytes());
            }
            Fun::DateFormat { var, format } => {
                let s = self.string_var(var).map_err(Fail::Here)?;
                let r = std::panic::catch_unwind(|| {
                    dateparser::parse_with(&s, &chrono::Utc, chrono::NaiveTime::from_hms_opt(0, 0, 0).unwrap()).ok().map(|d| d.format(format).to_string())
                });
                match r { Ok(Some(t)) => self.top().out.extend_from_slice(t.as_bytes()), _ => return Err(Fail::Here("InvalidDate")) }
            }
            Fun::Plugin { id, args } => {
                if args.iter().any(|a| a.contains("fail")) { return Err(Fail::Here("StackError")); }
                let t = format!("[{}({})]", id, args.join(";"));
                self.top().out.extend_from_slice(t.as_bytes());
            }
        }
        Ok(())
    }
    fn step(&mut self) -> Result<(), Fail> {
        if self.i >= self.toks.len() { return Err(Fail::Here("UnexpectedEndOfFile")); }
        self.i += 1;
        self.token(self.i - 1).map_err(Fail::Deep)
    }
    fn branch(&mut self, mut on: bool, name: String) -> Result<(), Fail> {
        let h = self.block(name, vec![]);
        self.depth += 1;
        while self.stack.len() > h {
            let t = self.toks.get(self.i).ok_or(Fail::Here("UnexpectedEndOfFile"))?;
            let n = match &t.tok { Tok::Fun(n, _) => n.as_str(), _ => "" };
            let own = self.stack.len() == h + 1 && (n == "else" || n == "end");
            if on || own {
                self.step()?;
                if n == "else" { on = !on; }
            } else {
                self.i += 1;
                if opens(n) { self.skip().ok_or(Fail::Here("UnexpectedEndOfFile"))?; }
            }
        }
        Ok(())
    }
}
enum Fail { Here(&'static str), Deep(Er) }
fn opens(n: &str) -> bool { n == "begin" || n == "for" || (n.starts_with("if") && crate::lex::BUILTINS.contains(&n)) }

/// the node a path written in a template names
pub fn at_path<'a>(root: &'a RNode, path: &str) -> Option<&'a RNode> {
    if path.starts_with('/') { return None; }
    let mut n = root;
    for part in path.split('/') {
        match part {
            "" | "." => (),
            ".." => return None,
            p => n = match n { RNode::Dir { children, .. } => children.iter().find(|c| c.name() == p)?, _ => return None },
        }
    }
    Some(n)
}

fn base(cx: &Ctx, me: Option<Value>) -> Frame {
    let mut vars = vec![("env".to_string(), cx.env.clone())];
    if let Some(v) = me { vars.push(("self".into(), v)); }
    Frame { name: "base".into(), vars, out: vec![] }
}
/// renders the tokens from the base frame: their output and the sections they closed
fn render(cx: &Ctx, toks: &[LTok], me: Option<Value>, sections: Vec<(String, Vec<u8>)>, page: &str) -> Result<(Vec<u8>, Vec<(String, Vec<u8>)>), Er> {
    let mut r = R { cx, toks, i: 0, stack: vec![base(cx, me)], sections, depth: 0 };
    r.run()?;
    if r.stack.len() != 1 { return Err(er("process", "StackError", page)); }
    Ok((r.stack.pop().unwrap().out, r.sections))
}

/// every markdown file rendered
pub fn preprocess(n: &mut RNode, cx: &Ctx) -> Result<(), Er> {
    match n {
        RNode::Dir { children, .. } => { for c in children { preprocess(c, cx)?; } }
        RNode::File { kind: Kind::Md(md), source, .. } => {
            let (out, _) = render(cx, &md.toks, None, vec![], source)?;
            let text = String::from_utf8(out).map_err(|_| er("process", "StackError", source))?;
            let mut html = String::new();
            pulldown_cmark::html::push_html(&mut html, pulldown_cmark::Parser::new_ext(&text, pulldown_cmark::Options::all()));
            md.html = Some(html);
        }
        _ => (),
    }
    Ok(())
}

fn obj(kv: Vec<(&str, Value)>) -> Value { Value::Object(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
fn s(x: &str) -> Value { Value::String(x.into()) }

pub fn build<'a>(n: &'a RNode, cx: &Ctx, root: Option<&'a [LTok]>, md: Option<&'a [LTok]>) -> Result<ONode, Er> {
    match n {
        RNode::Dir { name, children, source } => {
            let (mut root, mut md) = (root, md);
            for c in children {
                let t = match c { RNode::File { kind: Kind::Html(t), .. } => Some(&t[..]), _ => None };
                if c.name() == "root.html" { root = t; }
                if c.name() == "md.html" { md = t; }
            }
            let children = children.iter().map(|c| build(c, cx, root, md)).collect::<Result<Vec<_>, _>>()?;
            Ok(ONode::Dir { name: name.clone(), children, source: source.clone() })
        }
        RNode::File { name, contents, kind, source } => {
            let (mut oname, mut ocontents) = (name.clone(), contents.clone());
            if name != "root.html" && name != "md.html" {
                match kind {
                    Kind::Html(toks) => {
                        let root = root.ok_or_else(|| er("process", "MissingHtmlRoot", source))?;
                        let (_, secs) = render(cx, toks, None, vec![], source)?;
                        ocontents = render(cx, root, None, secs, source)?.0;
                    }
                    Kind::Md(m) => {
                        let root = root.ok_or_else(|| er("process", "MissingHtmlRoot", source))?;
                        let md = md.ok_or_else(|| er("process", "MissingMarkdownRoot", source))?;
                        let (_, secs) = render(cx, md, Some(md_value(m)), vec![], source)?;
                        ocontents = render(cx, root, None, secs, source)?.0;
                        oname = format!("{}.html", &name[..name.len() - 3]);
                    }
                    Kind::Custom(id) => {
                        if contents.starts_with(b"unrenderable") { return Err(er("plugin", "Plugin", "")); }
                        if contents.starts_with(b"rename") { oname = format!("{}.out", name); }
                        if !contents.starts_with(b"keep") { ocontents = [b"<", id.as_bytes(), b">", &contents[..]].concat(); }
                    }
                    _ => (),
                }
            }
            let meta = if !cx.save_metadata { None } else {
                match kind {
                    Kind::Md(m) => Some(obj(vec![("type", s("markdown")), ("value", Value::Object(m.fm.iter().map(|(k, v)| (k.clone(), s(v))).collect()))])),
                    Kind::Json(v) => Some(obj(vec![("type", s("json")), ("value", v.clone())])),
                    Kind::Custom(id) => Some(obj(vec![("type", s("custom")), ("id", s(id))])),
                    _ => None,
                }
            };
            Ok(ONode::File { name: oname, contents: ocontents, meta, ignored: false, source: source.clone() })
        }
    }
}

/// a tree of files taken as they are
pub fn plain(n: &RNode) -> ONode {
    match n {
        RNode::Dir { name, children, source } => ONode::Dir { name: name.clone(), children: children.iter().map(plain).collect(), source: source.clone() },
        RNode::File { name, contents, source, kind } => ONode::File { name: name.clone(), contents: contents.clone(), meta: None, ignored: matches!(kind, Kind::Ignored), source: source.clone() },
    }
}
pub fn merge(a: &mut ONode, b: ONode) -> Result<(), (String, String)> {
    if let (ONode::Dir { children: xs, .. }, ONode::Dir { children: ys, .. }) = (a, b) {
        for y in ys {
            match xs.iter_mut().find(|x| x.name() == y.name()) {
                None => xs.push(y),
                Some(x @ ONode::Dir { .. }) if matches!(y, ONode::Dir { .. }) => merge(x, y)?,
                Some(x) => return Err((x.source().into(), y.source().into())),
            }
        }
    }
    Ok(())
}
#[derive(Clone, Copy, Debug)]
pub struct Conf { pub strip: bool, pub data: bool, pub meta: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum Item { Dir, File(Vec<u8>) }
/// the files written; None when two of them would be written to the same place
pub fn saved(n: &ONode, at: &str, cf: Conf, top: bool, out: &mut BTreeMap<String, Item>) -> Option<()> {
    let join = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{}/{}", a, b) };
    match n {
        ONode::Dir { name, children, .. } => {
            let at = if top { at.to_string() } else { join(at, name) };
            if !top { if let Some(Item::File(_)) = out.insert(at.clone(), Item::Dir) { return None; } }
            for c in children { saved(c, &at, cf, false, out)?; }
        }
        ONode::File { name, contents, ignored, .. } => {
            if name == "root.html" || name == "md.html" || (name.ends_with(".json") && !cf.data) { return Some(()); }
            let target = if cf.strip && name.ends_with(".html") && name != "index.html" && !ignored {
                let d = join(at, &name[..name.len() - 5]);
                if d != at && !name.starts_with(".html") { if let Some(Item::File(_)) = out.insert(d.clone(), Item::Dir) { return None; } }
                join(if name == ".html" { at } else { &d }, "index.html")
            } else { join(at, name) };
            if out.insert(target, Item::File(contents.clone())).is_some() { return None; }
        }
    }
    Some(())
}
pub fn metadata(n: &ONode, top: bool) -> Value {
    match n {
        ONode::Dir { name, children, .. } => {
            let c = Value::Array(children.iter().map(|c| metadata(c, false)).collect());
            if top { c } else { obj(vec![("type", s("directory")), ("name", s(name)), ("children", c)]) }
        }
        ONode::File { name, meta, .. } => {
            let mut o = vec![("name".to_string(), s(name))];
            match meta { Some(Value::Object(kv)) => for (k, v) in kv { match o.iter_mut().find(|e| &e.0 == k) { Some(e) => e.1 = v.clone(), None => o.push((k.clone(), v.clone())) } }, _ => o.push(("type".into(), s("file"))) }
            Value::Object(o)
        }
    }
}
