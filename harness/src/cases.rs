//! A case: an input for the real code, run against the reference.
use crate::lex::{self, Er, Plugs, Tok};
use crate::render::{self, Conf, Ctx, Item, Kind, ONode, RNode};
use humphrey_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use stuart_core::error::{FsError, ProcessError};
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{parse_html, parse_markdown, ParseError, ParsedContents, RawArgument, RawFunction, Token, TracebackError};
use stuart_core::plugins::{Manager, NodeParser, NodeProcessor, Plugin};
use stuart_core::process::{ProcessOutput, Scope};
use stuart_core::{Config, Environment, Error, Node, Stuart};

#[derive(Clone, Debug)]
pub enum Case {
    Lex { text: String, plugs: bool },
    Arg { text: String },
    Markdown { text: String },
    Project { files: Vec<(String, Vec<u8>)>, statics: Vec<(String, Vec<u8>)>, conf: Conf, plugs: bool },
    Merge { a: Vec<(String, Vec<u8>)>, b: Vec<(String, Vec<u8>)> },
    Paths { files: Vec<(String, Vec<u8>)>, paths: Vec<String> },
}

// ------------------------------------------------------------------ plugins of the test

thread_local! { pub static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
struct P(String, String);
#[derive(Debug)]
struct F { name: String, id: String, args: Vec<String> }
fn show(a: &RawArgument) -> String {
    match a { RawArgument::Variable(s) => format!("Var({:?})", s), RawArgument::String(s) => format!("Str({:?})", s), RawArgument::Ident(s) => format!("Ident({:?})", s), RawArgument::Integer(i) => format!("Int({:?})", i) }
}
impl FunctionParser for P {
    fn name(&self) -> &str { &self.0 }
    fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        let args: Vec<String> = raw.positional_args.iter().map(show).chain(raw.named_args.iter().map(|(k, a)| format!("{}={}", k, show(a)))).collect();
        LOG.with(|l| l.borrow_mut().push(format!("{}({})", self.1, args.join(";"))));
        if raw.positional_args.iter().any(|a| *a == RawArgument::String("reject".into())) { return Err(ParseError::GenericSyntaxError); }
        Ok(Box::new(F { name: self.0.clone(), id: self.1.clone(), args }))
    }
}
impl Function for F {
    fn name(&self) -> &str { &self.name }
    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        let t = scope.tokens.current().unwrap().clone();
        if self.args.iter().any(|a| a.contains("fail")) { return Err(t.traceback(ProcessError::StackError)); }
        scope.output(format!("[{}({})]", self.id, self.args.join(";"))).map_err(|e| t.traceback(e))
    }
}
struct NP(&'static str, String);
struct NPr(String, Vec<u8>, String);
impl NodeParser for NP {
    fn extensions(&self) -> Vec<&'static str> { vec![self.0] }
    fn parse(&self, contents: &[u8], path: &Path) -> Result<Box<dyn NodeProcessor>, String> {
        if contents.starts_with(b"unparsable") { return Err("unparsable".into()); }
        Ok(Box::new(NPr(self.1.clone(), contents.to_vec(), path.file_name().unwrap().to_string_lossy().to_string())))
    }
}
impl NodeProcessor for NPr {
    fn process(&self, _: &Stuart, _: Environment) -> Result<ProcessOutput, String> {
        if self.1.starts_with(b"unrenderable") { return Err("unrenderable".into()); }
        Ok(ProcessOutput {
            new_contents: if self.1.starts_with(b"keep") { None } else { Some([b"<", self.0.as_bytes(), b">", &self.1[..]].concat()) },
            new_name: if self.1.starts_with(b"rename") { Some(format!("{}.out", self.2)) } else { None },
        })
    }
    fn to_json(&self) -> Value { Value::Object(vec![("type".into(), Value::String("custom".into())), ("id".into(), Value::String(self.0.clone()))]) }
}
pub const PLUGS: [(&str, &[&str], &[&str]); 3] = [
    ("alpha", &["probe", "dup", "else", "alpha"], &["abc"]),
    ("beta", &["dup", "beta::x", "for", "Probe", "probe2", "alpha::dup"], &["abc", "xyz"]),
    ("alpha", &["dup", "late"], &["late", "html"]),
];
pub fn plugs_ref() -> (Plugs, Vec<(String, String)>) {
    let mut v = vec![];
    let mut e = vec![];
    for (i, (n, fs, xs)) in PLUGS.iter().enumerate() {
        v.push((n.to_string(), fs.iter().map(|f| (f.to_string(), format!("{}{}.{}", n, i, f))).collect()));
        for x in *xs { e.push((x.to_string(), format!("{}{}.{}", n, i, x))); }
    }
    (v, e)
}
fn plugs_real() -> Vec<Plugin> {
    PLUGS.iter().enumerate().map(|(i, (n, fs, xs))| Plugin {
        name: n.to_string(), version: "1".into(),
        functions: fs.iter().map(|f| Box::new(P(f.to_string(), format!("{}{}.{}", n, i, f))) as Box<dyn FunctionParser>).collect(),
        parsers: xs.iter().map(|x| Box::new(NP(x, format!("{}{}.{}", n, i, x))) as Box<dyn NodeParser>).collect(),
    }).collect()
}

// ------------------------------------------------------------------ reading the real results

fn variant(d: &impl std::fmt::Debug) -> String { let s = format!("{:?}", d); s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() }
fn er_parse(e: &TracebackError<ParseError>) -> Er { Er { class: "parse", kind: variant(&e.kind), path: e.path.to_string_lossy().into(), line: e.line, col: e.column } }
fn er_of(e: &Error) -> Er {
    match e {
        Error::Parse(t) => er_parse(t),
        Error::Process(t) => Er { class: "process", kind: variant(&t.kind), path: t.path.to_string_lossy().into(), line: t.line, col: t.column },
        Error::Fs(f) => Er { class: "fs", kind: variant(f), path: "".into(), line: 0, col: 0 },
        Error::Plugin(_) => Er { class: "plugin", kind: "Plugin".into(), path: "".into(), line: 0, col: 0 },
        e => Er { class: "other", kind: variant(e), path: "".into(), line: 0, col: 0 },
    }
}
fn onode(n: &Node) -> ONode {
    match n {
        Node::Directory { name, children, source } => ONode::Dir { name: name.clone(), children: children.iter().map(onode).collect(), source: source.to_string_lossy().into() },
        Node::File { name, contents, parsed_contents, metadata, source } => ONode::File { name: name.clone(), contents: contents.clone(), meta: metadata.clone(), ignored: matches!(parsed_contents, ParsedContents::Ignored), source: source.to_string_lossy().into() },
    }
}
fn txt(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }

/// what a check looks at
#[derive(Clone, Copy, Default)]
pub struct Look { pub loc: bool, pub errs: bool, pub raw: bool, pub names: bool, pub log: bool, pub bytes: bool, pub shape: bool, pub html: bool, pub merge: bool, pub save: bool, pub meta: bool }

fn same_er(a: &Er, b: &Er, look: Look) -> Result<(), String> {
    let (mut a, mut b) = (a.clone(), b.clone());
    if !look.loc { for e in [&mut a, &mut b] { e.path.clear(); e.line = 0; e.col = 0; } }
    if !look.errs { for e in [&mut a, &mut b] { e.kind.clear(); e.class = ""; } }
    if a == b { Ok(()) } else { Err(format!("error: expected {:?}, got {:?}", a, b)) }
}
fn same_tree(a: &ONode, b: &ONode, look: Look, at: &str) -> Result<(), String> {
    match (a, b) {
        (ONode::Dir { name: n1, children: c1, source: s1 }, ONode::Dir { name: n2, children: c2, source: s2 }) => {
            let at = format!("{}/{}", at, n1);
            if look.shape && (n1 != n2 || s1 != s2) { return Err(format!("{}: directory {} of {} instead of {} of {}", at, n2, s2, n1, s1)); }
            if c1.len() != c2.len() {
                if !look.shape { return Ok(()); }
                return Err(format!("{}: {} children instead of {}: {:?}", at, c2.len(), c1.len(), c2.iter().map(|c| c.name()).collect::<Vec<_>>()));
            }
            for (x, y) in c1.iter().zip(c2) { same_tree(x, y, look, &at)?; }
            Ok(())
        }
        (ONode::File { name: n1, contents: b1, source: s1, .. }, ONode::File { name: n2, contents: b2, source: s2, .. }) => {
            let at = format!("{}/{}", at, n1);
            if look.shape && (n1 != n2 || s1 != s2) { return Err(format!("{}: file {} of {} instead of {} of {}", at, n2, s2, n1, s1)); }
            let page = (s1.ends_with(".html") || s1.ends_with(".md")) && !s1.ends_with("/root.html") && !s1.ends_with("/md.html");
            if b1 != b2 && (if page { look.bytes } else { look.shape || look.bytes }) { return Err(format!("{}: contents\n  {:?}\ninstead of\n  {:?}", at, txt(b2), txt(b1))); }
            Ok(())
        }
        _ => if look.shape { Err(format!("{}: kind of node differs at {}", at, a.name())) } else { Ok(()) },
    }
}
fn same_html(a: &RNode, b: &Node) -> Result<(), String> {
    match (a, b) {
        (RNode::Dir { children, .. }, Node::Directory { children: c2, .. }) => {
            if children.len() != c2.len() { return Err("the input tree changed".into()); }
            for (x, y) in children.iter().zip(c2) { same_html(x, y)?; }
            Ok(())
        }
        (RNode::File { name, kind, contents, .. }, Node::File { parsed_contents, contents: c2, .. }) => {
            if contents != c2 { return Err(format!("{}: input contents changed", name)); }
            match (kind, parsed_contents) {
                (Kind::Md(m), ParsedContents::Markdown(p)) => {
                    let (x, y) = (render::md_value(m), p.to_value());
                    if x != y { return Err(format!("{}: rendered markdown {:?} instead of {:?}", name, y.serialize(), x.serialize())); }
                    Ok(())
                }
                _ => Ok(()),
            }
        }
        _ => Err("the input tree changed".into()),
    }
}

// ------------------------------------------------------------------ running

pub fn write_tree(dir: &Path, files: &[(String, Vec<u8>)]) {
    std::fs::create_dir_all(dir).unwrap();
    for (p, b) in files {
        let f = dir.join(p);
        if p.ends_with('/') { std::fs::create_dir_all(&f).ok(); continue; }
        if let Some(d) = f.parent() { if std::fs::create_dir_all(d).is_err() { continue; } }
        let _ = std::fs::write(&f, b);
    }
}
fn walk(dir: &Path, pre: &str, out: &mut BTreeMap<String, Item>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let n = if pre.is_empty() { e.file_name().to_string_lossy().to_string() } else { format!("{}/{}", pre, e.file_name().to_string_lossy()) };
        if e.path().is_dir() { out.insert(n.clone(), Item::Dir); walk(&e.path(), &n, out); } else { out.insert(n, Item::File(std::fs::read(e.path()).unwrap_or_default())); }
    }
}
fn conf(c: Conf) -> Config { Config { name: "The \"site\"".into(), author: if c.meta { Some("Ann\n".into()) } else { None }, strip_extensions: c.strip, save_data_files: c.data, save_metadata: c.meta } }

pub fn run(case: &Case, look: Look, dir: &Path) -> Result<bool, String> {
    LOG.with(|l| l.borrow_mut().clear());
    match case {
        Case::Lex { text, plugs } => run_lex(text, *plugs, look),
        Case::Arg { text } => {
            let r = RawArgument::parse(text);
            match (lex::arg(text), r) {
                (Ok(a), Ok(b)) => if format!("{:?}", a) == show(&b) { Ok(true) } else { Err(format!("argument {:?} read as {:?} instead of {:?}", text, b, a)) },
                (Err(a), Err(b)) => if a == variant(&b) { Ok(true) } else { Err(format!("argument {:?}: error {:?} instead of {}", text, b, a)) },
                (a, b) => Err(format!("argument {:?}: expected {:?}, got {:?}", text, a, b)),
            }
        }
        Case::Markdown { text } => {
            let want = render::markdown(text, "/p.md", &vec![]);
            let got = parse_markdown(text.clone(), Path::new("/p.md"), None);
            match (want, got) {
                (Err(a), Err(e)) => same_er(&a, &er_parse(&e), Look { errs: true, loc: true, ..look }).map(|_| true),
                (Ok(m), Ok(p)) => {
                    let (x, y) = (render::md_value(&m), p.to_value());
                    if x != y { return Err(format!("markdown file read as {} instead of {}", y.serialize(), x.serialize())); }
                    let (x, y) = (Value::Object(m.fm.iter().map(|(k, v)| (k.clone(), Value::String(v.clone()))).collect()), p.frontmatter_to_value());
                    if x != y { return Err(format!("front matter {} instead of {}", y.serialize(), x.serialize())); }
                    Ok(!m.fm.is_empty())
                }
                (a, b) => Err(format!("expected {:?}, got {:?}", a.map(|_| ()), b.map(|_| ()))),
            }
        }
        Case::Project { files, statics, conf: cf, plugs } => run_project(files, statics, *cf, *plugs, look, dir),
        Case::Merge { a, b } => {
            write_tree(&dir.join("a"), a);
            write_tree(&dir.join("b"), b);
            let (mut x, y) = (Node::new(dir.join("a"), false).map_err(|e| format!("{:?}", e))?, Node::new(dir.join("b"), false).map_err(|e| format!("{:?}", e))?);
            let (mut ox, oy) = (onode(&x), onode(&y));
            match (render::merge(&mut ox, oy), x.merge(y)) {
                (Ok(()), Ok(())) => same_tree(&ox, &onode(&x), Look { shape: true, bytes: true, ..look }, "").map(|_| true),
                (Err((p, q)), Err(Error::Fs(FsError::Conflict(r, s)))) => {
                    let (r, s) = (r.to_string_lossy().to_string(), s.to_string_lossy().to_string());
                    if (p == r && q == s) || (p == s && q == r) { Ok(true) } else { Err(format!("conflict between {} and {} reported as {} and {}", p, q, r, s)) }
                }
                (a, b) => Err(format!("merging: expected {:?}, got {:?}", a, b)),
            }
        }
        Case::Paths { files, paths } => {
            write_tree(&dir.join("content"), files);
            let n = Node::new(dir.join("content"), false).map_err(|e| format!("{:?}", e))?;
            let r = render::read_dir(&dir.join("content"), false, &vec![], &[]).unwrap();
            for p in paths {
                let want = render::at_path(&r, p).map(|n| match n { RNode::Dir { source, .. } | RNode::File { source, .. } => source.clone() });
                let got = n.get_at_path(&PathBuf::from(p)).map(|n| n.source().to_string_lossy().to_string());
                if want != got { return Err(format!("path {:?} resolves to {:?} instead of {:?}", p, got, want)); }
            }
            Ok(true)
        }
    }
}

fn log_of(toks: &[lex::LTok]) -> Vec<String> {
    toks.iter().filter_map(|t| match &t.tok { Tok::Fun(_, lex::Fun::Plugin { id, args }) => Some(format!("{}({})", id, args.join(";"))), _ => None }).collect()
}

fn run_lex(text: &str, plugs: bool, look: Look) -> Result<bool, String> {
    let path = "/some/dir/page.html";
    let pr = if plugs { plugs_ref().0 } else { vec![] };
    let want = lex::lex(text, path, &pr);
    let mgr = plugs_real();
    let got = parse_html(text, Path::new(path), if plugs { Some(&mgr as &dyn Manager) } else { None });
    match (want, got) {
        (Err(a), Err(e)) => same_er(&a, &er_parse(&e), look).map(|_| true),
        (Ok(w), Ok(g)) => {
            if w.len() != g.len() { return Err(format!("{} tokens instead of {}: {:?}", g.len(), w.len(), g.iter().map(|t| &t.inner).collect::<Vec<_>>())); }
            for (i, (a, b)) in w.iter().zip(&g).enumerate() {
                let ok = match (&a.tok, &b.inner) {
                    (Tok::Raw(s), Token::Raw(t)) => s == t,
                    (Tok::Var(s), Token::Variable(t)) => s == t || !look.names,
                    (Tok::Fun(n, _), Token::Function(f)) => n == f.name() || !look.names,
                    _ => false,
                };
                if !ok { return Err(format!("token {}: {:?} instead of {:?}", i, b.inner, a.tok)); }
                if look.loc && (b.path != Path::new(path) || b.line != a.line || b.column != a.col) { return Err(format!("token {} ({:?}): at {}:{}:{} instead of {}:{}:{}", i, b.inner, b.path.display(), b.line, b.column, a.path, a.line, a.col)); }
            }
            if look.log {
                let got: Vec<String> = LOG.with(|l| l.borrow().clone());
                let want = log_of(&w);
                if got != want { return Err(format!("plugin calls {:?} instead of {:?}", got, want)); }
            }
            Ok(w.len() > 1)
        }
        (a, b) => Err(format!("expected {:?}, got {:?}", a.map(|t| t.len()), b.map(|t| t.len()))),
    }
}

fn run_project(files: &[(String, Vec<u8>)], statics: &[(String, Vec<u8>)], cf: Conf, plugs: bool, look: Look, dir: &Path) -> Result<bool, String> {
    let content = dir.join("content");
    write_tree(&content, files);
    let (pr, exts) = if plugs { plugs_ref() } else { (vec![], vec![]) };
    // expected
    let mut vars: Vec<(String, Value)> = std::env::vars().map(|(k, v)| (k, Value::String(v))).collect();
    vars.push(("STUART_ENV".into(), Value::String("testing".into())));
    let env = Value::Object(vars);
    let mut pre = None;
    let want = (|| {
        let orig = render::read_dir(&content, true, &pr, &exts)?;
        let mut input = orig.clone();
        render::preprocess(&mut input, &Ctx { input: &orig, env: env.clone(), save_metadata: cf.meta })?;
        pre = Some(input.clone());
        render::build(&input, &Ctx { input: &input, env: env.clone(), save_metadata: cf.meta }, None, None)
    })();
    // real
    let mut st = Stuart::new(&content).with_config(conf(cf));
    if plugs { st = st.with_plugins(plugs_real()); }
    let got = st.build("testing".into());
    if std::env::var("HSTAT").is_ok() { eprintln!("STAT {}", match &want { Ok(_) => "ok".to_string(), Err(e) => e.kind.clone() }); }
    match (&want, &got) {
        (Err(a), Err(e)) => return same_er(a, &er_of(e), look).map(|_| true),
        (Ok(_), Ok(())) => (),
        (a, b) => return if look.bytes || look.shape || look.errs { Err(format!("build: expected {:?}, got {:?}", a.as_ref().map(|_| "success"), b)) } else { Ok(false) },
    }
    let out = st.output.as_ref().ok_or("no output after a build")?;
    if look.bytes || look.shape { same_tree(want.as_ref().unwrap(), &onode(out), look, "")?; }
    if look.html { if let (Some(a), Some(b)) = (&pre, &st.input) { same_html(a, b)?; } }
    if look.meta && cf.meta { same_meta(want.as_ref().unwrap(), &onode(out))?; }
    // merging what is static
    if !statics.is_empty() {
        write_tree(&dir.join("static"), statics);
        let node = Node::new(dir.join("static"), false).map_err(|e| format!("{:?}", e))?;
        let (mut ox, oy) = (onode(out), onode(&node));
        match (render::merge(&mut ox, oy), st.merge_output(node)) {
            (Ok(()), Ok(())) => if look.merge { same_tree(&ox, &onode(st.output.as_ref().unwrap()), Look { shape: true, bytes: true, ..look }, "")?; },
            (Err(_), Err(_)) => return Ok(true),
            (a, b) => return if look.merge { Err(format!("merging: expected {:?}, got {:?}", a, b)) } else { Ok(false) },
        }
    }
    let out = onode(st.output.as_ref().unwrap());
    if look.save {
        let target = dir.join("out");
        write_tree(&target, &[("old.txt".into(), b"old".to_vec()), ("sub/old.html".into(), b"old".to_vec())]);
        let mut want = BTreeMap::new();
        let ok = render::saved(&out, "", cf, true, &mut want);
        match (ok, st.save(&target)) {
            (Some(()), Ok(())) => {
                let mut got = BTreeMap::new();
                walk(&target, "", &mut got);
                for (p, i) in &want { if got.get(p) != Some(i) { return Err(format!("saved: {} is {} instead of {}", p, item(got.get(p)), item(Some(i)))); } }
                for p in got.keys() { if !want.contains_key(p) { return Err(format!("saved: unexpected {}", p)); } }
            }
            (None, Err(_)) => (),
            (a, b) => return Err(format!("saving: expected {:?}, got {:?}", a, b)),
        }
        // a place which cannot be written to
        let bad = dir.join("no/such/place");
        if st.save(&bad).is_ok() { return Err("saving below a directory which does not exist succeeded".into()); }
    }
    if look.meta {
        let target = dir.join("metadata.json");
        let r = st.save_metadata(&target);
        if !cf.meta { return if matches!(r, Err(Error::MetadataNotEnabled)) && !target.exists() { Ok(true) } else { Err(format!("metadata exported although it is off: {:?}", r)) }; }
        if let Err(e) = r { return Err(format!("exporting metadata failed: {:?}", e)); }
        let text = std::fs::read_to_string(&target).unwrap_or_default();
        let c = conf(cf);
        let want = Value::Object(vec![("name".into(), Value::String(c.name)), ("author".into(), c.author.map(Value::String).unwrap_or(Value::Null)), ("data".into(), render::metadata(&out, true))]);
        let got: Value = humphrey_json::from_str(&text).map_err(|_| format!("metadata is not JSON: {}", text))?;
        if want.serialize() != got.serialize() { return Err(format!("metadata {} instead of {}", got.serialize(), want.serialize())); }
        if st.save_metadata(dir.join("no/such/place.json")).is_ok() { return Err("exporting metadata to nowhere succeeded".into()); }
    }
    Ok(true)
}
fn item(i: Option<&Item>) -> String { match i { None => "missing".into(), Some(Item::Dir) => "a directory".into(), Some(Item::File(b)) => format!("{:?}", txt(b)) } }
fn same_meta(a: &ONode, b: &ONode) -> Result<(), String> {
    match (a, b) {
        (ONode::Dir { children: x, .. }, ONode::Dir { children: y, .. }) => { for (a, b) in x.iter().zip(y) { same_meta(a, b)?; } Ok(()) }
        (ONode::File { name, meta: x, .. }, ONode::File { meta: y, .. }) => if x == y { Ok(()) } else { Err(format!("{}: metadata {:?} instead of {:?}", name, y.as_ref().map(|v| v.serialize()), x.as_ref().map(|v| v.serialize()))) },
        _ => Ok(()),
    }
}
