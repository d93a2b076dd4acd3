//! Reference reading of template text.

#[derive(Clone, Debug, PartialEq)]
pub struct Loc { pub line: u32, pub col: u32 }

#[derive(Clone, Debug, PartialEq)]
pub enum Arg { Var(String), Str(String), Ident(String), Int(i32) }

#[derive(Clone, Debug, PartialEq)]
pub enum Fun {
    Begin { label: String, custom: bool },
    End { label: String, custom: bool },
    Else,
    IfDefined(String),
    Cmp { op: &'static str, a: Arg, b: Arg },
    For { var: String, source: String, kind: char, skip: Option<usize>, limit: Option<usize>, sort: Option<String>, desc: bool },
    Import { var: String, file: String },
    Insert(String),
    Excerpt { var: String, len: usize },
    TimeToRead(String),
    DateFormat { var: String, format: String },
    Plugin { id: String, args: Vec<String> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Raw(String), Var(String), Fun(String, Fun) }

#[derive(Clone, Debug)]
pub struct LTok { pub tok: Tok, pub path: String, pub line: u32, pub col: u32 }

/// an error: class, kind, place ("" for a kind: any)
#[derive(Clone, Debug, PartialEq)]
pub struct Er { pub class: &'static str, pub kind: String, pub path: String, pub line: u32, pub col: u32 }

pub const BUILTINS: [&str; 16] = ["begin", "dateformat", "else", "end", "excerpt", "for", "ifdefined", "import", "insert", "timetoread", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"];

/// plugins known to the reference: (plugin name, function name, id)
pub type Plugs = Vec<(String, Vec<(String, String)>)>;

struct L<'a> { cs: Vec<char>, i: usize, path: &'a str }

impl<'a> L<'a> {
    /// the place reached once the first i characters have been read: the place of the last of them
    fn loc(&self) -> Loc {
        let (mut l, mut c, mut nl, mut nc) = (1, 1, 1, 1);
        for ch in &self.cs[..self.i] {
            l = nl; c = nc;
            match ch { '\n' => { nl += 1; nc = 0; } '\r' => (), _ => nc += 1 }
        }
        Loc { line: l, col: c }
    }
    fn er(&self, kind: &str) -> Er { let l = self.loc(); Er { class: "parse", kind: kind.into(), path: self.path.into(), line: l.line, col: l.col } }
    fn peek(&self) -> Option<char> { self.cs.get(self.i).copied() }
    fn ws(&mut self) { while self.peek().map_or(false, |c| c.is_whitespace()) { self.i += 1; } }
    fn expect(&mut self, s: &str) -> Result<(), Er> {
        for c in s.chars() {
            match self.peek() {
                None => return Err(self.er("UnexpectedEOF")),
                Some(d) => { self.i += 1; if d != c { return Err(self.er("Expected")); } }
            }
        }
        Ok(())
    }
    fn name(&mut self, extra: &str) -> String {
        let mut s = String::new();
        while let Some(c) = self.peek() {
            if c.is_alphanumeric() || c == '_' || extra.contains(c) { s.push(c); self.i += 1; } else { break; }
        }
        s
    }
    /// the text up to the next opening of a tag, unescaped; None (and nothing read) if there is no other tag
    fn open(&mut self) -> Option<String> {
        let mut out: Vec<char> = Vec::new();
        for j in self.i..self.cs.len() {
            out.push(self.cs[j]);
            let n = out.len();
            if n >= 2 && out[n - 1] == '{' && out[n - 2] == '{' {
                if n >= 3 && out[n - 3] == '\\' { out.remove(n - 3); }
                else { out.truncate(n - 2); self.i = j + 1; return Some(out.into_iter().collect()); }
            }
        }
        None
    }
}

pub fn arg(s: &str) -> Result<Arg, &'static str> {
    let cs: Vec<char> = s.chars().collect();
    if cs.first() == Some(&'$') {
        let name: String = cs[1..].iter().collect();
        return if name.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') { Ok(Arg::Var(name)) } else { Err("InvalidVariableName") };
    }
    if cs.len() >= 2 && cs[0] == '"' && cs[cs.len() - 1] == '"' {
        let inner = &cs[1..cs.len() - 1];
        return if inner.contains(&'"') { Err("GenericSyntaxError") } else { Ok(Arg::Str(inner.iter().collect())) };
    }
    if let Some(i) = int(s) { return Ok(Arg::Int(i)); }
    if BUILTINS.contains(&s) { return Ok(Arg::Ident(s.into())); }
    Err("GenericSyntaxError")
}
fn int(s: &str) -> Option<i32> {
    let (neg, d) = if let Some(d) = s.strip_prefix('-') { (true, d) } else if let Some(d) = s.strip_prefix('+') { (false, d) } else { (false, s) };
    if d.is_empty() { return None; }
    let mut v: i128 = 0;
    for c in d.chars() { if !c.is_ascii_digit() { return None; } v = v * 10 + (c as u8 - b'0') as i128; if v > 1 << 40 { return None; } }
    if neg { v = -v; }
    if v >= i32::MIN as i128 && v <= i32::MAX as i128 { Some(v as i32) } else { None }
}

fn fun(name: &str, pos: &[Arg], named: &[(String, Arg)]) -> Result<Fun, &'static str> {
    let assert = |c: bool| if c { Ok(()) } else { Err("AssertionError") };
    let var = |a: &Arg| if let Arg::Var(v) = a { Ok(v.clone()) } else { Err("InvalidArgument") };
    let string = |a: &Arg| if let Arg::Str(v) = a { Ok(v.clone()) } else { Err("InvalidArgument") };
    let n = |k: usize| assert(pos.len() == k && named.is_empty());
    match name {
        "begin" | "end" => {
            n(1)?;
            let (label, custom) = match &pos[0] { Arg::Str(s) => (s.clone(), true), Arg::Ident(s) => (s.clone(), false), _ => return Err("InvalidArgument") };
            Ok(if name == "begin" { Fun::Begin { label, custom } } else { Fun::End { label, custom } })
        }
        "else" => { n(0)?; Ok(Fun::Else) }
        "ifdefined" => { n(1)?; Ok(Fun::IfDefined(var(&pos[0])?)) }
        "timetoread" => { n(1)?; Ok(Fun::TimeToRead(var(&pos[0])?)) }
        "insert" => { n(1)?; Ok(Fun::Insert(string(&pos[0])?)) }
        "import" => { n(2)?; Ok(Fun::Import { var: var(&pos[0])?, file: string(&pos[1])? }) }
        "dateformat" => { n(2)?; Ok(Fun::DateFormat { var: var(&pos[0])?, format: string(&pos[1])? }) }
        "excerpt" => {
            n(2)?;
            let v = var(&pos[0])?;
            match pos[1] { Arg::Int(i) if i >= 0 => Ok(Fun::Excerpt { var: v, len: i as usize }), _ => Err("InvalidArgument") }
        }
        "for" => {
            assert(pos.len() == 2)?;
            let v = var(&pos[0])?;
            let (source, kind) = match &pos[1] {
                Arg::Str(s) => if s.ends_with(".json") { (s.clone(), 'j') } else if s.ends_with('/') { (s.clone(), 'd') } else { return Err("InvalidArgument") },
                Arg::Var(s) => (s.clone(), 'v'),
                _ => return Err("InvalidArgument"),
            };
            let (mut skip, mut limit, mut sort, mut desc) = (None, None, None, false);
            for (k, a) in named {
                match k.as_str() {
                    "skip" | "limit" => {
                        let i = if let Arg::Int(i) = a { *i } else { return Err("AssertionError") };
                        let slot = if k == "skip" { &mut skip } else { &mut limit };
                        assert(slot.is_none())?;
                        if i < 0 { return Err("InvalidArgument"); }
                        *slot = Some(i as usize);
                    }
                    "sortby" => {
                        let s = if let Arg::Var(s) = a { s } else { return Err("AssertionError") };
                        assert(sort.is_none())?;
                        sort = Some(s.clone());
                    }
                    "order" => match a { Arg::Str(s) if s == "asc" => desc = false, Arg::Str(s) if s == "desc" => desc = true, _ => return Err("InvalidArgument") },
                    _ => return Err("InvalidArgument"),
                }
            }
            Ok(Fun::For { var: v, source, kind, skip, limit, sort, desc })
        }
        _ => {
            n(2)?;
            for a in [&pos[1], &pos[0]] { if let Arg::Ident(_) = a { return Err("InvalidArgument"); } }
            let op = BUILTINS.iter().find(|b| **b == name).unwrap();
            Ok(Fun::Cmp { op, a: pos[0].clone(), b: pos[1].clone() })
        }
    }
}

fn call(l: &mut L, plugs: &Plugs) -> Result<Tok, Er> {
    let at = l.er("NonexistentFunction");
    let name = l.name(":");
    if name.is_empty() { return Err(l.er("InvalidFunctionName")); }
    l.ws();
    l.expect("(")?;
    let (mut pos, mut named): (Vec<Arg>, Vec<(String, Arg)>) = (vec![], vec![]);
    loop {
        l.ws();
        let mut q = false;
        let mut text = String::new();
        while let Some(c) = l.peek() {
            if c == '"' { q = !q; }
            if !q && (c == ')' || c == ',') { break; }
            text.push(c);
            l.i += 1;
        }
        let text = text.trim();
        if !text.is_empty() {
            if !text.starts_with('"') && text.contains('=') {
                let k = text.find('=').unwrap();
                let (n, v) = (&text[..k], &text[k + 1..]);
                if n.is_empty() || v.is_empty() || !n.chars().all(|c| c.is_alphanumeric() || c == '_') { return Err(l.er("GenericSyntaxError")); }
                named.push((n.to_string(), arg(v).map_err(|e| l.er(e))?));
            } else {
                if !named.is_empty() { return Err(l.er("PositionalArgAfterNamedArg")); }
                pos.push(arg(text).map_err(|e| l.er(e))?);
            }
        }
        match l.peek() {
            None => return Err(l.er("UnexpectedEOF")),
            Some(c) => { l.i += 1; if c == ')' { break; } }
        }
    }
    l.ws();
    if BUILTINS.contains(&name.as_str()) {
        let f = fun(&name, &pos, &named).map_err(|e| l.er(e))?;
        return Ok(Tok::Fun(name, f));
    }
    for (pn, fs) in plugs {
        for (fname, id) in fs {
            if &name == fname || name == format!("{}::{}", pn, fname) {
                if pos.iter().any(|a| *a == Arg::Str("reject".into())) { return Err(l.er("GenericSyntaxError")); }
                let args = pos.iter().map(|a| format!("{:?}", a)).chain(named.iter().map(|(k, a)| format!("{}={:?}", k, a))).collect();
                return Ok(Tok::Fun(fname.clone(), Fun::Plugin { id: id.clone(), args }));
            }
        }
    }
    Err(at)
}

pub fn lex(text: &str, path: &str, plugs: &Plugs) -> Result<Vec<LTok>, Er> {
    let mut l = L { cs: text.chars().collect(), i: 0, path };
    let mut out = Vec::new();
    let mut at = l.loc();
    while let Some(raw) = l.open() {
        if !raw.is_empty() { out.push(LTok { tok: Tok::Raw(raw), path: path.into(), line: at.line, col: at.col }); }
        l.ws();
        at = l.loc();
        let tok = match l.peek() {
            None => return Err(l.er("UnexpectedEOF")),
            Some('$') => {
                l.i += 1;
                let n = l.name(".");
                if n.is_empty() { return Err(l.er("InvalidVariableName")); }
                Tok::Var(n)
            }
            Some(_) => call(&mut l, plugs)?,
        };
        out.push(LTok { tok, path: path.into(), line: at.line, col: at.col });
        l.ws();
        l.expect("}}")?;
        at = l.loc();
    }
    let rest: String = l.cs[l.i..].iter().collect();
    let rest = rest.replace("\\{{", "{{");
    if !rest.is_empty() { out.push(LTok { tok: Tok::Raw(rest), path: path.into(), line: at.line, col: at.col }); }
    Ok(out)
}
