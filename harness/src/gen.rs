//! Generators of cases, one recipe per property.
use crate::cases::{Case, Look};
use crate::render::Conf;
use crate::rng::Rng;

pub fn look(prop: &str) -> Look {
    let l = Look::default();
    match prop {
        "C01" => Look { raw: true, ..l },
        "C02" => Look { errs: true, ..l },
        "C03" => Look { loc: true, errs: true, ..l },
        "C04" => Look { errs: true, log: true, names: true, bytes: true, ..l },
        "C27" => Look { errs: true, names: true, log: true, bytes: true, ..l },
        "C18" => Look { shape: true, ..l },
        "C19" => Look { merge: true, ..l },
        "C20" => Look { save: true, ..l },
        "C21" => Look { meta: true, ..l },
        "C28" => Look { html: true, bytes: true, errs: true, ..l },
        _ => Look { bytes: true, errs: true, ..l },
    }
}

pub fn gen(prop: &str, r: &mut Rng, n: usize) -> Option<Case> {
    let big = 1 + n.min(40000) / 400; // cases grow
    Some(match prop {
        "C01" => Case::Lex { text: text(r, 2 + big.min(12), 12), plugs: r.one(2) },
        "C02" => Case::Lex { text: { let k = 1 + r.below(1 + big.min(12)); let t = text(r, k, 3); damage(r, t) }, plugs: r.one(2) },
        "C03" => if r.one(6) { project(r, prop) } else { Case::Lex { text: { let t = text(r, 1 + big.min(10), 6); if r.one(3) { damage(r, t) } else { t } }, plugs: r.one(2) } },
        "C04" => match r.below(6) { 0 => Case::Arg { text: arg(r) }, 1 => Case::Arg { text: { let a = arg(r); damage(r, a) } }, 2 => project(r, prop), _ => Case::Lex { text: calls(r), plugs: true } },
        "C27" => if r.one(3) { project(r, prop) } else { Case::Lex { text: named_calls(r), plugs: !r.one(5) } },
        "C13" => if r.one(4) { project(r, prop) } else { paths(r) },
        "C19" => if r.one(3) { project(r, prop) } else { Case::Merge { a: plain_tree(r), b: plain_tree(r) } },
        "C22" => if r.one(8) { project(r, prop) } else { Case::Markdown { text: mdfile(r) } },
        "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C14" | "C15" | "C16" | "C17" | "C18" | "C20" | "C21" | "C28" => project(r, prop),
        _ => return None,
    })
}

// ------------------------------------------------------------------ template text

fn raw(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.size(7) {
        s += &*match r.below(16) {
            0 => "{".to_string(), 1 => "\\".into(), 2 => "\\{{".into(), 3 => "\n".into(), 4 => "\r\n".into(), 5 => "}}".into(), 6 => "é".into(), 7 => "日本".into(),
            8 => "$x".into(), 9 => " ".into(), 10 => "\\\\".into(), 11 => "\"".into(), 12 => "\t\u{2003}\u{0}".into(), 13 => "\\{".into(), _ => r.s(&["a", "bc", "<p>", "x = 1", "(", ")", ",", "𝕏"]),
        };
    }
    s
}
fn ws(r: &mut Rng) -> String { r.s(&["", "", " ", "  ", "\n", " \r\n ", "\t", "\u{a0}"]) }
fn arg(r: &mut Rng) -> String {
    match r.below(14) {
        0 | 1 => format!("${}", r.s(&["a", "a.b", "x_1", "a.0", "", "é", ".", "a-b", "self.title"])),
        2 | 3 | 4 => format!("\"{}\"", r.s(&["", "a", "a,b", "f(x)", "k=v", " sp ", "é{{ x }}", "a\nb", "reject", "}}", "\\", "$v", "12", "'", ")", "x.json", "posts/"])),
        5 | 6 => r.s(&["0", "7", "-3", "+4", "2147483647", "2147483648", "-2147483648", "-2147483649", "007", "1_000", "", "9999999999999999999999", "-", "+", "1.0", "0x1", "١"]),
        7 | 8 => r.s(&["begin", "if", "ifeq", "for", "end", "ifdefined", "insert", "timetoread", "dateformat", "excerpt", "import", "else", "iflt", "Begin", "ifgte", "probe", "fo"]),
        9 => r.s(&["\"", "\"\"\"", "\"a\"b\"", "a\"", "\"a", "a b", "=", "k=", "=v"]),
        _ => { let k = r.s(&["k", "skip", "limit", "sortby", "order", "k k", "é", "a.b", "\"q\"", "", " k "]); let v = if r.one(3) { r.s(&["", "a=b", "\"a=b\"", "1=2", " 3"]) } else { let mut v = arg(r); if v.contains('=') { v = "1".into(); } v }; format!("{}={}", k, v) }
    }
}
fn good_call(r: &mut Rng) -> String {
    match r.below(14) {
        0 => r.s(&["begin(\"s\")", "begin(for)", "begin( \"a b\" )", "begin(\"x,y\")"]),
        1 => r.s(&["end(\"s\")", "end(for)", "end(ifeq)", "end(begin)"]),
        2 => "else()".into(),
        3 => r.s(&["ifdefined($a)", "ifdefined( $a.b )"]),
        4 | 5 => { let op = r.s(&["ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"]); format!("{}({},{}{})", op, r.s(&["1", "$a", "\"x\"", "\",\""]), ws(r), r.s(&["-2", "$b.c", "\"y)\"", "\"\""])) }
        6 => format!("for($p, {}{})", r.s(&["\"posts/\"", "\"d.json\"", "$d.xs", "\"/\""]), r.s(&["", ", skip=1", ", limit=2", ", sortby=$p.k", ", order=\"desc\"", ", limit=3, skip=0 ,order=\"asc\""])),
        7 => "import($d, \"d.json\")".into(),
        8 => "insert(\"s\")".into(),
        9 => "excerpt($s, 10)".into(),
        10 => "timetoread($s)".into(),
        11 => "dateformat($d, \"%Y,%m\")".into(),
        12 => "probe(1, \"a\", $b, k=2)".into(),
        _ => "alpha::dup()".into(),
    }
}
fn tag(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 | 2 => format!("{{{{{}${}{}}}}}", ws(r), r.s(&["a", "a.b.c", "x_1", "é", "0", "..", "self.title"]), ws(r)),
        3 => { let f = r.s(&["probe", "begin", "for", "ifeq", "nothing", "a-b", "insert"]); let k = r.below(4); let a: Vec<String> = (0..k).map(|_| arg(r)).collect(); format!("{{{{{}{}{}({}){}}}}}", ws(r), f, ws(r), a.join(","), ws(r)) }
        _ => format!("{{{{{}{}{}}}}}", ws(r), good_call(r), ws(r)),
    }
}
fn text(r: &mut Rng, parts: usize, raws: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.below(parts + 1) {
        if r.below(raws + 6) < raws { s += &raw(r); } else { s += &(if raws > 8 { format!("{{{{{}{}{}}}}}", ws(r), if r.one(2) { "$v".to_string() } else { good_call(r) }, ws(r)) } else { tag(r) }); }
    }
    s
}
fn damage(r: &mut Rng, t: String) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(cs.len() + 1);
        match r.below(4) {
            0 => cs.truncate(i),
            1 => if i < cs.len() { cs.remove(i); },
            2 => if i < cs.len() { let c = cs[i]; cs.insert(i, c); },
            _ => cs.insert(i, *r.pick(&['{', '}', '"', '(', ')', ',', '=', '$', '\\', ' ', '\n', 'é', '.', '1'])),
        }
    }
    cs.into_iter().collect()
}
fn calls(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        let f = if r.one(3) { r.s(&["begin", "end", "else", "for", "import", "insert", "excerpt", "timetoread", "dateformat", "ifdefined", "ifeq", "ifle"]) } else { "probe".into() };
        let k = r.below(5);
        let a: Vec<String> = (0..k).map(|_| format!("{}{}{}", ws(r), arg(r), ws(r))).collect();
        s += &format!("{{{{ {}({}{}) }}}}", f, a.join(","), if r.one(8) { "," } else { "" });
    }
    s
}
fn named_calls(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(2) {
        let f = r.s(&["probe", "dup", "alpha::dup", "beta::dup", "beta::x", "beta::beta::x", "x", "Probe", "probe2", "prob", "alpha", "alpha::alpha", "late", "alpha::late", "gamma::dup", "::dup", "dup::", "else", "for", "alpha::else", "alpha::for", "beta::for", "alpha::alpha::dup",
            "begin", "end", "ifdefined", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle", "import", "insert", "excerpt", "timetoread", "dateformat", "IF", "Begin"]);
        let a = match f.as_str() {
            "begin" | "end" | "insert" => "\"s\"".to_string(), "else" => "".into(), "for" => "$a, $b".into(), "ifdefined" | "timetoread" => "$a".into(),
            "import" | "dateformat" => "$a, \"b.json\"".into(), "excerpt" => "$a, 3".into(), "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle" => "1, 2".into(),
            _ => r.s(&["", "1", "\"a\"", "$x, 2"]),
        };
        s += &format!("{{{{ {}({}) }}}}", f, if r.one(10) { r.s(&["", "1, 2, 3", "\"a\""]) } else { a });
    }
    s
}

// ------------------------------------------------------------------ files

fn b(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
fn bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(8) { 0 => vec![], 1 => vec![0, 159, 146, 150, 255], 2 => b("{{ not a tag"), 3 => b("\r\n\r\n"), 4 => (0..r.size(3000)).map(|i| (i * 7) as u8).collect(), _ => format!("data {}", r.below(1000)).into_bytes() }
}
fn plain_tree(r: &mut Rng) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..r.size(6) {
        let p = r.plain(&["a", "b.txt", "reindex.html", "x/index.html", "xroot.html", "d/amd.html", "d/a.html.bak", "d/x.json.html", "ab", "d/ab", "dd/x", "index.html", "d/x", "d/y.html", "d/e/z", "e/", "d/e/", "A", "css/s.css", "css/t.css", "css/i/j/k.png", "root.html", "d/root.html", "q.json", "a/b", "d"]);
        // a file cannot lie below another file
        if v.iter().any(|(q, _)| { let (q, p) = (q.trim_end_matches('/'), p.trim_end_matches('/')); q == p || q.starts_with(&format!("{}/", p)) || p.starts_with(&format!("{}/", q)) && v.iter().any(|(z, _)| z == q) }) { continue; }
        v.push((p, bytes(r)));
    }
    v
}
fn paths(r: &mut Rng) -> Case {
    let files: Vec<(String, Vec<u8>)> = ["a.json", "posts/one.md", "posts/two.md", "posts/deep/x.json", "posts/deep/posts/y.json", ".hidden", "e/", "sp ace/f.txt", "é/ü.txt", "a b", "posts/a.json"].iter().filter(|_| !r.one(5)).map(|p| (p.to_string(), b("x"))).collect();
    let part = ["a.json", "posts", "deep", "x.json", "one.md", ".", "..", "", "posts/deep", "e", "é", "ü.txt", ".hidden", "sp ace", "A.json", "nope", "content", "...", " posts", "*", "~"];
    let mut ps = vec![];
    for _ in 0..12 {
        let k = 1 + r.below(5);
        let mut p: Vec<String> = (0..k).map(|_| r.s(&part)).collect();
        if r.one(3) { p = r.s(&["posts/deep/x.json", "posts/one.md", "posts/deep/posts/y.json", "a.json", "posts/", "é/ü.txt", "posts/deep"]).split('/').map(|s| s.to_string()).collect(); if r.one(2) { let i = r.below(p.len() + 1); p.insert(i, r.s(&part)); } }
        let mut s = p.join("/");
        if r.one(8) { s = format!("/{}", s); }
        if r.one(8) { s += "/"; }
        ps.push(s);
    }
    Case::Paths { files, paths: ps }
}
/// a few characters that matter in front matter
fn soup(r: &mut Rng) -> String { let mut s = String::new(); for _ in 0..r.size(6) { s += &r.s(&["\"", "\"", " ", ":", "-", "---", "a", "é", "'", "\\", "\t", "\u{a0}", "#", "{{", "}}", "k"]); } s }
fn mdfile(r: &mut Rng) -> String {
    let nl = if r.one(4) { "\r\n" } else { "\n" };
    let mut s = String::new();
    match r.below(8) { 0 => (), 1 => s += "--- \n", 2 => s += "----\n", 3 => s += " ---\n", 4 => s += "---", _ => { s += "---"; s += nl; } }
    for _ in 0..r.size(4) {
        s += &*match r.below(18) {
            14 | 15 => format!("{}:{}", soup(r), soup(r)), 16 => format!("k: \"{}\"", soup(r)), 17 => format!("{}k{}:{}\"v\"{}", soup(r), ws(r), ws(r), ws(r)), 0 => "no colon".to_string(), 1 => "k: unquoted".into(), 2 => "k: \"half".into(), 3 => "k: \"".into(), 4 => "".into(), 5 => "k: \"a\" ".into(), 6 => "  k  :\"b\"".into(),
            7 => "k: \"a: b\"".into(), 8 => "k: \"a \"q\" b\"".into(), 9 => "é: \"ü\"".into(), 10 => "k: \" sp \"".into(), 11 => "content: \"mine\"".into(), 12 => "markdown: \"m\"".into(), _ => "title: \"T\"".into(),
        };
        s += if r.one(10) { "\n" } else { nl };
    }
    match r.below(8) { 0 => (), 1 => s += " ---\n", 2 => { s += "---- x"; s += nl; } 3 => s += "---", _ => { s += "---"; s += nl; } }
    for _ in 0..r.below(5) {
        s += &r.s(&["# Head", "text", "", "---", "k: \"v\"", "{{ $a }}", "\\{{ x", "  ind", "a\rb", "é", "{{ begin(", "\u{2028}x", "end "]);
        s += if r.one(6) { "\r\n" } else { "\n" };
    }
    if r.one(3) { s += &r.s(&["last", "last\r", "\r", "\n\n", " "]); }
    s
}

// ------------------------------------------------------------------ projects

const DATA: &str = r#"{"s":"str","t":"a<b>c</b>d","empty":"","i":3,"j":-7,"f":2.5,"big":3000000000,"yes":true,"n":null,"num":"3","xs":["c","a","b","a"],"os":[{"k":"b","v":"1"},{"k":"a","v":"2"},{"k":"c","v":"3"},{"v":"4"},{"k":"a","v":"5"},{"k":7,"v":"6"}],"nest":[["x","y"],[],["z"]],"o":{"k":"ok","0":"zero","deep":{"x":"dx","l":["p","q"]}},"e":[],"one":["only"],"many":["m0","m1","m2","m3","m4","m5","m6","m7","m8","m9","m10","m11","m12"],"mos":[{"k":"b","v":"0"},{"k":"A","v":"1"},{"k":"a","v":"2"},{"k":"é","v":"3"},{"k":"é","v":"4"},{"k":"b","v":"5"},{"k":"a","v":"6"},{"k":"a","v":"7"},{"k":"a","v":"8"},{"k":"é","v":"9"},{"k":"A","v":"10"},{"k":"a","v":"11"},{"k":"b","v":"12"},{"k":"A","v":"13"},{"k":"A","v":"14"},{"k":"b","v":"15"},{"k":"a","v":"16"},{"k":"A","v":"17"},{"k":"b","v":"18"},{"k":"a","v":"19"},{"k":"A","v":"20"},{"k":"A","v":"21"},{"k":"b","v":"22"},{"k":"b","v":"23"},{"k":"b","v":"24"},{"k":"a","v":"25"},{"k":"a","v":"26"},{"k":"b","v":"27"},{"k":"A","v":"28"},{"k":"a","v":"29"},{"k":"é","v":"30"},{"k":"a","v":"31"},{"k":"a","v":"32"},{"k":"a","v":"33"},{"k":"a","v":"34"},{"k":"é","v":"35"},{"k":"A","v":"36"},{"k":"a","v":"37"},{"k":"b","v":"38"},{"k":"b","v":"39"},{"k":"é","v":"40"},{"k":"a","v":"41"},{"k":"a","v":"42"},{"k":"é","v":"43"},{"k":"é","v":"44"},{"k":"b","v":"45"},{"k":"b","v":"46"},{"k":"b","v":"47"},{"k":"a","v":"48"},{"k":"é","v":"49"},{"k":"a","v":"50"},{"k":"a","v":"51"},{"k":"b","v":"52"},{"k":"a","v":"53"},{"k":"a","v":"54"},{"k":"A","v":"55"},{"k":"a","v":"56"},{"k":"A","v":"57"},{"k":"é","v":"58"},{"k":"a","v":"59"},{"k":"é","v":"60"},{"k":"é","v":"61"},{"k":"é","v":"62"},{"k":"a","v":"63"},{"k":"é","v":"64"},{"k":"b","v":"65"},{"k":"A","v":"66"},{"k":"a","v":"67"},{"k":"a","v":"68"},{"k":"b","v":"69"},{"k":"é","v":"70"},{"k":"b","v":"71"}],"html":"<p>one &amp; two</p>","uni":"héllo <b>wörld</b> 日本"}"#;
const ROOT: &str = "<html>{{ insert(\"title\") }}|{{ insert(\"body\") }}</html>\n";
const MD: &str = "{{ begin(\"title\") }}{{ $self.title }}{{ end(\"title\") }}ignored{{ begin(\"body\") }}<{{ $self.content }}>{{ end(\"body\") }}";

struct G { vars: Vec<String>, prop: String, md: bool, next: usize }
impl G {
    fn has(&self, ps: &[&str]) -> bool { ps.contains(&&*self.prop) }
    /// a new name; now and then one that differs from the last only in case or by one more letter
    fn fresh(&mut self, r: &mut Rng, p: &str) -> String {
        if self.next > 0 && r.one(8) { return match r.below(5) { 0 => format!("{}{}", p.to_uppercase(), self.next), 1 => format!("{}{}x", p, self.next), 2 => format!("{}{}_", p, self.next), 3 => format!("{}é{}", p, self.next), _ => format!("{}{}{}", p, p, self.next) }; }
        self.next += 1; format!("{}{}", p, self.next)
    }
}
fn string_var(r: &mut Rng, g: &G) -> String {
    if !g.vars.is_empty() && r.one(3) { return r.pick(&g.vars).clone(); }
    r.s(&["d.s", "d.t", "d.o.k", "d.xs.1", "d.os.0.v", "d.o.deep.x", "env.STUART_ENV", "d.nest.0.1", "d.o.0", "d.uni", "d.num", "d.empty", "d.o.deep.l.1", "d.xs.01"])
}
fn any_var(r: &mut Rng, g: &G) -> String {
    match r.below(if g.has(&["C05"]) { 14 } else { 24 }) { 0 => r.s(&["d", "d.i", "d.f", "d.yes", "d.n", "d.xs", "d.o", "d.os.9", "d.s.x", "d.o.nope", "d.xs.9", "d.xs.a", "d.os.0", "d.big", "d.e.0", "d.i.0", "d.", ".d", "d..s"]), 1 => r.s(&["nope", "nope.x", "D", "self", "self.title", "env", "p", "d1", "i"]), _ => string_var(r, g) }
}
fn list_var(r: &mut Rng, g: &G) -> String { if !g.vars.is_empty() && r.one(25) { r.pick(&g.vars).clone() } else { r.s(&["d.xs", "d.os", "d.nest", "d.e", "d.one", "d.o.deep.l", "d.nest.0", "d.nest.1", "d.os", "d.xs", "d.many", "d.mos", "d.mos"]) } }
fn operand(r: &mut Rng, g: &G) -> String {
    match r.below(9) { 0 | 1 | 2 => r.s(&["0", "1", "3", "-7", "2", "4", "-2147483648", "2147483647"]), 3 | 4 => r.s(&["\"str\"", "\"3\"", "\"\"", "\"a\"", "\"b\"", "\"1\""]), 5 => if r.one(4) { r.s(&["$d.yes", "$d.n", "$nope", "$d.xs", "$d.o"]) } else { r.s(&["$d.f", "$d.big"]) }, 6 => r.s(&["$d.i", "$d.j", "$d.num", "$d.s", "$d.i"]), _ => format!("${}", string_var(r, g)) }
}
fn body(r: &mut Rng, g: &mut G, depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) { s += &item(r, g, depth); }
    s
}
fn lit(r: &mut Rng) -> String { r.s(&["a", "b ", "\n", "<i>", "é", "1", "{ ", "\\{{ ", "zz", "}}"]) }
fn item(r: &mut Rng, g: &mut G, depth: usize) -> String {
    let w = |g: &G, p: &[&str], hi: usize, lo: usize| if g.has(p) { hi } else { lo };
    let deep = depth == 0;
    if g.has(&["C16", "C17", "C18", "C19", "C20", "C21", "C28"]) {
        return match r.below(if deep { 4 } else { 7 }) {
            0 | 1 => lit(r), 2 => "{{ $env.STUART_ENV }}".into(), 3 => if r.one(10) { r.s(&["{{ $nope }}", "{{ $self.title }}", "{{ insert(\"nope\") }}"]) } else { lit(r) },
            4 => { let l = r.s(&["s", "body", "k"]); format!("{{{{ begin(\"{0}\") }}}}{1}{{{{ end(\"{0}\") }}}}", l, body(r, g, depth - 1)) }
            5 => format!("{{{{ for($p, \"a/\") }}}}{}{{{{ end(for) }}}}", lit(r)),
            _ => format!("{{{{ ifdefined($self) }}}}{}{{{{ else() }}}}{}{{{{ end(ifdefined) }}}}", lit(r), body(r, g, depth - 1)),
        };
    }
    let weights = [
        8, // 0 text
        w(g, &["C05", "C03"], 14, 3), // 1 variable, any
        w(g, &["C05", "C09", "C16"], 8, 4), // 2 variable, a string
        if deep { 0 } else { w(g, &["C08", "C07"], 14, if g.has(&["C06"]) { 6 } else { 1 }) }, // 3 comparison
        if deep { 0 } else { w(g, &["C07"], 10, if g.has(&["C05", "C06"]) { 4 } else { 1 }) }, // 4 ifdefined
        if deep { 0 } else { w(g, &["C09", "C10"], 16, if g.has(&["C05", "C06", "C07"]) { 5 } else { 1 }) }, // 5 for
        if deep { 0 } else { w(g, &["C11"], 14, if g.has(&["C06", "C07", "C09", "C16"]) { 4 } else { 1 }) }, // 6 section
        w(g, &["C11"], 10, if g.has(&["C06", "C16"]) { 2 } else { 0 }), // 7 insert
        w(g, &["C12", "C13"], 14, if g.has(&["C05"]) { 2 } else { 0 }), // 8 import
        w(g, &["C14"], 20, 0), // 9 excerpt
        w(g, &["C15"], 20, 0), // 10 timetoread
        w(g, &["C06"], 6, if g.has(&["C03"]) { 2 } else { 0 }), // 11 stray
        w(g, &["C03", "C04"], 2, 0), // 12 dateformat
        w(g, &["C27", "C04"], 14, 0), // 13 plugin
    ];
    let total: usize = weights.iter().sum();
    let mut k = r.below(total);
    let mut which = 0;
    while k >= weights[which] { k -= weights[which]; which += 1; }
    match which {
        0 => lit(r),
        1 => format!("{{{{ ${} }}}}", any_var(r, g)),
        2 => format!("{{{{ ${} }}}}", string_var(r, g)),
        3 | 4 => {
            let (op, open) = if which == 3 { let op = r.s(&["ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"]); let o = format!("{}({}, {})", op, operand(r, g), operand(r, g)); (op, o) } else { ("ifdefined".to_string(), format!("ifdefined(${})", any_var(r, g))) };
            let mut s = format!("{{{{ {} }}}}{}", open, body(r, g, depth - 1));
            if !r.one(3) { s += &format!("{{{{ else() }}}}{}", body(r, g, depth - 1)); }
            s + &end(r, g, &op, &op)
        }
        5 => {
            let v = if r.one(if g.has(&["C05"]) { 4 } else { 12 }) { r.s(&["p", "d", "x"]) } else { g.fresh(r, "v") };
            let from = if g.has(&["C10", "C13"]) && r.one(4) { r.s(&["\"posts/\"", "\"posts\"", "\"none/\"", "\"d.json\"", "\"xs.json\"", "\"posts/xs.json\"", "\"none.json\"", "\"posts/deep/\"", "\"/\"", "\"./posts/\"", "\"../posts/\"", "\"page.html\"", "\"posts/one.md/\"", "\"o.json\"", "$d.s", "$d.o", "$nope", "$d.n", "\"/posts/\"", "\"posts//deep/\"", "\"xs.json/\"", "\"posts/../posts/\"", "\"folder.json\"", "\"null.json\""]) } else if r.one(4) { r.s(&["\"posts/\"", "\"xs.json\"", "\"os.json\"", "\"posts/deep/\""]) } else { format!("${}", list_var(r, g)) };
            let mut opts = String::new();
            if r.one(3) { opts += &format!(", skip={}", r.s(&["0", "1", "2", "3", "5", "6", "9", "12", "100"])); }
            if r.one(3) { opts += &format!(", limit={}", r.s(&["0", "1", "2", "3", "4", "7", "10", "100"])); }
            if from.contains("mos") && r.one(2) { opts += ", sortby=$p.k"; } else if r.one(3) { opts += &format!(", sortby=${}", r.s(&["p.k", "p", "x.title", "v.v", "p.k.z", "q.nope", "p.date"])); }
            if r.one(3) { opts += &format!(", order=\"{}\"", r.s(&["asc", "desc", "desc"])); }
            if g.has(&["C10", "C04"]) && r.one(12) { opts += &r.s(&[", skip=\"a\"", ", skip=-1", ", limit=$d", ", sortby=\"k\"", ", order=\"up\"", ", foo=1", ", skip=1, skip=2", ", limit=1, limit=1", ", order=\"asc\", order=\"desc\"", ", sortby=$p, sortby=$q"]); }
            let full: &[&str] = if r.one(12) { &["", ".k", ".v", ".title", ".markdown", ".content", ".0"] } else if from.contains("xs") || from.contains("many") || from.contains("one") || from.contains(".l") || from.contains("nest.") { &[""] }
                else if from.contains("os") && !from.contains("posts") { &[".v", ".k"] } else if from.contains("deep") { &[".markdown"] } else if from.contains("posts") { &[".title", ".markdown", ".content"] } else { &[] };
            let old = g.vars.len();
            if v == "d" || v == "x" { g.vars.clear(); }
            for f in full { g.vars.push(format!("{}{}", v, f)); }
            let mut bd = body(r, g, depth - 1);
            if r.one(2) { bd += &format!("{{{{ ifdefined(${0}.v) }}}}{{{{ ${0}.v }}}}{{{{ end(ifdefined) }}}}{{{{ ifdefined(${0}.markdown) }}}}{{{{ ${0}.markdown }}}}{{{{ end(ifdefined) }}}};", v); }
            g.vars.truncate(old);
            format!("{{{{ for(${}, {}{}) }}}}{}{}", v, from, opts, bd, end(r, g, "for", "for"))
        }
        6 => { let l = r.s(&["s", "t", "body", "for", "a b", "", "s2", "x:y"]); let b = body(r, g, depth - 1); format!("{{{{ begin(\"{}\") }}}}{}{}", l, b, end(r, g, &format!("\"{}\"", l), "begin")) }
        7 => { let l = r.s(&["s", "t", "title", "body", "for", "a b", "", "s2", "nope"]); if r.one(4) { format!("{{{{ insert(\"{}\") }}}}", l) } else { format!("{{{{ begin(\"{0}\") }}}}{1}{{{{ end(\"{0}\") }}}}{{{{ insert(\"{0}\") }}}}", l, lit(r)) } }
        8 => {
            let v = r.s(&["m", "m2", "d", "p", "env"]);
            let v = if r.one(3) { v } else { g.fresh(r, "m") };
            let f = if !r.one(5) { r.s(&["xs.json", "os.json", "posts/xs.json", "o.json", "./xs.json", "s.json", "n.json"]) } else { r.s(&["xs.json", "os.json", "posts/xs.json", "o.json", "s.json", "n.json", "none.json", "posts", "page.html", "posts/", "../content/xs.json", "/xs.json", "./xs.json", "posts/../xs.json", "xs.json/", "", ".", "posts/deep/../../xs.json", "posts/one.md", "note.txt", "content/xs.json"]) };
            let u = match v.as_str() { v if v.starts_with('m') && r.one(4) => format!("{{{{ ifdefined(${0}.k) }}}}{{{{ ${0}.k }}}}{{{{ end(ifdefined) }}}}{{{{ for($y, ${0}, limit=2) }}}}y{{{{ end(for) }}}}", v), _ => String::new() };
            if r.one(2) { format!("{{{{ import(${}, \"{}\") }}}}", v, f) } else { format!("{{{{ import(${}, \"{}\") }}}}{}", v, f, u) }
        }
        9 => format!("[{{{{ excerpt(${}, {}) }}}}]", if r.one(30) { any_var(r, g) } else { r.s(&["x.0", "x.1", "x.2", "x.3", "d.t", "d.html", "d.uni", "d.empty"]) }, r.size(40)),
        10 => format!("[{{{{ timetoread(${}) }}}}]", if r.one(30) { any_var(r, g) } else { r.s(&["x.0", "x.1", "x.2", "x.3", "d.t", "d.empty"]) }),
        11 => r.s(&["{{ end(for) }}", "{{ end(\"s\") }}", "{{ end(ifeq) }}", "{{ else() }}", "{{ begin(\"s\") }}", "{{ ifeq(1, 1) }}", "{{ ifeq(1, 2) }}", "{{ for($z, $d.xs) }}", "{{ end(begin) }}", "{{ end(if) }}", "{{ end(\"\") }}", "{{ begin(for) }}", "{{ end(ifdefined) }}", "{{ ifdefined($d) }}", "{{ for($z, $d.e) }}", "{{ end(\"title\") }}", "{{ end(\"body\") }}"]),
        12 => format!("{{{{ dateformat(${}, \"{}\") }}}}", r.s(&["d.s", "x.4", "x.4", "nope", "d.i"]), r.s(&["%Y-%m-%d", "%B,%d", ""])),
        _ => format!("{{{{ {}({}) }}}}", r.s(&["probe", "dup", "alpha::dup", "beta::dup", "late", "alpha::late", "beta::for"]), r.s(&["", "1", "\"a,b\"", "$d.s, k=\"(v)\"", "\"fail\"", "\"x=y\", -5"])),
    }
}
fn end(r: &mut Rng, g: &G, what: &str, kind: &str) -> String {
    let p = if g.has(&["C06"]) { 10 } else { 60 };
    if r.one(p) { return r.s(&["", "{{ end(for) }}", "{{ end(\"s\") }}", "{{ end(ifeq) }}", "{{ end(begin) }}", "{{ end(ifne) }}", "{{ end(ifdefined) }}", "{{ else() }}", "{{ end(if) }}"]); }
    if kind == "begin" && g.has(&["C06"]) && r.one(8) { return "{{ end(begin) }}".into(); }
    format!("{{{{ end({}) }}}}", what)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn prose(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.size(25) { s += &r.s(&["<", ">", "<b>", "</b>", "a", "bc", " ", "é", "日", "<img alt='x>y'>", "&lt;", "word ", "𝕏", "...", "\n", "<<", ">>"]); }
    s
}
fn words(r: &mut Rng) -> String {
    let extra = r.size(1500);
    let pool: &[&str] = match r.below(6) { 0 => &["-", "w", "1", "—", ".", "&"], 1 => &["<b>", "</b>", "&amp;", "w"], 2 => &["1", "22", "3.5"], 3 => &["longer-word", "W", "e\u{301}"], _ => &["w", "word", "é", "a-b", "<p>", "\u{200b}"] };
    let n = *r.pick(&[extra, 0usize, 1, 2, 5, 199, 200, 201, 399, 400, 401, 599, 600, 799, 1000, 1200, 100, 300, 2000]) + r.below(2);
    let mut s = String::new();
    for i in 0..n { if i > 0 || r.one(4) { s += &r.s(&[" ", "  ", "\n", "\t", "\u{a0}", "\u{2003}", "\r\n"]); } s += &r.s(pool); }
    if r.one(3) { s += " \n"; }
    s
}
fn md_body(r: &mut Rng, g: &mut G) -> String {
    let mut s = String::new();
    for _ in 0..r.below(4) { s += &r.s(&["# Head\n\n", "para *em*\n\n", "- item\n- two\n", "<div>\n", "é\n", "| a | b |\n|---|---|\n| 1 | 2 |\n\n", "- [ ] task\n", "foot[^1]\n\n[^1]: note\n", "~~s~~ \"quotes\" -- dash\n", "```\ncode {\n```\n"]); }
    if r.one(2) { if !g.has(&["C16", "C17", "C18", "C19", "C20", "C21", "C28"]) { s += "{{ import($d, \"d.json\") }}"; } let n = 1 + r.below(2); for _ in 0..n { s += &item(r, g, 2); } }
    s
}
fn md_page(r: &mut Rng, g: &mut G, title: &str) -> String {
    let mut s = String::new();
    if !r.one(12) { s += &format!("---\ntitle: \"{}\"\n", title); if r.one(2) { s += &format!("date: \"{}\"\n", r.below(9)); } if r.one(3) { s += "k: \"kk\"\n"; } s += "---\n"; }
    s + &md_body(r, g)
}

fn project(r: &mut Rng, prop: &str) -> Case {
    let mut g = G { vars: vec![], prop: prop.to_string(), md: false, next: 0 };
    let _ = g.md;
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut statics = vec![];
    let plugs = matches!(prop, "C27" | "C04") || (matches!(prop, "C18" | "C20" | "C21" | "C28" | "C16") && r.one(2));
    let conf = match prop { "C20" => Conf { strip: !r.one(3), data: r.one(2), meta: r.one(3) }, "C21" => Conf { strip: true, data: r.one(2), meta: !r.one(5) }, _ => Conf { strip: true, data: false, meta: r.one(4) } };
    let put = |files: &mut Vec<(String, Vec<u8>)>, p: &str, c: String| files.push((p.to_string(), c.into_bytes()));
    match prop {
        "C16" | "C17" | "C18" | "C19" | "C20" | "C21" | "C28" => {
            let dirs: &[&str] = if r.one(6) { &["", "a/", "z/", "z/y/", "z/y/x/", "z/y/x/w/", "z/y/x/w/v/"] } else { &["", "a/", "a/b/", "a/b/c/", "z/", "z/y/"] };
            let nd = 1 + r.below(dirs.len());
            for d in &dirs[..nd] {
                let top = d.is_empty();
                let odds = if prop == "C17" { 2 } else { 4 };
                if top && !(prop == "C17" && r.one(5)) && !r.one(30) || !top && r.one(odds) {
                    put(&mut files, &format!("{}root.html", d), if r.one(12) { r.s(&["", "\n", "plain", "<i>"]) } else if r.one(8) { { let i = item(r, &mut g, 1); format!("R{}{{{{ begin(\"k\") }}}}{{{{ end(\"k\") }}}}{}", d, i) } } else { format!("R{}[{{{{ insert(\"body\") }}}}]{}", d, r.s(&["", "{{ insert(\"body\") }}", "{{ begin(\"k\") }}k{{ end(\"k\") }}", "{{ $env.STUART_ENV }}", "{{ ifdefined($self) }}leak{{ end(ifdefined) }}", "{{ ifdefined($d) }}leak{{ end(ifdefined) }}"])) });
                }
                if top && !(prop == "C17" && r.one(5)) && !r.one(30) || !top && r.one(odds) {
                    put(&mut files, &format!("{}md.html", d), if r.one(12) { r.s(&["", "\n", "plain"]) } else { format!("out{{{{ begin(\"body\") }}}}M{}{{{{ $self.content }}}}{}{{{{ end(\"body\") }}}}", d, r.s(&["", "{{ $self.title }}", "{{ ifdefined($self.markdown) }}<{{ $self.markdown }}>{{ end(ifdefined) }}", "{{ for($p, \"a/\") }}{{ ifdefined($p.content) }}{{ $p.content }}{{ else() }}none{{ end(ifdefined) }},{{ end(for) }}"])) });
                }
                let mut extra: Vec<String> = vec![];
                for _ in 0..r.below(3) {
                    let base = r.plain(&["page.html", "index.html", "root.html", "md.html", "x.md", "data.json", "note.txt", "index", "root", "p.abc"]);
                    let d = if r.1.is_empty() { String::from("k") } else { let i = r.below(r.1.len()); r.1[i].clone() };
                    let name = match r.below(9) { 0 => format!("re{}", base), 1 => format!("{}.html", base), 2 => format!("{}.md", base), 3 => format!("{}.json", base), 4 => format!(".{}", base), 5 => format!("{} ", base), 6 => format!("{}{}", d, base), 7 => format!("{}{}.html", base, d), _ => format!("é{}", base) };
                    if name.len() < 60 && !name.contains('/') && !name.contains('\0') && name != "root.html" && name != "md.html" && !["page.html", "index.html"].contains(&&*name) { extra.push(name); }
                }
                extra.dedup();
                let fixed = ["page.html", "index.html", "other.html", "x.md", "y.md", "data.json", "note.txt", "noext", "img.png", "p.abc", "q.xyz", "r.late", "page.html.bak", "UP.HTML", "about/", "x.html", ".html", ".md", "s.json.html", "w.md.md", "root.htm", "xroot.html", "notmd.html"];
                for f in fixed.iter().copied().chain(extra.iter().map(|e| e.as_str())) {
                    if !fixed.contains(&f) && files.iter().any(|(p, _)| *p == format!("{}{}", d, f)) { continue; }
                    if fixed.contains(&f) && !r.one(if f.len() > 9 || f.starts_with('.') { 10 } else { 4 }) { continue; }
                    let c: Vec<u8> = match f {
                        x if !x.starts_with('.') && (x.ends_with(".html") || x.ends_with(".md")) && r.one(30) => b(*r.pick(&["", "\n", "plain"])),
                        x if x.ends_with(".json") && x != "data.json" => b("{\"x\":[1]}"),
                        x if !x.starts_with('.') && x.ends_with(".md") => { if f == "y.md" && r.one(40) { b("---\nbad\n---\n") } else if prop == "C28" && r.one(3) { let mut s = b("---\ntitle: \"t\"\n---\n"); s.extend(b(&format!("{}{{{{ for($q, \"a/\") }}}}{{{{ ifdefined($q.content) }}}}c{{{{ else() }}}}n{{{{ end(ifdefined) }}}}{{{{ end(for) }}}}", if r.one(12) { r.s(&["{{ $nope }}", "{{ begin(\"o\") }}"]) } else { r.s(&["# H", "x"]) }))); s } else { md_page(r, &mut g, "Ti").into_bytes() } }
                        "data.json" => b(if r.one(40) { "nonsense" } else { *r.pick(&["{\"a\":1}", "[]", "\"s\"", "[{\"k\":\"v\"},null]", "{\"name\":\"n\",\"type\":\"t\"}"]) }),
                        "p.abc" | "q.xyz" | "r.late" => b(if r.one(40) { *r.pick(&["unrenderable", "unparsable"]) } else { *r.pick(&["x", "keep it", "rename me", "", "plain", "data"]) }),
                        x if x.ends_with(".html") && !x.starts_with('.') => { let big = r.one(3); let mid = if big { item(r, &mut g, 1) } else { lit(r) }; format!("lost{{{{ begin(\"body\") }}}}{}{}{{{{ end(\"body\") }}}}{}", d, mid, { let k = if r.one(40) { 5 } else if r.one(10) { 4 } else { 2 }; r.s(&["", "lost too", "{{ begin(\"body\") }}second{{ end(\"body\") }}", "{{ import($d, \"data.json\") }}", "{{ begin(\"x\") }}"][..k]) }).into_bytes() }
                        _ => bytes(r),
                    };
                    files.push((format!("{}{}", d, f), c));
                }
            }
            if matches!(prop, "C19" | "C20" | "C21") && r.one(2) {
                statics = plain_tree(r);
                if r.one(2) { statics.push(("page2.html".into(), b("static page"))); statics.push(("z/s.html".into(), b("static"))); }
            }
        }
        _ => {
            let mut data = DATA.to_string();
            if r.one(4) { let v = r.s(&["x", "é", "", "0", "-1", " ", "TRUE", "$d.s"]); data = data.replace("\"s\":\"str\"", &format!("\"s\":{}", json_str(&v))); }
            if r.one(6) { let v = r.s(&["x", "é", "", "0", "-1", " ", "3 ", "007"]); data = data.replace("\"num\":\"3\"", &format!("\"num\":{}", json_str(&v))); }
            if r.one(6) { let v = r.size(300); data = data.replace("\"i\":3", &format!("\"i\":{}", v)); }
            if r.one(6) { let v = r.s(&["d", "B", "ab", "", "é", "-"]); data = data.replace("\"xs\":[\"c\",\"a\",\"b\",\"a\"]", &format!("\"xs\":[\"c\",{},\"b\",\"a\"]", json_str(&v))); }
            if r.one(6) { let v = r.s(&["d", "B", "ab", "", "é", "-"]); data = data.replace("{\"k\":\"c\",\"v\":\"3\"}", &format!("{{\"k\":{},\"v\":\"3\"}}", json_str(&v))); }
            put(&mut files, "d.json", data);
            put(&mut files, "xs.json", "[\"q\",\"p\",\"r\"]".into());
            put(&mut files, "os.json", "[{\"k\":\"z\",\"v\":\"1\"},{\"k\":\"y\",\"v\":\"2\"},{\"k\":\"x\",\"v\":\"3\"}]".into());
            put(&mut files, "o.json", "{\"k\":\"kay\"}".into());
            put(&mut files, "s.json", "\"just\"".into());
            put(&mut files, "n.json", "null".into());
            put(&mut files, "null.json", "null".into());
            put(&mut files, "folder.json/x.txt", "x".into());
            put(&mut files, "note.txt", "n".into());
            put(&mut files, "posts/xs.json", "[\"deep1\",\"deep2\"]".into());
            put(&mut files, "posts/one.md", format!("---\ntitle: \"One\"\nk: \"{}\"\ndate: \"2\"\n---\nfirst\n", r.below(5)));
            put(&mut files, "posts/two.md", "---\ntitle: \"Two\"\nk: \"3\"\ndate: \"1\"\n---\nsecond *x*\n".into());
            if r.one(2) { put(&mut files, "posts/three.md", "---\ntitle: \"Three\"\nv: \"vv\"\n---\nthird\n".into()); }
            if r.one(2) { put(&mut files, "posts/deep/four.md", "no front matter\n".into()); }
            if r.one(3) { put(&mut files, "posts/nomd.html", "{{ begin(\"title\") }}{{ end(\"title\") }}{{ begin(\"body\") }}{{ end(\"body\") }}".into()); }
            for _ in 0..r.below(4) {
                if r.one(2) { break; }
                let n = match r.below(4) {
                    0 => { let w = r.s(&["index", "sub", "é", "10", "9", "Z", "_draft"]); let l = r.s(&["index.md", "page.md", "index.html", "data.json", "x.txt", "one.md"]); format!("posts/{}/{}", w, l) }
                    1 => { let l = r.s(&["index", "page", "one", "x"]); let e = r.s(&[".md", ".html", ".json", ".txt"]); format!("posts/{}{}", l, e) }
                    2 => { let w = r.s(&["deep/", "sub/", "a/b/", ""]); format!("posts/{}{}", w, r.plain(&["index.md", "z.md", "four.md", "A.md"])) }
                    _ => r.plain(&["posts/_draft.md", "posts/.x.md", "posts/Z.md", "posts/a.md", "posts/10.md", "posts/9.md", "posts/é.md", "posts/one.md.txt", "posts/one.markdown", "posts/One.MD", "posts/0.html", "posts/root.htm", "none/x.md", "posts/sub/sub/x.md"]),
                };
                // a file cannot lie below another file
                if n.contains("//") || n.contains('\0') || n.contains("..") || n.len() > 80 || n.ends_with('/') || n.ends_with("root.html") || n.ends_with("md.html") || files.iter().any(|(q, _)| *q == n || n.starts_with(&format!("{}/", q)) || q.starts_with(&format!("{}/", n))) { continue; }
                let c = if n.ends_with(".md") { let k = r.s(&["k", "draft", "date", "v"]); let v = r.s(&["true", "1", "", "é", "2021-01-01"]); let mut c = String::from("---\ntitle: \"E\"\n"); if r.one(2) && !k.contains(['\n', '\r', '"', ':']) && !v.contains(['\n', '\r', '"', ':']) { c += &format!("{}: \"{}\"\n", k, v); } c + "---\nextra\n" }
                    else if n.ends_with(".html") { "{{ begin(\"title\") }}{{ end(\"title\") }}{{ begin(\"body\") }}{{ end(\"body\") }}".into() } else if n.ends_with(".json") { "[\"e\"]".into() } else { "x".into() };
                files.push((n, c.into_bytes()));
            }
            let (x0, x1, x2, x3) = if prop == "C15" { (words(r), words(r), words(r), prose(r)) } else { (prose(r), prose(r), prose(r), prose(r)) };
            put(&mut files, "x.json", format!("[{},{},{},{},\"2021-05-0{}\"]", json_str(&x0), json_str(&x1), json_str(&x2), json_str(&x3), r.below(10)));
            put(&mut files, "root.html", if prop == "C06" && r.one(6) { format!("{}{}", ROOT, item(r, &mut g, 2)) } else { ROOT.into() });
            let mdt = if matches!(prop, "C05" | "C06" | "C07" | "C09" | "C22") && r.one(3) { format!("{}{}", MD, item(r, &mut g, 2)) } else { MD.to_string() };
            put(&mut files, "md.html", mdt);
            if prop == "C22" { put(&mut files, "f.md", mdfile(r)); }
            let depth = 1 + r.below(4);
            let n = 1 + r.below(4);
            let mut t = String::new();
            for _ in 0..n { t += &item(r, &mut g, depth); }
            let pre = if r.one(20) { "" } else { "{{ import($d, \"d.json\") }}{{ import($x, \"x.json\") }}" };
            let inside = if r.one(3) { format!("{{{{ begin(\"title\") }}}}T{{{{ end(\"title\") }}}}{}{{{{ begin(\"body\") }}}}{}{{{{ end(\"body\") }}}}", pre, t) } else { format!("{{{{ begin(\"body\") }}}}{}{}{{{{ end(\"body\") }}}}{{{{ begin(\"title\") }}}}T{{{{ end(\"title\") }}}}", pre, t) };
            put(&mut files, "page.html", inside);
            if matches!(prop, "C06" | "C03") && r.one(4) { let n = item(r, &mut g, 2); put(&mut files, "posts/bad.md", n); }
        }
    }
    Case::Project { files, statics, conf, plugs }
}
