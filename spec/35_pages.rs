// ================================================================= pages, templates and the build of a tree

/// what a failure is, as far as the properties speak of it
pub enum Fail { Process(At), Parse(At), Plugin(String), Conflict(PathBuf, PathBuf), NotFound, Read, Write, NotBuilt, NotEnabled }
pub open spec fn failv(e: Error) -> Fail { match e {
    Error::Process(t) => Fail::Process(eat(t)), Error::Parse(t) => Fail::Parse(eat(t)), Error::Plugin(s) => Fail::Plugin(s),
    Error::Fs(FsError::Conflict(a, b)) => Fail::Conflict(a, b), Error::Fs(FsError::NotFound(_)) => Fail::NotFound,
    Error::Fs(FsError::Read) => Fail::Read, Error::Fs(FsError::Write) => Fail::Write,
    Error::NotBuilt => Fail::NotBuilt, Error::MetadataNotEnabled => Fail::NotEnabled } }

/// what the build of a page depends on
pub struct Site { pub input: Option<Node>, pub base: StackFrame, pub save_metadata: bool }
pub open spec fn site(p: Stuart) -> Site { Site { input: p.input, base: p.base->0, save_metadata: p.config.save_metadata } }
pub open spec fn site_ok(p: Stuart) -> bool { p.input is Some && p.base is Some && (p.base->0).name@ == "base"@ }

/// the templates which apply in a directory
pub struct Env { pub root: Option<Seq<LocatableToken>>, pub md: Option<Seq<LocatableToken>> }
pub open spec fn oseq<'a>(t: Option<&'a [LocatableToken]>) -> Option<Seq<LocatableToken>> { match t { Some(x) => Some(x@), None => None } }
pub open spec fn envv(e: Environment) -> Env { Env { root: oseq(e.root), md: oseq(e.md) } }
/// the template of a name among the nodes, or the one inherited
pub open spec fn template_in(inherited: Option<Seq<LocatableToken>>, ch: Seq<Node>, name: Seq<char>) -> Option<Seq<LocatableToken>> decreases ch.len() {
    if ch.len() == 0 { inherited }
    else if node_name(ch.last()) == name { match node_pc(ch.last()) { ParsedContents::Html(t) => Some(t@), _ => None } }
    else { template_in(inherited, ch.drop_last(), name) }
}
pub open spec fn env_in(e: Env, ch: Seq<Node>) -> Env { Env { root: template_in(e.root, ch, "root.html"@), md: template_in(e.md, ch, "md.html"@) } }
pub open spec fn env_ok(e: Env) -> bool { (e.root is Some ==> toks_ok(e.root->0)) && (e.md is Some ==> toks_ok(e.md->0)) }

/// an error about a whole file
pub open spec fn whole(src: PathBuf) -> At { At { path: src, line: 0, column: 0 } }
/// a whole template rendered on top of `under`, from a fresh base frame; ends with that frame open again and nothing else
pub open spec fn sem_template(s: Site, toks: Seq<LocatableToken>, base: StackFrame, under: Seq<StackFrame>, secs: Seq<(String, Vec<u8>)>, src: PathBuf) -> Res {
    match sem_all(Cx { toks: toks, input: s.input }, St { idx: 0, stack: under.push(base), secs: secs }) {
        Err(e) => Err(e),
        Ok(r) => if r.stack.len() > 0 && r.stack.last().name@ == "base"@ { Ok(r) } else { Err(whole(src)) },
    }
}
/// a page: its own tokens first, for the sections they define; then the root template with those sections
pub open spec fn sem_page(s: Site, toks: Seq<LocatableToken>, base: StackFrame, root: Seq<LocatableToken>, src: PathBuf) -> Result<Seq<u8>, At> {
    match sem_template(s, toks, base, Seq::empty(), Seq::empty(), src) {
        Err(e) => Err(e),
        Ok(r) => match sem_template(s, root, s.base, r.stack.drop_last(), r.secs, src) {
            Err(e) => Err(e),
            Ok(q) => Ok(q.stack.last().output@) } }
}
pub open spec fn md_base(s: Site, md: ParsedMarkdown) -> StackFrame { frame_with(s.base, "self"@, md_value(md)) }
pub open spec fn sem_html(s: Site, toks: Seq<LocatableToken>, e: Env, src: PathBuf) -> Result<Seq<u8>, At> {
    match e.root { None => Err(whole(src)), Some(root) => sem_page(s, toks, s.base, root, src) }
}
pub open spec fn sem_md(s: Site, md: ParsedMarkdown, e: Env, src: PathBuf) -> Result<Seq<u8>, At> {
    match (e.root, e.md) { (Some(root), Some(t)) => sem_page(s, t, md_base(s, md), root, src), _ => Err(whole(src)) }
}
pub open spec fn md_page_name(n: Seq<char>) -> Seq<char> { n.take(n.len() - 3) + ".html"@ }

/// the metadata kept of a file
pub open spec fn kind_obj(k: Seq<char>, v: Value) -> Value { Value::Object(vx_vec(seq![(vx_string("type"@), Value::String(vx_string(k))), (vx_string("value"@), v)])) }
pub open spec fn pc_json(p: ParsedContents) -> Option<Value> { match p {
    ParsedContents::Markdown(md) => Some(kind_obj("markdown"@, Value::Object(vx_vec(fm_obj(md.frontmatter@))))),
    ParsedContents::Json(v) => Some(kind_obj("json"@, v)),
    ParsedContents::Custom(c) => Some(custom_json(**c)),
    _ => None } }

/// the name and contents of the output file, where they differ from the input's
pub open spec fn file_out(s: Site, n: Node, e: Env) -> Result<(Option<Seq<char>>, Option<Seq<u8>>), Fail> {
    if node_name(n) == "root.html"@ || node_name(n) == "md.html"@ { Ok((None, None)) }
    else { match node_pc(n) {
        ParsedContents::Html(t) => match sem_html(s, t@, e, node_source(n)) { Ok(b) => Ok((None, Some(b))), Err(a) => Err(Fail::Process(a)) },
        ParsedContents::Markdown(md) => match sem_md(s, md, e, node_source(n)) { Ok(b) => Ok((Some(md_page_name(node_name(n))), Some(b))), Err(a) => Err(Fail::Process(a)) },
        ParsedContents::Custom(c) => match custom_out(**c, s, e) { Ok(o) => Ok(o), Err(m) => Err(Fail::Plugin(m)) },
        _ => Ok((None, None)) } }
}
pub open spec fn node_contents(n: Node) -> Vec<u8> { match n { Node::File { contents, .. } => contents, _ => vx_vec(Seq::empty()) } }
/// the output file of a file
pub open spec fn processed(s: Site, n: Node, e: Env) -> Result<Node, Fail> {
    match file_out(s, n, e) {
        Err(f) => Err(f),
        Ok((name, contents)) => Ok(Node::File {
            name: match name { Some(x) => vx_string(x), None => vx_string(node_name(n)) },
            contents: match contents { Some(x) => vx_vec(x), None => node_contents(n) },
            parsed_contents: ParsedContents::None,
            metadata: if s.save_metadata { pc_json(node_pc(n)) } else { None },
            source: node_source(n),
        }),
    }
}
pub open spec fn node_len(n: Node) -> int { match n { Node::Directory { children, .. } => children@.len() as int, _ => 0 } }
/// the output tree of a tree
pub open spec fn built(s: Site, n: Node, e: Env) -> Result<Node, Fail> decreases n, node_len(n) + 1 {
    match n {
        Node::File { .. } => processed(s, n, e),
        Node::Directory { name, children, source } => match built_first(s, n, env_in(e, children@), children@.len() as int) {
            Err(f) => Err(f),
            Ok(ch) => Ok(Node::Directory { name: name, children: vx_vec(ch), source: source }) },
    }
}
/// the output of the first k nodes of a directory
pub open spec fn built_first(s: Site, n: Node, e: Env, k: int) -> Result<Seq<Node>, Fail> decreases n, k {
    match n {
        Node::Directory { name, children, source } =>
            if k <= 0 || k > children@.len() { Ok(Seq::empty()) } else { match built_first(s, n, e, k - 1) {
                Err(f) => Err(f),
                Ok(r) => match built(s, children@[k - 1], e) { Err(f) => Err(f), Ok(x) => Ok(r.push(x)) } } },
        _ => Ok(Seq::empty()),
    }
}

// ---- nodes made by a plugin
pub uninterp spec fn custom_json(c: VxDynNodeProcessor) -> Value;
pub uninterp spec fn custom_out(c: VxDynNodeProcessor, s: Site, e: Env) -> Result<(Option<Seq<char>>, Option<Seq<u8>>), String>;
impl VxDynNodeProcessor {
    #[verifier::external_body] pub fn to_json(&self) -> (r: Value) ensures r == custom_json(*self) { unimplemented!() }
    #[verifier::external_body] pub fn process(&self, processor: &Stuart, env: Environment) -> (r: Result<ProcessOutput, String>)
        ensures r is Ok == custom_out(*self, site(*processor), envv(env)) is Ok,
            r is Err ==> r->Err_0 == custom_out(*self, site(*processor), envv(env))->Err_0,
            r is Ok ==> outv(r->Ok_0) == custom_out(*self, site(*processor), envv(env))->Ok_0
    { unimplemented!() }
}
pub open spec fn outv(o: ProcessOutput) -> (Option<Seq<char>>, Option<Seq<u8>>) {
    (match o.new_name { Some(x) => Some(x@), None => None }, match o.new_contents { Some(x) => Some(x@), None => None })
}

// ---- markdown is rendered first
pub open spec fn with_pc(n: Node, pc: ParsedContents) -> Node { match n {
    Node::File { name, contents, parsed_contents, metadata, source } => Node::File { name: name, contents: contents, parsed_contents: pc, metadata: metadata, source: source }, d => d } }
/// the HTML of a markdown body: its tags executed, the result converted
pub open spec fn sem_md_html(s: Site, md: ParsedMarkdown, src: PathBuf) -> Result<Seq<char>, At> {
    match sem_template(s, md.markdown@, s.base, Seq::empty(), Seq::empty(), src) {
        Err(e) => Err(e),
        Ok(r) => match utf8_inv(r.stack.last().output@) { Some(t) => Ok(markdown_html(t)), None => Err(whole(src)) } }
}
/// a file after this step
pub open spec fn sem_prepare(s: Site, n: Node) -> Result<Node, At> {
    match node_pc(n) {
        ParsedContents::Markdown(md) => match sem_md_html(s, md, node_source(n)) {
            Err(e) => Err(e),
            Ok(h) => Ok(with_pc(n, ParsedContents::Markdown(ParsedMarkdown { html: Some(vx_string(h)), ..md }))) },
        _ => Ok(n) }
}
/// `ProcessOutput` derives Default
pub fn vx_default_output() -> (r: ProcessOutput) ensures outv(r) == (None::<Seq<char>>, None::<Seq<u8>>) { ProcessOutput { new_contents: None, new_name: None } }

// ---- what the parser gives a tree
pub open spec fn pc_ok(n: Node) -> bool { match node_pc(n) {
    ParsedContents::Html(t) => toks_ok(t@),
    ParsedContents::Markdown(md) => toks_ok(md.markdown@) && is_suffix(".md"@, node_name(n)),
    _ => true } }
pub open spec fn tree_ok(n: Node) -> bool decreases n {
    pc_ok(n) && match n { Node::Directory { children, .. } => forall|i: int| 0 <= i < children@.len() ==> tree_ok(#[trigger] children@[i]), _ => true }
}
pub proof fn lemma_template_ok(d: Option<Seq<LocatableToken>>, ch: Seq<Node>, name: Seq<char>)
    requires d is Some ==> toks_ok(d->0), forall|i: int| 0 <= i < ch.len() ==> pc_ok(#[trigger] ch[i])
    ensures template_in(d, ch, name) is Some ==> toks_ok(template_in(d, ch, name)->0)
    decreases ch.len()
{
    if ch.len() > 0 {
        assert(pc_ok(ch[ch.len() - 1]));
        assert forall|i: int| 0 <= i < ch.drop_last().len() implies pc_ok(#[trigger] ch.drop_last()[i]) by { assert(ch.drop_last()[i] == ch[i]); }
        lemma_template_ok(d, ch.drop_last(), name);
    }
}
/// the tree with the HTML of every markdown file
pub open spec fn prepared(s: Site, n: Node) -> Result<Node, Fail> decreases n, node_len(n) + 1 {
    match n {
        Node::File { .. } => match sem_prepare(s, n) { Ok(x) => Ok(x), Err(a) => Err(Fail::Process(a)) },
        Node::Directory { name, children, source } => match prepared_first(s, n, children@.len() as int) {
            Err(f) => Err(f),
            Ok(ch) => Ok(Node::Directory { name: name, children: vx_vec(ch), source: source }) },
    }
}
pub open spec fn prepared_first(s: Site, n: Node, k: int) -> Result<Seq<Node>, Fail> decreases n, k {
    match n {
        Node::Directory { name, children, source } =>
            if k <= 0 || k > children@.len() { Ok(Seq::empty()) } else { match prepared_first(s, n, k - 1) {
                Err(f) => Err(f),
                Ok(r) => match prepared(s, children@[k - 1]) { Err(f) => Err(f), Ok(x) => Ok(r.push(x)) } } },
        _ => Ok(Seq::empty()),
    }
}
pub proof fn lemma_built_fails(s: Site, n: Node, e: Env, k: int, m: int)
    requires built_first(s, n, e, k) is Err, n is Directory, 0 <= k <= m <= node_len(n)
    ensures built_first(s, n, e, m) == built_first(s, n, e, k)
    decreases m - k
{ if k < m { lemma_built_fails(s, n, e, k, m - 1); } }
pub proof fn lemma_prepared_fails(s: Site, n: Node, k: int, m: int)
    requires prepared_first(s, n, k) is Err, n is Directory, 0 <= k <= m <= node_len(n)
    ensures prepared_first(s, n, m) == prepared_first(s, n, k)
    decreases m - k
{ if k < m { lemma_prepared_fails(s, n, k, m - 1); } }
