// ================================================================= reading a tree of files

/// a file as it is on disk, by its extension
pub open spec fn exts_have(p: VxDynNodeParser, e: Seq<char>) -> bool { node_parser_exts(p).contains(e) }
/// the first parser, from the j-th of a list on, that knows the extension
pub open spec fn parser_from(l: Seq<Box<VxDynNodeParser>>, e: Seq<char>, j: int) -> Option<VxDynNodeParser> decreases l.len() - j {
    if j < 0 || j >= l.len() { None } else if exts_have(*l[j], e) { Some(*l[j]) } else { parser_from(l, e, j + 1) }
}
pub open spec fn plugin_from(l: Seq<Plugin>, e: Seq<char>, i: int) -> Option<VxDynNodeParser> decreases l.len() - i {
    if i < 0 || i >= l.len() { None } else { match parser_from(l[i].parsers@, e, 0) { Some(p) => Some(p), None => plugin_from(l, e, i + 1) } }
}
pub open spec fn custom_parser(plugins: Option<&VxDynManager>, e: Seq<char>) -> Option<VxDynNodeParser> {
    match plugins { Some(m) => plugin_from(plugins_seq(*m), e, 0), None => None }
}
pub open spec fn parse_fail(e: LexErr, p: Path) -> Fail { Fail::Parse(At { path: p, line: e.line as u32, column: e.col as u32 }) }
/// why the bytes of a file cannot be its contents
pub open spec fn parse_failure(b: Seq<u8>, p: Path, plugins: Option<&VxDynManager>) -> Option<Fail> {
    match path_extension(p@) {
        None => None,
        Some(e) =>
            if e == "html"@ { match utf8_inv(b) { None => Some(Fail::Read), Some(t) => match lex_text(t, p, plugins) { LexRes::Err(x) => Some(parse_fail(x, p)), _ => None } } }
            else if e == "md"@ { match utf8_inv(b) { None => Some(Fail::Read), Some(t) => match md_parse(t, p, plugins) { MdRes::Err(x) => Some(parse_fail(x, p)), _ => None } } }
            else if e == "json"@ { match utf8_inv(b) { None => Some(Fail::Read), Some(t) => if json_parse(t) is Some { None } else { Some(Fail::Parse(whole(p))) } } }
            else { match custom_parser(plugins, e) { None => None, Some(q) => match node_parse(q, b, p) { Ok(_) => None, Err(x) => Some(Fail::Plugin(x)) } } }
    }
}
/// the contents a file has, where they can be had
pub open spec fn parsed_as(b: Seq<u8>, p: Path, plugins: Option<&VxDynManager>, pc: ParsedContents) -> bool {
    match path_extension(p@) {
        None => pc is None,
        Some(e) =>
            if e == "html"@ { pc is Html && pc->Html_0@ == lex_text(utf8_inv(b)->0, p, plugins)->Ok_0 }
            else if e == "md"@ { pc is Markdown && pc->Markdown_0.html is None && (match md_parse(utf8_inv(b)->0, p, plugins) {
                MdRes::Ok(fm, t, s) => pc->Markdown_0.frontmatter@ == fm && pc->Markdown_0.markdown@ == t && pc->Markdown_0.markdown_string@ == s, _ => false }) }
            else if e == "json"@ { pc == ParsedContents::Json(json_parse(utf8_inv(b)->0)->0) }
            else { match custom_parser(plugins, e) { None => pc is None, Some(q) => pc is Custom && **(pc->Custom_0) == node_parse(q, b, p)->Ok_0 } }
    }
}
pub open spec fn file_failure(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>) -> Option<Fail> {
    match w.bytes(p@) { None => Some(Fail::Read), Some(b) => if parse { parse_failure(b, p, plugins) } else { None } }
}
pub open spec fn file_read(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>, n: Node) -> bool {
    match n {
        Node::File { name, contents, parsed_contents, metadata, source } => name@ == path_file_name(p@)->0 && contents@ == w.bytes(p@)->0 && metadata is None && source == p
            && (if parse { parsed_as(contents@, p, plugins, parsed_contents) } else { parsed_contents is Ignored }),
        _ => false,
    }
}
/// the first failure among the entries of a directory, or of anything below them
pub open spec fn entry_failure(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>) -> Option<Fail> decreases w.depth(p@), 2int, 0int {
    match w.kind(p@) { Some(VxKind::Dir) => dir_failure(w, p, parse, plugins), Some(VxKind::File) => file_failure(w, p, parse, plugins), _ => Some(Fail::Read) }
}
pub open spec fn dir_failure(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>) -> Option<Fail> decreases w.depth(p@), 1int, 0int {
    match w.list(p@) { None => Some(Fail::NotFound), Some(l) => list_failure(w, p, l, parse, plugins, l.len() as int) }
}
pub open spec fn list_failure(w: VxWorld, p: Path, l: Seq<Seq<char>>, parse: bool, plugins: Option<&VxDynManager>, k: int) -> Option<Fail> decreases w.depth(p@), 0int, k {
    if k <= 0 || k > l.len() { None } else { match list_failure(w, p, l, parse, plugins, k - 1) {
        Some(f) => Some(f),
        None => if w.depth(l[k - 1]) < w.depth(p@) { entry_failure(w, vx_path(l[k - 1]), parse, plugins) } else { None } } }
}
/// n is the tree of files at p
pub open spec fn tree_read(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>, n: Node) -> bool decreases n {
    match n {
        Node::Directory { name, children, source } => name@ == path_file_name(p@)->0 && source == p && w.list(p@) is Some && w.list(p@)->0.len() == children@.len()
            && forall|i: int| 0 <= i < children@.len() ==> entry_read(w, vx_path(w.list(p@)->0[i]), parse, plugins, #[trigger] children@[i]),
        _ => false,
    }
}
pub open spec fn entry_read(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>, n: Node) -> bool decreases n {
    match w.kind(p@) {
        Some(VxKind::Dir) => (match n {
            Node::Directory { name, children, source } => name@ == path_file_name(p@)->0 && source == p && w.list(p@) is Some && w.list(p@)->0.len() == children@.len()
                && forall|i: int| 0 <= i < children@.len() ==> entry_read(w, vx_path(w.list(p@)->0[i]), parse, plugins, #[trigger] children@[i]),
            _ => false }),
        Some(VxKind::File) => file_read(w, p, parse, plugins, n),
        _ => false,
    }
}
pub open spec fn tree_failure(w: VxWorld, p: Seq<char>, parse: bool, plugins: Option<&VxDynManager>) -> Option<Fail> {
    match w.canon(p) { None => Some(Fail::NotFound), Some(q) => dir_failure(w, vx_path(q), parse, plugins) }
}
/// texts short enough for their line and column numbers; directories finite, their entries with names of their own
pub open spec fn world_ok(w: VxWorld) -> bool {
    (forall|p: Seq<char>| (#[trigger] w.bytes(p)) is Some ==> w.bytes(p)->0.len() < 0x7fff_fff0)
    && (forall|p: Seq<char>| (#[trigger] w.list(p)) is Some ==> entries_ok(w, p, w.list(p)->0))
}
pub proof fn lemma_text_ok(b: Seq<u8>)
    requires b.len() < 0x7fff_fff0
    ensures utf8_inv(b) is Some ==> text_ok(utf8_inv(b)->0)
{ if utf8_inv(b) is Some { lemma_utf8_len(utf8_inv(b)->0); assert(utf8(utf8_inv(b)->0) == b); } }
pub proof fn lemma_list_fails(w: VxWorld, p: Path, l: Seq<Seq<char>>, parse: bool, plugins: Option<&VxDynManager>, k: int, m: int)
    requires list_failure(w, p, l, parse, plugins, k) is Some, 0 <= k <= m <= l.len()
    ensures list_failure(w, p, l, parse, plugins, m) == list_failure(w, p, l, parse, plugins, k)
    decreases m - k
{ if k < m { lemma_list_fails(w, p, l, parse, plugins, k, m - 1); } }

// ---- what is read can be rendered
pub proof fn lemma_lex_args_len(p: PS, pos: Seq<RawArgument>, named: Seq<(String, RawArgument)>)
    ensures (match lex_args(p, pos, named) { ArgsRes::Ok(_, _, q) => q.rest.len() <= p.rest.len(), _ => true })
    decreases p.rest.len()
{
    let p1 = run_ps(p, 0); let p2 = arg_ps(p1, false);
    lemma_run_ps(p, 0); lemma_arg_ps(p1, false);
    if p2.rest.len() > 0 {
        lemma_step(p2);
        assert forall|a: Seq<RawArgument>, b: Seq<(String, RawArgument)>| sep_shorter(p, p2, a, b) by { lemma_lex_args_len(step(p2), a, b); }
        let arg = trim(arg_text(p1.rest, false)); let i = index_of_char(arg, '=');
        assert(sep_shorter(p, p2, pos, named));
        match raw_arg(arg.skip(i + 1)) { Ok(a) => { assert(sep_shorter(p, p2, pos, named.push((vx_string(arg.take(i)), a)))); }, _ => {} }
        match raw_arg(arg) { Ok(a) => { assert(sep_shorter(p, p2, pos.push(a), named)); }, _ => {} }
    }
}
pub open spec fn sep_shorter(p: PS, p2: PS, a: Seq<RawArgument>, b: Seq<(String, RawArgument)>) -> bool { match lex_args_sep(p, p2, a, b) { ArgsRes::Ok(_, _, q) => q.rest.len() <= p.rest.len(), _ => true } }
pub proof fn lemma_tag(p: PS, plugins: Option<&VxDynManager>, path: Path, line: u32, column: u32)
    ensures (match lex_tag(p, plugins) { TokRes::Ok(t, q) => q.rest.len() <= p.rest.len() && tok_ok(LocatableToken { inner: t, path: path, line: line, column: column }), _ => true })
{
    broadcast use ax_unrcbox;
    if p.rest.len() > 0 && p.rest[0] == '$' {
        lemma_expect_ps(p, seq!['$'], 0);
        match expect_ps(p, seq!['$'], 0) { Ok(q) => { lemma_run_ps(q, 2); }, _ => {} }
    } else if p.rest.len() > 0 {
        let p1 = run_ps(p, 1);
        lemma_run_ps(p, 1); lemma_run_ps(p1, 0); lemma_expect_ps(run_ps(p1, 0), seq!['('], 0);
        match expect_ps(run_ps(p1, 0), seq!['('], 0) {
            Ok(p2) => { lemma_lex_args_len(p2, Seq::empty(), Seq::empty());
                match lex_args(p2, Seq::empty(), Seq::empty()) { ArgsRes::Ok(pos, named, p3) => {
                    lemma_run_ps(p3, 0);
                    let raw = mkraw(run_text(p.rest, 1), pos, named);
                    let b = match builtin(raw.name@) { Some(b) => Some(b), None => plugin_fn(plugins, raw.name@) };
                    if b is Some { lemma_fn_ok(b->0, raw); }
                }, _ => {} } },
            _ => {}
        }
    }
}
pub proof fn lemma_fn_ok(b: VxDynFunctionParser, raw: RawFunction)
    ensures fp_parse(b, raw) is Some ==> fn_ok(fp_parse(b, raw)->0)
{ match b { VxDynFunctionParser::Plugin(q) => { ax_plugin_fn(q, raw); }, _ => {} } }
/// a plugin makes an excerpt function only by the parser of the crate, whose arguments have 32 bits
pub axiom fn ax_plugin_fn(q: VxPluginFunctionParser, raw: RawFunction) ensures plugin_parse(q, raw) is Some ==> fn_ok(plugin_parse(q, raw)->0);
pub proof fn lemma_lex_ok(p: PS, acc: Seq<LocatableToken>, line: int, col: int, path: Path, plugins: Option<&VxDynManager>)
    requires toks_ok(acc)
    ensures (match lex(p, acc, line, col, path, plugins) { LexRes::Ok(t) => toks_ok(t), _ => true })
    decreases p.rest.len()
{
    let i = open_from(p.rest, 0);
    if i >= 0 {
        lemma_open_from_range(p.rest, 0);
        lemma_adv(p, i + 2);
        let acc1 = push_raw(acc, raw_before(p.rest, i), path, line, col);
        let p1 = run_ps(adv(p, i + 2), 0);
        lemma_run_ps(adv(p, i + 2), 0);
        lemma_tag(p1, plugins, path, p1.loc.line as u32, p1.loc.col as u32);
        match lex_tag(p1, plugins) {
            TokRes::Err(e) => {},
            TokRes::Ok(t, p2) => {
                let acc2 = acc1.push(LocatableToken { inner: t, path: path, line: p1.loc.line as u32, column: p1.loc.col as u32 });
                lemma_run_ps(p2, 0); lemma_expect_ps(run_ps(p2, 0), seq!['}', '}'], 0);
                match expect_ps(run_ps(p2, 0), seq!['}', '}'], 0) {
                    Err(e) => {},
                    Ok(p3) => { lemma_lex_ok(p3, acc2, p3.loc.line, p3.loc.col, path, plugins); }
                }
            }
        }
    }
}
pub proof fn lemma_file_ok(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>, n: Node)
    requires file_read(w, p, parse, plugins, n), world_ok(w), path_file_name(p@) is Some, file_failure(w, p, parse, plugins) is None
    ensures tree_ok(n)
{
    match n { Node::File { name, contents, parsed_contents, metadata, source } => if parse { match path_extension(p@) {
        Some(e) => if e == "html"@ {
            lemma_lex_ok(start_ps(utf8_inv(contents@)->0), Seq::empty(), 1, 1, p, plugins);
        } else if e == "md"@ {
            lemma_md_name(name@);
            match fm_of(utf8_inv(contents@)->0) { Ok((k, fm)) => { lemma_lex_ok(start_ps(md_body(utf8_inv(contents@)->0, k)), Seq::empty(), 1, 1, p, plugins); }, _ => {} }
        } else { },
        None => {} } }, _ => {} }
}
pub proof fn lemma_entry_ok(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>, n: Node)
    requires entry_read(w, p, parse, plugins, n), world_ok(w), path_file_name(p@) is Some, entry_failure(w, p, parse, plugins) is None
    ensures tree_ok(n)
    decreases n
{
    match w.kind(p@) {
        Some(VxKind::Dir) => { assert(tree_read(w, p, parse, plugins, n)); match n { Node::Directory { children, .. } => {
            assert forall|i: int| 0 <= i < children@.len() implies tree_ok(#[trigger] children@[i]) by { lemma_child_ok(w, p, parse, plugins, n, i); lemma_entry_ok(w, vx_path(w.list(p@)->0[i]), parse, plugins, children@[i]); } }, _ => {} } },
        _ => { lemma_file_ok(w, p, parse, plugins, n); },
    }
}
pub proof fn lemma_child_ok(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>, n: Node, i: int)
    requires tree_read(w, p, parse, plugins, n), dir_failure(w, p, parse, plugins) is None, world_ok(w), 0 <= i < node_len(n)
    ensures n is Directory, decreases_to!(n => kids(n)[i]), w.list(p@) is Some, 0 <= i < w.list(p@)->0.len(), path_file_name(w.list(p@)->0[i]) is Some,
        entry_read(w, vx_path(w.list(p@)->0[i]), parse, plugins, kids(n)[i]), entry_failure(w, vx_path(w.list(p@)->0[i]), parse, plugins) is None
{
    let l = w.list(p@)->0;
    if list_failure(w, p, l, parse, plugins, i + 1) is Some { lemma_list_fails(w, p, l, parse, plugins, i + 1, l.len() as int); }
    assert(w.depth(l[i]) < w.depth(p@));
}
pub proof fn lemma_tree_ok(w: VxWorld, p: Path, parse: bool, plugins: Option<&VxDynManager>, n: Node)
    requires tree_read(w, p, parse, plugins, n), world_ok(w), path_file_name(p@) is Some, dir_failure(w, p, parse, plugins) is None
    ensures tree_ok(n)
{
    assert forall|i: int| 0 <= i < kids(n).len() implies tree_ok(#[trigger] kids(n)[i]) by { lemma_child_ok(w, p, parse, plugins, n, i); lemma_entry_ok(w, vx_path(w.list(p@)->0[i]), parse, plugins, kids(n)[i]); }
}
