// ================================================================= what rendering means

/// where an error is reported
pub struct At { pub path: PathBuf, pub line: u32, pub column: u32 }
pub open spec fn tat(t: LocatableToken) -> At { At { path: t.path, line: t.line, column: t.column } }
pub open spec fn eat<T>(e: TracebackError<T>) -> At { At { path: e.path, line: e.line, column: e.column } }

/// what does not change while a template is rendered
pub struct Cx { pub toks: Seq<LocatableToken>, pub input: Option<Node> }
/// what does: the position in the template, the stack of open blocks, the finished sections
pub struct St { pub idx: int, pub stack: Seq<StackFrame>, pub secs: Seq<(String, Vec<u8>)> }
pub type Res = Result<St, At>;

// ---- the content tree
pub open spec fn node_name(n: Node) -> Seq<char> { match n { Node::File { name, .. } => name@, Node::Directory { name, .. } => name@ } }
pub open spec fn node_source(n: Node) -> PathBuf { match n { Node::File { source, .. } => source, Node::Directory { source, .. } => source } }
pub open spec fn node_pc(n: Node) -> ParsedContents { match n { Node::File { parsed_contents, .. } => parsed_contents, _ => ParsedContents::None } }
/// the first child of a name, or -1
pub open spec fn child_from(ch: Seq<Node>, n: Seq<char>, i: int) -> int decreases ch.len() - i {
    if i < 0 || i >= ch.len() { -1 } else if node_name(ch[i]) == n { i } else { child_from(ch, n, i + 1) }
}
pub open spec fn child(ch: Seq<Node>, n: Seq<char>) -> int { child_from(ch, n, 0) }
/// the node a path leads to: only names (and `.`), never out of the tree
pub open spec fn node_at(n: Node, p: Seq<Component>) -> Option<Node> decreases p.len() {
    if p.len() == 0 { Some(n) } else { match p[0] {
        Component::Normal(x) => match n {
            Node::Directory { children, .. } => if child(children@, x@) >= 0 { node_at(children@[child(children@, x@)], p.skip(1)) } else { None },
            _ => None },
        Component::CurDir => node_at(n, p.skip(1)),
        _ => None } }
}
pub open spec fn node_of(c: Cx, p: Seq<char>) -> Option<Node> { match c.input { Some(n) => node_at(n, path_comps(p)), None => None } }

// ---- markdown as a value
pub open spec fn fm_obj(fm: Seq<(String, String)>) -> Seq<(String, Value)> decreases fm.len() {
    if fm.len() == 0 { Seq::empty() } else { fm_obj(fm.drop_last()).push((fm.last().0, Value::String(fm.last().1))) }
}
pub open spec fn md_obj(md: ParsedMarkdown) -> Seq<(String, Value)> {
    let a = fm_obj(md.frontmatter@);
    let b = match md.html { Some(h) => obj_set(a, "content"@, Value::String(h)), None => a };
    obj_set(b, "markdown"@, Value::String(md.markdown_string))
}
pub open spec fn md_value(md: ParsedMarkdown) -> Value { Value::Object(vx_vec(md_obj(md))) }
/// the markdown files among the nodes, in order
pub open spec fn md_values(ch: Seq<Node>) -> Seq<Value> decreases ch.len() {
    if ch.len() == 0 { Seq::empty() } else { match node_pc(ch.last()) {
        ParsedContents::Markdown(md) => md_values(ch.drop_last()).push(md_value(md)),
        _ => md_values(ch.drop_last()) } }
}

// ---- variables
pub open spec fn frame_var(f: StackFrame, n: Seq<char>) -> Option<Value> {
    if obj_find(f.variables@, n) >= 0 { Some(f.variables@[obj_find(f.variables@, n)].1) } else { None }
}
/// the value at a path of names and positions inside a value
pub open spec fn value_at(p: Seq<Seq<char>>, v: Value) -> Value decreases p.len() {
    if p.len() == 0 { v } else { match json_key(v, p[0]) {
        Some(w) => value_at(p.skip(1), w),
        None => match parse_nat(p[0]) {
            Some(i) => if i <= usize::MAX { match json_idx(v, i as int) { Some(w) => value_at(p.skip(1), w), None => Value::Null } } else { Value::Null },
            None => Value::Null } } }
}
/// the innermost definition
pub open spec fn lookup(stack: Seq<StackFrame>, n: Seq<char>) -> Option<Value> decreases stack.len() {
    if stack.len() == 0 { None } else { match frame_var(stack.last(), n) { Some(v) => Some(v), None => lookup(stack.drop_last(), n) } }
}
pub open spec fn var(stack: Seq<StackFrame>, name: Seq<char>) -> Option<Value> {
    let p = split_char(name, '.');
    match lookup(stack, p[0]) { Some(v) => Some(value_at(p.skip(1), v)), None => None }
}

// ---- frames
pub open spec fn frame(name: Seq<char>) -> StackFrame { StackFrame { name: vx_string(name), variables: vx_vec(Seq::empty()), output: vx_vec(Seq::empty()) } }
pub open spec fn frame_with(f: StackFrame, n: Seq<char>, v: Value) -> StackFrame { StackFrame { variables: vx_vec(f.variables@.push((vx_string(n), v))), ..f } }
pub open spec fn frame_out(f: StackFrame, b: Seq<u8>) -> StackFrame { StackFrame { output: vx_vec(f.output@ + b), ..f } }
pub open spec fn put(stack: Seq<StackFrame>, b: Seq<u8>) -> Seq<StackFrame> { stack.drop_last().push(frame_out(stack.last(), b)) }
pub open spec fn stack_ok(stack: Seq<StackFrame>) -> bool { stack.len() >= 1 && stack[0].name@ == "base"@ }
pub open spec fn st_ok(c: Cx, s: St) -> bool { 1 <= s.idx <= c.toks.len() && stack_ok(s.stack) }

// ---- values compared by the conditionals
pub open spec fn input_value(i: Input, stack: Seq<StackFrame>) -> Option<Input> {
    match i {
        Input::Variable(n) => match var(stack, n@) {
            Some(Value::String(s)) => Some(Input::String(s)),
            Some(Value::Number(x)) => Some(Input::Integer(f64_as_i32(x))),
            _ => None },
        x => Some(x),
    }
}
pub open spec fn input_text(i: Input) -> Seq<char> { match i { Input::Variable(v) => v@, Input::String(s) => s@, Input::Integer(n) => dec(n as int) } }
/// equal: the same type and the same value
pub open spec fn input_eq(a: Input, b: Input) -> bool {
    match (a, b) {
        (Input::Variable(x), Input::Variable(y)) => x@ == y@,
        (Input::String(x), Input::String(y)) => x@ == y@,
        (Input::Integer(x), Input::Integer(y)) => x == y,
        _ => false }
}
/// only integers have an order
pub open spec fn input_cmp(a: Input, b: Input) -> Option<core::cmp::Ordering> {
    match (a, b) {
        (Input::Integer(x), Input::Integer(y)) => Some(if x < y { core::cmp::Ordering::Less } else if x == y { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }),
        _ => None }
}
pub enum Op { Eq, Ne, Gt, Ge, Lt, Le }
pub open spec fn compare(o: Op, a: Input, b: Input) -> bool {
    match o {
        Op::Eq => input_eq(a, b),
        Op::Ne => !input_eq(a, b),
        Op::Gt => input_cmp(a, b) == Some(core::cmp::Ordering::Greater),
        Op::Ge => input_cmp(a, b) == Some(core::cmp::Ordering::Greater) || input_cmp(a, b) == Some(core::cmp::Ordering::Equal),
        Op::Lt => input_cmp(a, b) == Some(core::cmp::Ordering::Less),
        Op::Le => input_cmp(a, b) == Some(core::cmp::Ordering::Less) || input_cmp(a, b) == Some(core::cmp::Ordering::Equal),
    }
}

// ---- loops
/// the text a loop sorts an element by: what the sort variable names inside the element, if that is text
pub open spec fn sort_key(k: Seq<char>, v: Value) -> Seq<char> { match value_at(split_char(k, '.').skip(1), v) { Value::String(s) => s@, _ => ""@ } }
pub open spec fn for_source_values(c: Cx, f: ForFunction, stack: Seq<StackFrame>) -> Option<Seq<Value>> {
    match f.source_type {
        ForFunctionSourceType::MarkdownDirectory => match node_of(c, f.source@) { Some(Node::Directory { children, .. }) => Some(md_values(children@)), _ => None },
        ForFunctionSourceType::JSONFile => match node_of(c, f.source@) {
            Some(Node::File { parsed_contents, .. }) => match parsed_contents { ParsedContents::Json(Value::Array(a)) => Some(a@), _ => None }, _ => None },
        ForFunctionSourceType::JSONObject => match var(stack, f.source@) { Some(Value::Array(a)) => Some(a@), _ => None },
    }
}
pub open spec fn for_select(f: ForFunction, v: Seq<Value>) -> Seq<Value> {
    let a = match f.sort_variable { Some(k) => sorted(v, v.map(|_i: int, x: Value| sort_key(k@, x))).0, None => v };
    let b = match f.sort_order { SortOrder::Asc => a, SortOrder::Desc => a.reverse() };
    let d = match f.skip { Some(n) => if n <= b.len() { b.skip(n as int) } else { Seq::empty() }, None => b };
    match f.limit { Some(n) => if n <= d.len() { d.take(n as int) } else { d }, None => d }
}
pub open spec fn for_values(c: Cx, f: ForFunction, stack: Seq<StackFrame>) -> Option<Seq<Value>> {
    match for_source_values(c, f, stack) { Some(v) => Some(for_select(f, v)), None => None }
}
pub open spec fn for_frame(f: ForFunction, v: Value) -> StackFrame { frame_with(frame("for:"@ + f.variable_name@), f.variable_name@, v) }

// ---- text functions
/// an excerpt: `out` has been taken so far, `s` is unread, `tag` is inside a tag
pub open spec fn excerpt_from(s: Seq<char>, out: Seq<char>, tag: bool, n: int) -> Seq<char> decreases s.len() {
    if utf8(out).len() >= n || s.len() == 0 { if s.len() > 0 { out + "..."@ } else { out } }
    else if s[0] == '<' { excerpt_from(s.skip(1), out, true, n) }
    else if s[0] == '>' { excerpt_from(s.skip(1), out, false, n) }
    else if tag { excerpt_from(s.skip(1), out, tag, n) }
    else { excerpt_from(s.skip(1), out.push(s[0]), tag, n) }
}
pub open spec fn excerpt_text(s: Seq<char>, n: int) -> Seq<char> { excerpt_from(s, Seq::empty(), false, n) }
pub open spec fn reading_minutes(s: Seq<char>) -> int { if words(s).len() / 200 >= 1 { (words(s).len() / 200) as int } else { 1 } }
/// chrono and dateparser: the text of a date in a format, if the text is a date
#[verifier::opaque] pub open spec fn date_text(s: Seq<char>, format: Seq<char>) -> Option<Seq<char>> { match date_read(s, 0, 0, 0) { Some(d) => date_shown(d, format), None => None } }
pub open spec fn date_is(z: Result<String, ProcessError>, s: Seq<char>, format: Seq<char>) -> bool { match z { Ok(t) => date_text(s, format) == Some(t@), Err(_) => date_text(s, format) is None } }
/// what the work on a date returns; it is an error when the work panics, and a text of which that is so has no date
#[verifier::external_body] pub fn catch_unwind<F: FnOnce() -> Result<String, ProcessError>>(f: F) -> (r: Result<Result<String, ProcessError>, VxUnwound>)
    requires guarded() ==> f.requires(())
    ensures r is Ok ==> f.ensures((), r->Ok_0), r is Err ==> forall|s: Seq<char>, m: Seq<char>| (forall|z: Result<String, ProcessError>| #[trigger] f.ensures((), z) ==> date_is(z, s, m)) ==> (#[trigger] date_text(s, m)) is None
{ unimplemented!() }

// ---- skipping a block
pub open spec fn tok_name(t: LocatableToken) -> Option<Seq<char>> { match t.inner { Token::Function(f) => Some(fn_name(**f)), _ => None } }
/// the position after the `end` which closes the innermost of `depth` open blocks, counted from position i
pub open spec fn skip_from(toks: Seq<LocatableToken>, i: int, depth: int) -> Option<int> decreases toks.len() - i {
    if depth <= 0 { Some(i) } else if i < 0 || i >= toks.len() { None } else {
        let n = tok_name(toks[i]);
        skip_from(toks, i + 1, if n == Some("end"@) { depth - 1 } else if n is Some && block_name(n->0) { depth + 1 } else { depth }) }
}

// ---- tokens and functions
pub uninterp spec fn plugin_exec(p: VxPluginFunction, c: Cx, s: St) -> Res;

pub open spec fn gap(c: Cx, i: int) -> int { if i <= c.toks.len() { c.toks.len() - i } else { 0 } }

/// a token, the position already past it
pub open spec fn sem_tok(c: Cx, t: LocatableToken, s: St) -> Res decreases gap(c, s.idx), 4int, 0int {
    match t.inner {
        Token::Raw(r) => Ok(St { stack: put(s.stack, utf8(r@)), ..s }),
        Token::Variable(v) => match var(s.stack, v@) { Some(Value::String(x)) => Ok(St { stack: put(s.stack, utf8(x@)), ..s }), _ => Err(tat(t)) },
        Token::Function(f) => sem_fn(c, **f, s),
    }
}
pub open spec fn here(c: Cx, s: St) -> At { tat(c.toks[s.idx - 1]) }
pub open spec fn sem_cond(c: Cx, o: Op, name: Seq<char>, i1: Input, i2: Input, s: St) -> Res decreases gap(c, s.idx), 2int, 0int {
    if input_value(i1, s.stack) is None || input_value(i2, s.stack) is None { Err(here(c, s)) }
    else {
        sem_branch(c, s.stack.len() as int, compare(o, input_value(i1, s.stack)->0, input_value(i2, s.stack)->0), here(c, s),
            St { stack: s.stack.push(frame(name + ":"@ + input_text(i1) + ":"@ + input_text(i2))), ..s })
    }
}
pub open spec fn sem_begin(f: BeginFunction, s: St) -> Res { Ok(St { stack: s.stack.push(frame("begin:"@ + f.label@)), ..s }) }
pub open spec fn sem_end(c: Cx, f: EndFunction, s: St) -> Res {
    let top = s.stack.last(); let under = s.stack.drop_last();
    if s.stack.len() < 2 { Err(here(c, s)) }
    else if f.custom {
        if top.name@ != "begin:"@ + f.label@ { Err(here(c, s)) }
        else { Ok(St { stack: put(under, top.output@), secs: s.secs.push((f.label, top.output)), ..s }) }
    } else {
        if !is_prefix(f.label@ + ":"@, top.name@) { Err(here(c, s)) }
        else { Ok(St { stack: put(under, top.output@), ..s }) }
    }
}
pub open spec fn sem_else(c: Cx, s: St) -> Res { if s.stack.len() > 0 && is_prefix("if"@, s.stack.last().name@) { Ok(s) } else { Err(here(c, s)) } }
pub open spec fn sem_ifdefined(c: Cx, f: IfDefinedFunction, s: St) -> Res decreases gap(c, s.idx), 2int, 0int {
    let d = match var(s.stack, f.variable_name@) { None => false, Some(Value::Null) => false, _ => true };
    sem_branch(c, s.stack.len() as int, d, here(c, s), St { stack: s.stack.push(frame("ifdefined:"@ + f.variable_name@)), ..s })
}
pub open spec fn sem_import(c: Cx, f: ImportFunction, s: St) -> Res {
    match node_of(c, f.file_name@) {
        Some(Node::File { parsed_contents, .. }) => match parsed_contents {
            ParsedContents::Json(v) =>
                if s.stack.len() == 0 || frame_var(s.stack.last(), f.variable_name@) is Some { Err(here(c, s)) }
                else { Ok(St { stack: s.stack.drop_last().push(frame_with(s.stack.last(), f.variable_name@, v)), ..s }) },
            _ => Err(here(c, s)) },
        _ => Err(here(c, s)) }
}
/// the first section of a name, or -1
pub open spec fn sec_from(secs: Seq<(String, Vec<u8>)>, n: Seq<char>, i: int) -> int decreases secs.len() - i {
    if i < 0 || i >= secs.len() { -1 } else if secs[i].0@ == n { i } else { sec_from(secs, n, i + 1) }
}
pub open spec fn section(secs: Seq<(String, Vec<u8>)>, n: Seq<char>) -> Option<Seq<u8>> { if sec_from(secs, n, 0) >= 0 { Some(secs[sec_from(secs, n, 0)].1@) } else { None } }
pub open spec fn sem_insert(c: Cx, f: InsertFunction, s: St) -> Res {
    match section(s.secs, f.label@) { Some(b) => if s.stack.len() > 0 { Ok(St { stack: put(s.stack, b), ..s }) } else { Err(here(c, s)) }, None => Err(here(c, s)) }
}
/// a function which writes a text made of a text variable
pub open spec fn sem_text(c: Cx, name: Seq<char>, text: spec_fn(Seq<char>) -> Option<Seq<char>>, s: St) -> Res {
    match var(s.stack, name) {
        Some(Value::String(x)) => match text(x@) { Some(t) => if s.stack.len() > 0 { Ok(St { stack: put(s.stack, utf8(t)), ..s }) } else { Err(here(c, s)) }, None => Err(here(c, s)) },
        _ => Err(here(c, s)) }
}
pub open spec fn sem_excerpt(c: Cx, f: ExcerptFunction, s: St) -> Res { sem_text(c, f.variable_name@, |x: Seq<char>| Some(excerpt_text(x, f.length as int)), s) }
pub open spec fn sem_ttr(c: Cx, f: TimeToReadFunction, s: St) -> Res { sem_text(c, f.variable_name@, |x: Seq<char>| Some(dec(reading_minutes(x))), s) }
pub open spec fn sem_date(c: Cx, f: DateFormatFunction, s: St) -> Res { sem_text(c, f.variable_name@, |x: Seq<char>| date_text(x, f.format@), s) }

pub open spec fn sem_for(c: Cx, f: ForFunction, s: St) -> Res decreases gap(c, s.idx), 2int, 0int {
    match for_values(c, f, s.stack) {
        None => Err(here(c, s)),
        Some(v) =>
            if v.len() == 0 { match skip_from(c.toks, s.idx, 1) { Some(j) => Ok(St { idx: j, ..s }), None => Err(here(c, s)) } }
            else { sem_each(c, f, v, s.idx, here(c, s), s) },
    }
}
/// the rest of a loop: its body once for every value left, each time from the position after the call
pub open spec fn sem_each(c: Cx, f: ForFunction, v: Seq<Value>, w: int, at: At, s: St) -> Res decreases gap(c, w), 1int, v.len() {
    if v.len() == 0 { Ok(s) } else {
        match sem_body(c, s.stack.len() as int, at, St { idx: w, stack: s.stack.push(for_frame(f, v[0])), ..s }) {
            Err(e) => Err(e),
            Ok(s2) => sem_each(c, f, v.skip(1), w, at, s2),
        } }
}
/// tokens until the stack is back to its height
pub open spec fn sem_body(c: Cx, h: int, at: At, s: St) -> Res decreases gap(c, s.idx), 0int, 0int {
    if s.stack.len() <= h { Ok(s) }
    else if s.idx < 0 || s.idx >= c.toks.len() { Err(at) }
    else {
        match sem_tok(c, c.toks[s.idx], St { idx: s.idx + 1, ..s }) {
            Err(e) => Err(e),
            Ok(s2) => if s2.idx <= s.idx || s2.idx > c.toks.len() { Err(at) } else { sem_body(c, h, at, s2) },
        } }
}
/// the two branches of a conditional: the tokens of the one not taken are passed over, a block in it as a whole
pub open spec fn sem_branch(c: Cx, h: int, taken: bool, at: At, s: St) -> Res decreases gap(c, s.idx), 0int, 0int {
    if s.stack.len() <= h { Ok(s) }
    else if s.idx < 0 || s.idx >= c.toks.len() { Err(at) }
    else {
        let t = c.toks[s.idx];
        let n = tok_name(t);
        let s1 = St { idx: s.idx + 1, ..s };
        if taken || ((n == Some("end"@) || n == Some("else"@)) && s.stack.len() == h + 1) {
            match sem_tok(c, t, s1) {
                Err(e) => Err(e),
                Ok(s2) => if s2.idx <= s.idx || s2.idx > c.toks.len() { Err(at) }
                    else { sem_branch(c, h, if n == Some("else"@) { !taken } else { taken }, at, s2) },
            }
        } else if n is Some && block_name(n->0) {
            match skip_from(c.toks, s1.idx, 1) {
                None => Err(at),
                Some(j) => if j <= s.idx || j > c.toks.len() { Err(at) } else { sem_branch(c, h, taken, at, St { idx: j, ..s }) },
            }
        } else { sem_branch(c, h, taken, at, s1) }
    }
}
pub open spec fn sem_fn(c: Cx, f: VxDynFunction, s: St) -> Res decreases gap(c, s.idx), 3int, 0int {
    match f {
        VxDynFunction::BeginFunction(f) => sem_begin(f, s),
        VxDynFunction::DateFormatFunction(f) => sem_date(c, f, s),
        VxDynFunction::ElseFunction(f) => sem_else(c, s),
        VxDynFunction::EndFunction(f) => sem_end(c, f, s),
        VxDynFunction::ExcerptFunction(f) => sem_excerpt(c, f, s),
        VxDynFunction::ForFunction(f) => sem_for(c, f, s),
        VxDynFunction::IfDefinedFunction(f) => sem_ifdefined(c, f, s),
        VxDynFunction::ImportFunction(f) => sem_import(c, f, s),
        VxDynFunction::InsertFunction(f) => sem_insert(c, f, s),
        VxDynFunction::TimeToReadFunction(f) => sem_ttr(c, f, s),
        VxDynFunction::IfeqFunction(f) => sem_cond(c, Op::Eq, "ifeq"@, f.input_1, f.input_2, s),
        VxDynFunction::IfneFunction(f) => sem_cond(c, Op::Ne, "ifne"@, f.input_1, f.input_2, s),
        VxDynFunction::IfgtFunction(f) => sem_cond(c, Op::Gt, "ifgt"@, f.input_1, f.input_2, s),
        VxDynFunction::IfgeFunction(f) => sem_cond(c, Op::Ge, "ifge"@, f.input_1, f.input_2, s),
        VxDynFunction::IfltFunction(f) => sem_cond(c, Op::Lt, "iflt"@, f.input_1, f.input_2, s),
        VxDynFunction::IfleFunction(f) => sem_cond(c, Op::Le, "ifle"@, f.input_1, f.input_2, s),
        VxDynFunction::Plugin(p) => plugin_exec(p, c, s),
    }
}
/// a whole template from a position
pub open spec fn sem_all(c: Cx, s: St) -> Res decreases gap(c, s.idx), 0int, 0int {
    if s.idx < 0 || s.idx >= c.toks.len() { Ok(s) } else {
        match sem_tok(c, c.toks[s.idx], St { idx: s.idx + 1, ..s }) {
            Err(e) => Err(e),
            Ok(s2) => if s2.idx <= s.idx || s2.idx > c.toks.len() { Err(tat(c.toks[s.idx])) } else { sem_all(c, s2) },
        } }
}

// ---- the scope of an execution
pub open spec fn cx(s: Scope) -> Cx { Cx { toks: s.tokens.tokens@, input: s.processor.input } }
pub open spec fn st(s: Scope) -> St { St { idx: s.tokens.index as int, stack: s.stack@, secs: s.sections@ } }
pub open spec fn scope_ok(s: Scope) -> bool { st_ok(cx(s), st(s)) && s.processor.input is Some && toks_ok(cx(s).toks) }
/// the length of an excerpt comes from a 32-bit argument
pub open spec fn fn_ok(f: VxDynFunction) -> bool { match f { VxDynFunction::ExcerptFunction(e) => e.length <= i32::MAX, _ => true } }
pub open spec fn tok_ok(t: LocatableToken) -> bool { match t.inner { Token::Function(f) => fn_ok(**f), _ => true } }
pub open spec fn toks_ok(t: Seq<LocatableToken>) -> bool { forall|i: int| 0 <= i < t.len() ==> tok_ok(#[trigger] t[i]) }
/// the same processor, the same tokens, the same borrowed places
#[verifier::prophetic]
pub open spec fn keeps(a: Scope, b: Scope) -> bool {
    &&& b.processor == a.processor
    &&& b.tokens.tokens == a.tokens.tokens
    &&& *final(b.tokens) == *final(a.tokens)
    &&& *final(b.stack) == *final(a.stack)
    &&& *final(b.sections) == *final(a.sections)
}
pub open spec fn ran(a: Scope, b: Scope, r: Result<(), TracebackError<ProcessError>>, m: Res) -> bool {
    &&& r is Ok == m is Ok
    &&& r is Ok ==> st(b) == m->Ok_0
    &&& r is Err ==> eat(r->Err_0) == m->Err_0
}
