// ================================================================= lexing: the meaning of a template text

pub struct Loc { pub line: int, pub col: int, pub nl: int, pub nc: int }
/// the position after consuming one character
pub open spec fn loc_step(l: Loc, c: char) -> Loc {
    Loc { line: l.nl, col: l.nc, nl: if c == '\n' { l.nl + 1 } else { l.nl },
          nc: if c == '\n' { 0 } else if c == '\r' { l.nc } else { l.nc + 1 } }
}
pub struct PS { pub rest: Seq<char>, pub loc: Loc }
pub open spec fn step(p: PS) -> PS { PS { rest: p.rest.skip(1), loc: loc_step(p.loc, p.rest[0]) } }
/// p after consuming n characters
pub open spec fn adv(p: PS, n: int) -> PS decreases n { if n <= 0 { p } else { step(adv(p, n - 1)) } }
pub open spec fn ps(p: Parser) -> PS {
    PS { rest: p.chars@, loc: Loc { line: p.line as int, col: p.column as int, nl: p.next_line as int, nc: p.next_column as int } }
}
pub open spec fn fits(p: PS) -> bool { p.loc.nl >= 0 && p.loc.nc >= 0 && p.loc.nl + p.rest.len() <= u32::MAX && p.loc.nc + p.rest.len() <= u32::MAX }
pub open spec fn fits2(p: PS) -> bool { p.loc.nl >= 0 && p.loc.nc >= 0 && p.loc.nl + 2 * p.rest.len() <= u32::MAX && p.loc.nc + 2 * p.rest.len() <= u32::MAX }
/// templates are shorter than 2^31 characters (assumed where files are read)
pub open spec fn text_ok(s: Seq<char>) -> bool { s.len() < 0x7fff_fff0 }

pub proof fn lemma_adv(p: PS, n: int)
    requires 0 <= n <= p.rest.len()
    ensures adv(p, n).rest == p.rest.skip(n), fits(p) ==> fits(adv(p, n)), fits2(p) ==> fits2(adv(p, n)),
        p.loc.nl <= adv(p, n).loc.nl <= p.loc.nl + n, p.loc.nc >= 0 ==> 0 <= adv(p, n).loc.nc <= p.loc.nc + n,
        n < p.rest.len() ==> adv(p, n).rest.len() > 0 && adv(p, n).rest[0] == p.rest[n]
    decreases n
{
    if n > 0 {
        lemma_adv(p, n - 1);
        assert(adv(p, n - 1).rest.skip(1) =~= p.rest.skip(n));
    } else { assert(p.rest.skip(0) =~= p.rest); }
}

pub proof fn lemma_fits2(p: PS) ensures fits2(p) ==> fits(p) { }
pub proof fn lemma_step(p: PS)
    requires p.rest.len() > 0
    ensures fits(p) ==> fits(step(p)), fits2(p) ==> fits2(step(p)), step(p).rest.len() + 1 == p.rest.len()
{ }

// ---- raw text
pub open spec fn brace2() -> Seq<char> { seq!['{', '{'] }
/// an opening that is not escaped by the character before it
pub open spec fn opens(s: Seq<char>, i: int) -> bool {
    0 <= i && i + 2 <= s.len() && s[i] == '{' && s[i + 1] == '{' && !(i > 0 && s[i - 1] == '\\')
}
/// the first unescaped opening at or after i, or -1
pub open spec fn open_from(s: Seq<char>, i: int) -> int decreases s.len() + 1 - i {
    if i < 0 || i + 2 > s.len() { -1 } else if opens(s, i) { i } else { open_from(s, i + 1) }
}
pub proof fn lemma_open_from(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j, forall|k: int| i <= k < j ==> !#[trigger] opens(s, k)
    ensures opens(s, j) ==> open_from(s, i) == j, j + 1 >= s.len() ==> open_from(s, i) == -1
    decreases j - i
{
    if i + 2 > s.len() { } else if i < j { assert(!opens(s, i)); lemma_open_from(s, i + 1, j); }
}
pub proof fn lemma_open_from_range(s: Seq<char>, i: int)
    requires 0 <= i
    ensures open_from(s, i) >= 0 ==> i <= open_from(s, i) && opens(s, open_from(s, i)), open_from(s, i) >= -1
    decreases s.len() + 1 - i
{ if i + 2 <= s.len() && !opens(s, i) { lemma_open_from_range(s, i + 1); } }
/// the text a raw stretch stands for: an escaped opening becomes the opening
pub open spec fn unesc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s }
    else if s.len() >= 3 && s.last() == '{' && s[s.len() - 2] == '{' && s[s.len() - 3] == '\\' { unesc(s.take(s.len() - 3)) + brace2() }
    else { unesc(s.drop_last()).push(s.last()) }
}
pub proof fn lemma_unesc_last(s: Seq<char>)
    ensures s.len() > 0 ==> unesc(s).len() > 0 && unesc(s).last() == s.last(), s.len() == 0 ==> unesc(s).len() == 0
{ }
/// one more character read: what `unesc` of the longer stretch is
pub proof fn lemma_unesc_push(t: Seq<char>, c: char)
    ensures
        ({
            let u = unesc(t).push(c);
            let esc = u.len() >= 3 && u[u.len() - 1] == '{' && u[u.len() - 2] == '{' && u[u.len() - 3] == '\\';
            let n = t.len();
            &&& esc <==> (c == '{' && n >= 2 && t[n - 1] == '{' && t[n - 2] == '\\')
            &&& esc ==> unesc(t.push(c)) == u.remove(u.len() - 3)
            &&& !esc ==> unesc(t.push(c)) == u
            &&& (u.len() >= 2 && u[u.len() - 1] == '{' && u[u.len() - 2] == '{') <==> (c == '{' && n >= 1 && t[n - 1] == '{')
        })
{
    let n = t.len() as int;
    let s = t.push(c);
    let u = unesc(t).push(c);
    lemma_unesc_last(t);
    assert(s.drop_last() =~= t);
    if n >= 1 {
        let t1 = t.drop_last();
        lemma_unesc_last(t1);
        if n >= 3 && t.last() == '{' && t[n - 2] == '{' && t[n - 3] == '\\' {
            assert(u[u.len() - 3] == '{');
        } else {
            assert(unesc(t) == unesc(t1).push(t.last()));
            if t1.len() > 0 { assert(u[u.len() - 3] == t1.last()); } else { assert(u.len() == 2); }
        }
        if c == '{' && n >= 2 && t[n - 1] == '{' && t[n - 2] == '\\' {
            let t2 = t1.drop_last();
            assert(s.take(s.len() - 3) =~= t2);
            assert(unesc(t1) == unesc(t2).push('\\'));
            assert(u.remove(u.len() - 3) =~= unesc(t2) + brace2());
        }
    }
}

// ---- runs of characters
/// 0: blanks, 1: characters of a function name, 2: characters of a variable reference
pub open spec fn cls(k: int, c: char) -> bool {
    if k == 0 { char_ws(c) } else if k == 1 { char_alnum(c) || c == '_' || c == ':' } else { char_alnum(c) || c == '_' || c == '.' }
}
pub open spec fn run_ps(p: PS, k: int) -> PS decreases p.rest.len() {
    if p.rest.len() > 0 && cls(k, p.rest[0]) { run_ps(step(p), k) } else { p }
}
pub open spec fn run_text(s: Seq<char>, k: int) -> Seq<char> decreases s.len() {
    if s.len() > 0 && cls(k, s[0]) { seq![s[0]] + run_text(s.skip(1), k) } else { Seq::empty() }
}
/// an argument ends at the first comma or closing parenthesis outside quotation marks
pub open spec fn arg_more(q: bool, c: char) -> bool { (if c == '"' { !q } else { q }) || (c != ')' && c != ',') }
pub open spec fn arg_q(q: bool, c: char) -> bool { if c == '"' { !q } else { q } }
pub open spec fn arg_ps(p: PS, q: bool) -> PS decreases p.rest.len() {
    if p.rest.len() > 0 && arg_more(q, p.rest[0]) { arg_ps(step(p), arg_q(q, p.rest[0])) } else { p }
}
pub open spec fn arg_text(s: Seq<char>, q: bool) -> Seq<char> decreases s.len() {
    if s.len() > 0 && arg_more(q, s[0]) { seq![s[0]] + arg_text(s.skip(1), arg_q(q, s[0])) } else { Seq::empty() }
}

pub proof fn lemma_run_ps(p: PS, k: int)
    ensures run_ps(p, k).rest.len() <= p.rest.len(), fits(p) ==> fits(run_ps(p, k)), fits2(p) ==> fits2(run_ps(p, k)),
        p.rest.len() > 0 && cls(k, p.rest[0]) ==> run_ps(p, k).rest.len() < p.rest.len(),
        run_text(p.rest, k).len() + run_ps(p, k).rest.len() == p.rest.len()
    decreases p.rest.len()
{ if p.rest.len() > 0 && cls(k, p.rest[0]) { lemma_run_ps(step(p), k); } }
pub proof fn lemma_arg_ps(p: PS, q: bool)
    ensures arg_ps(p, q).rest.len() <= p.rest.len(), fits(p) ==> fits(arg_ps(p, q)), fits2(p) ==> fits2(arg_ps(p, q)),
        arg_ps(p, q).rest.len() > 0 ==> arg_ps(p, q).rest[0] == ')' || arg_ps(p, q).rest[0] == ','
    decreases p.rest.len()
{ if p.rest.len() > 0 && arg_more(q, p.rest[0]) { lemma_arg_ps(step(p), arg_q(q, p.rest[0])); } }

// ---- results
/// kind None: an error of unspecified kind
pub struct LexErr { pub line: int, pub col: int, pub kind: Option<ParseError> }
pub open spec fn mkerr(p: PS, k: ParseError) -> LexErr { LexErr { line: p.loc.line, col: p.loc.col, kind: Some(k) } }
pub open spec fn err_is(e: TracebackError<ParseError>, x: LexErr) -> bool { e.line == x.line && e.column == x.col && kind_is(e.kind, x.kind) }
pub open spec fn kind_is(k: ParseError, x: Option<ParseError>) -> bool { match x { Some(y) => k == y, None => true } }
pub open spec fn expect_ps(p: PS, s: Seq<char>, i: int) -> Result<PS, LexErr> decreases s.len() - i {
    if i >= s.len() { Ok(p) }
    else if p.rest.len() == 0 { Err(mkerr(p, ParseError::UnexpectedEOF)) }
    else if p.rest[0] != s[i] { Err(mkerr(step(p), ParseError::Expected(vx_string(s)))) }
    else { expect_ps(step(p), s, i + 1) }
}
pub proof fn lemma_expect_ps(p: PS, s: Seq<char>, i: int)
    requires 0 <= i
    ensures expect_ps(p, s, i) is Ok ==> expect_ps(p, s, i)->Ok_0.rest.len() + s.len() <= p.rest.len() + i || i >= s.len(),
        expect_ps(p, s, i) is Ok && i >= s.len() ==> expect_ps(p, s, i)->Ok_0 == p,
        expect_ps(p, s, i) is Ok && fits2(p) ==> fits2(expect_ps(p, s, i)->Ok_0)
    decreases s.len() - i
{ if i < s.len() && p.rest.len() > 0 && p.rest[0] == s[i] { lemma_expect_ps(step(p), s, i + 1); } }

pub enum TokRes { Ok(Token, PS), Err(LexErr) }

pub open spec fn lex_var(p: PS) -> TokRes {
    match expect_ps(p, seq!['$'], 0) {
        Err(e) => TokRes::Err(e),
        Ok(q) => {
            let name = run_text(q.rest, 2);
            if name.len() == 0 { TokRes::Err(mkerr(run_ps(q, 2), ParseError::InvalidVariableName(vx_string("<empty>"@)))) }
            else { TokRes::Ok(Token::Variable(vx_string(name)), run_ps(q, 2)) }
        }
    }
}

/// a single argument
pub open spec fn all_cls(s: Seq<char>, k: int) -> bool { forall|i: int| 0 <= i < s.len() ==> cls(k, #[trigger] s[i]) }
pub open spec fn quoted(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '"' && s.last() == '"' }
pub open spec fn raw_arg(s: Seq<char>) -> Result<RawArgument, ParseError> {
    if s.len() > 0 && s[0] == '$' {
        if all_cls(s.skip(1), 2) { Ok(RawArgument::Variable(vx_string(s.skip(1)))) } else { Err(ParseError::InvalidVariableName(vx_string(s.skip(1)))) }
    } else if quoted(s) {
        if s.subrange(1, s.len() - 1).contains('"') { Err(ParseError::GenericSyntaxError) } else { Ok(RawArgument::String(vx_string(s.subrange(1, s.len() - 1)))) }
    } else if parse_int(s) is Some && i32::MIN <= parse_int(s)->0 <= i32::MAX { Ok(RawArgument::Integer(parse_int(s)->0 as i32)) }
    else if builtin(s) is Some { Ok(RawArgument::Ident(vx_string(s))) }
    else { Err(ParseError::GenericSyntaxError) }
}

pub proof fn lemma_occurs_char(s: Seq<char>, c: char)
    ensures occurs(seq![c], s) == s.contains(c)
{
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.subrange(i, i + 1) =~= seq![c]); assert(occurs_at(seq![c], s, i)); }
    if occurs(seq![c], s) { let i = choose|i: int| #[trigger] occurs_at(seq![c], s, i); assert(s.subrange(i, i + 1)[0] == c); assert(s[i] == c); }
}
pub proof fn lemma_quoted(s: Seq<char>)
    requires s.len() >= 1, is_prefix(seq!['"'], s), is_suffix(seq!['"'], s), utf8(s).len() >= 2
    ensures s.len() >= 2, is_suffix(seq!['"'], s.skip(1)), s.skip(1).take(s.skip(1).len() - 1) == s.subrange(1, s.len() - 1),
{
    assert(s.take(1)[0] == s[0]);
    if s.len() == 1 { assert(s =~= seq!['"']); lemma_utf8_one('"'); }
    assert(s.skip(1).skip(s.skip(1).len() - 1) =~= s.skip(s.len() - 1));
    assert(s.skip(1).take(s.skip(1).len() - 1) =~= s.subrange(1, s.len() - 1));
}
pub proof fn lemma_prefix_char(s: Seq<char>, c: char)
    ensures is_prefix(seq![c], s) == (s.len() > 0 && s[0] == c), is_suffix(seq![c], s) == (s.len() > 0 && s.last() == c)
{
    if s.len() > 0 { assert(s.take(1) =~= seq![s[0]]); assert(s.skip(s.len() - 1) =~= seq![s.last()]); assert(seq![s[0]][0] == s[0]);
        assert(seq![c][0] == c); assert(seq![s.last()][0] == s.last()); }
}

/// characters allowed in the name of a named argument
pub open spec fn arg_name_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> char_alnum(#[trigger] s[i]) || s[i] == '_' }

pub enum ArgsRes { Ok(Seq<RawArgument>, Seq<(String, RawArgument)>, PS), Err(LexErr) }
pub open spec fn lift_err(p: PS, k: ParseError) -> ArgsRes { ArgsRes::Err(mkerr(p, k)) }
pub open spec fn index_of_char(s: Seq<char>, c: char) -> int { find_str(seq![c], s) }
/// the arguments from p on, with those in pos and named already read
pub open spec fn lex_args(p: PS, pos: Seq<RawArgument>, named: Seq<(String, RawArgument)>) -> ArgsRes decreases p.rest.len(), 1int {
    let p1 = run_ps(p, 0);
    let arg = trim(arg_text(p1.rest, false));
    let p2 = arg_ps(p1, false);
    if arg.len() > 0 && arg[0] != '"' && arg.contains('=') {
        let i = index_of_char(arg, '=');
        let name = arg.take(i);
        let value = arg.skip(i + 1);
        if name.len() == 0 || value.len() == 0 || !arg_name_ok(name) { lift_err(p2, ParseError::GenericSyntaxError) }
        else { match raw_arg(value) {
            Err(k) => lift_err(p2, k),
            Ok(a) => lex_args_sep(p, p2, pos, named.push((vx_string(name), a))),
        } }
    } else if arg.len() > 0 {
        if named.len() > 0 { lift_err(p2, ParseError::PositionalArgAfterNamedArg) }
        else { match raw_arg(arg) {
            Err(k) => lift_err(p2, k),
            Ok(a) => lex_args_sep(p, p2, pos.push(a), named),
        } }
    } else { lex_args_sep(p, p2, pos, named) }
}
/// after an argument: a comma or the closing parenthesis
pub open spec fn lex_args_sep(p: PS, p2: PS, pos: Seq<RawArgument>, named: Seq<(String, RawArgument)>) -> ArgsRes decreases p.rest.len(), 0int {
    if p2.rest.len() == 0 { lift_err(p2, ParseError::UnexpectedEOF) }
    else if p2.rest[0] == ')' { ArgsRes::Ok(pos, named, step(p2)) }
    else if p2.rest.len() > p.rest.len() { arbitrary() }
    else { lex_args(step(p2), pos, named) }
}

pub open spec fn mkraw(name: Seq<char>, pos: Seq<RawArgument>, named: Seq<(String, RawArgument)>) -> RawFunction {
    RawFunction { name: vx_string(name), positional_args: vx_vec(pos), named_args: vx_vec(named) }
}
/// the function a call stands for: a built-in function first, then the first plugin function of that name
pub open spec fn resolve(raw: RawFunction, plugins: Option<&VxDynManager>, at: Loc, p: PS) -> TokRes {
    let parser = match builtin(raw.name@) { Some(b) => Some(b), None => plugin_fn(plugins, raw.name@) };
    match parser {
        Some(b) => match fp_parse(b, raw) {
            Some(f) => TokRes::Ok(Token::Function(vx_rcbox(f)), p),
            None => TokRes::Err(LexErr { line: p.loc.line, col: p.loc.col, kind: None }),
        },
        None => TokRes::Err(LexErr { line: at.line, col: at.col, kind: Some(ParseError::NonexistentFunction(raw.name)) }),
    }
}
pub open spec fn lex_fn(p: PS, plugins: Option<&VxDynManager>) -> TokRes {
    let name = run_text(p.rest, 1);
    let p1 = run_ps(p, 1);
    if name.len() == 0 { TokRes::Err(mkerr(p1, ParseError::InvalidFunctionName(vx_string("<empty>"@)))) }
    else { match expect_ps(run_ps(p1, 0), seq!['('], 0) {
        Err(e) => TokRes::Err(e),
        Ok(p2) => match lex_args(p2, Seq::empty(), Seq::empty()) {
            ArgsRes::Err(e) => TokRes::Err(e),
            ArgsRes::Ok(pos, named, p3) => resolve(mkraw(name, pos, named), plugins, p.loc, run_ps(p3, 0)),
        },
    } }
}

pub enum LexRes { Ok(Seq<LocatableToken>), Err(LexErr) }
pub open spec fn raw_tok(text: Seq<char>, path: Path, line: int, col: int) -> LocatableToken {
    LocatableToken { inner: Token::Raw(vx_string(text)), path: path, line: line as u32, column: col as u32 }
}
pub open spec fn push_raw(acc: Seq<LocatableToken>, text: Seq<char>, path: Path, line: int, col: int) -> Seq<LocatableToken> {
    if text.len() == 0 { acc } else { acc.push(raw_tok(text, path, line, col)) }
}
/// the text before the opening at i
pub open spec fn raw_before(s: Seq<char>, i: int) -> Seq<char> { unesc(s.take(i + 2)).take(unesc(s.take(i + 2)).len() - 2) }
pub open spec fn lex_tag(p: PS, plugins: Option<&VxDynManager>) -> TokRes {
    if p.rest.len() == 0 { TokRes::Err(mkerr(p, ParseError::UnexpectedEOF)) }
    else if p.rest[0] == '$' { lex_var(p) }
    else { lex_fn(p, plugins) }
}
/// the tokens of a template from p on; (line, col) is where the text since the last tag began
pub open spec fn lex(p: PS, acc: Seq<LocatableToken>, line: int, col: int, path: Path, plugins: Option<&VxDynManager>) -> LexRes decreases p.rest.len() {
    let i = open_from(p.rest, 0);
    if i < 0 { LexRes::Ok(push_raw(acc, replace(p.rest, "\\{{"@, "{{"@), path, line, col)) }
    else {
        let acc1 = push_raw(acc, raw_before(p.rest, i), path, line, col);
        let p1 = run_ps(adv(p, i + 2), 0);
        match lex_tag(p1, plugins) {
            TokRes::Err(e) => LexRes::Err(e),
            TokRes::Ok(t, p2) => {
                let acc2 = acc1.push(LocatableToken { inner: t, path: path, line: p1.loc.line as u32, column: p1.loc.col as u32 });
                match expect_ps(run_ps(p2, 0), seq!['}', '}'], 0) {
                    Err(e) => LexRes::Err(e),
                    Ok(p3) => if p3.rest.len() < p.rest.len() { lex(p3, acc2, p3.loc.line, p3.loc.col, path, plugins) } else { arbitrary() },
                }
            }
        }
    }
}
pub open spec fn start_ps(s: Seq<char>) -> PS { PS { rest: s, loc: Loc { line: 1, col: 1, nl: 1, nc: 1 } } }
/// the tokens of a template text
pub open spec fn lex_text(s: Seq<char>, path: Path, plugins: Option<&VxDynManager>) -> LexRes { lex(start_ps(s), Seq::empty(), 1, 1, path, plugins) }

// ---- bytes of the braces
pub proof fn lemma_utf8_one(c: char) ensures utf8(seq![c]) == cbytes(c)
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(utf8(Seq::<char>::empty()) + cbytes(c) =~= cbytes(c)); assert(seq![c].last() == c); }
pub proof fn lemma_utf8_brace() ensures utf8(brace2()).len() == 2
{ lemma_utf8_one('{'); assert(brace2().drop_last() =~= seq!['{']); }
pub proof fn lemma_utf8_tail(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures utf8(s) == utf8(s.take(s.len() - k)) + utf8(s.skip(s.len() - k))
{ lemma_utf8_add(s.take(s.len() - k), s.skip(s.len() - k)); assert(s.take(s.len() - k) + s.skip(s.len() - k) =~= s); }
pub proof fn lemma_utf8_two(s: Seq<char>)
    requires s.len() == 2, is_suffix(brace2(), s)
    ensures utf8(s).len() == 2, at_boundary(s, 0, 0)
{ assert(s.skip(0) =~= s); assert(s == brace2()); lemma_utf8_brace(); assert(s.take(0) =~= Seq::<char>::empty()); }
/// the byte before a trailing `{{` is a backslash exactly when the character is
pub proof fn lemma_utf8_third(s: Seq<char>)
    requires s.len() >= 3, is_suffix(brace2(), s)
    ensures utf8(s).len() >= 3, (utf8(s)[utf8(s).len() - 3] == 92u8) == (s[s.len() - 3] == '\\'),
        s[s.len() - 3] == '\\' ==> at_boundary(s, utf8(s).len() - 3, s.len() - 3),
        at_boundary(s, utf8(s).len() - 2, s.len() - 2),
{
    let n = s.len() as int; let x = s[n - 3];
    lemma_utf8_tail(s, 2); lemma_utf8_brace();
    let t = s.take(n - 2);
    assert(t.last() == x && t.drop_last() =~= s.take(n - 3));
    assert(utf8(t) == utf8(s.take(n - 3)) + cbytes(x));
    assert(utf8(s)[utf8(s).len() - 3] == utf8(t).last());
    assert(utf8(t).last() == cbytes(x).last());
    if (x as u32) < 128 { assert(cbytes(x).len() == 1); }
}

/// one more character read while looking for an opening
pub proof fn lemma_until(t: Seq<char>, n: int, res1: Seq<char>)
    requires 0 <= n < t.len(), res1 == unesc(t.take(n)).push(t[n]), forall|k: int| 0 <= k < n - 1 ==> !#[trigger] opens(t, k)
    ensures
        !is_suffix(brace2(), res1) ==> unesc(t.take(n + 1)) == res1 && !opens(t, n - 1),
        is_suffix(brace2(), res1) ==> res1.len() >= 2 && utf8(res1).len() >= 2 && at_boundary(res1, utf8(res1).len() - 2, res1.len() - 2),
        is_suffix(brace2(), res1) && utf8(res1).len() > 2 && utf8(res1)[utf8(res1).len() - 3] == 92u8 ==> res1.len() >= 3 && at_boundary(res1, utf8(res1).len() - 3, res1.len() - 3)
            && unesc(t.take(n + 1)) == res1.remove(res1.len() - 3) && !opens(t, n - 1),
        is_suffix(brace2(), res1) && !(utf8(res1).len() > 2 && utf8(res1)[utf8(res1).len() - 3] == 92u8) ==> n >= 1 && open_from(t, 0) == n - 1 && unesc(t.take(n + 1)) == res1,
{
    let c = t[n];
    lemma_unesc_push(t.take(n), c);
    assert(t.take(n + 1) =~= t.take(n).push(c));
    if res1.len() >= 2 {
        lemma_utf8_tail(res1, 2);
        let tl = res1.skip(res1.len() - 2);
        assert(tl[0] == res1[res1.len() - 2] && tl[1] == res1[res1.len() - 1]);
        if tl[0] == '{' && tl[1] == '{' { assert(tl =~= brace2()); }
    }
    if is_suffix(brace2(), res1) {
        lemma_utf8_brace();
        if res1.len() >= 3 { lemma_utf8_third(res1); } else { lemma_utf8_two(res1); }
        if n >= 1 { lemma_open_from(t, 0, n - 1); }
    }
}
