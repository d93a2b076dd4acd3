// ================================================================= front matter and body of a markdown file

/// one line of front matter: a key, a colon, a value in double quotes, blanks around each dropped
pub open spec fn fm_entry(l: Seq<char>) -> Option<(String, String)> {
    let p = find_str(seq![':'], l);
    if p < 0 { None } else {
        let v = trim(l.skip(p + 1));
        if v.len() >= 2 && v[0] == '"' && v.last() == '"' { Some((vx_string(trim(l.take(p))), vx_string(v.subrange(1, v.len() - 1)))) } else { None }
    }
}
/// the front matter from line i on, and the number of the line after its closing line; or the line of the error
pub open spec fn fm_scan(ls: Seq<Seq<char>>, i: int, fm: Seq<(String, String)>) -> Result<(int, Seq<(String, String)>), int> decreases ls.len() - i {
    if i < 0 || i >= ls.len() { Err(ls.len() as int) }
    else if is_prefix("---"@, ls[i]) { Ok((i + 1, fm)) }
    else { match fm_entry(ls[i]) { Some(e) => fm_scan(ls, i + 1, fm.push(e)), None => Err(i + 1) } }
}
pub open spec fn fm_of(s: Seq<char>) -> Result<(int, Seq<(String, String)>), int> {
    if is_prefix("---\n"@, s) || is_prefix("---\r\n"@, s) { fm_scan(lines(s), 1, Seq::empty()) } else { Ok((0, Seq::empty())) }
}
/// the body: the lines after the front matter
pub open spec fn md_body(s: Seq<char>, n: int) -> Seq<char> { join(lines(s).skip(n), "\n"@) }
pub enum MdRes { Ok(Seq<(String, String)>, Seq<LocatableToken>, Seq<char>), Err(LexErr) }
pub open spec fn fm_fail(s: Seq<char>, l: int) -> LexErr { LexErr { line: l, col: 0, kind: None } }
pub open spec fn md_parse(s: Seq<char>, path: Path, plugins: Option<&VxDynManager>) -> MdRes {
    match fm_of(s) {
        Err(l) => MdRes::Err(fm_fail(s, l)),
        Ok((n, fm)) => match lex_text(md_body(s, n), path, plugins) {
            LexRes::Err(e) => MdRes::Err(e),
            LexRes::Ok(t) => MdRes::Ok(fm, t, md_body(s, n)) } }
}
// ---- the body is not longer than the text
pub open spec fn total(v: Seq<Seq<char>>) -> int decreases v.len() { if v.len() == 0 { 0 } else { total(v.drop_last()) + v.last().len() + 1 } }
pub proof fn lemma_total_cons(a: Seq<char>, w: Seq<Seq<char>>) ensures total(seq![a] + w) == a.len() + 1 + total(w) decreases w.len()
{
    reveal_with_fuel(total, 3);
    if w.len() == 0 { assert((seq![a] + w).drop_last() =~= Seq::<Seq<char>>::empty()); assert((seq![a] + w).last() == a); }
    else { lemma_total_cons(a, w.drop_last()); assert((seq![a] + w).drop_last() =~= seq![a] + w.drop_last()); assert((seq![a] + w).last() == w.last()); }
}
pub proof fn lemma_total_lines(s: Seq<char>) ensures total(lines(s)) <= s.len() + 1, lines(s).len() <= s.len() decreases s.len()
{
    if s.len() > 0 {
        let n = first_nl(s);
        lemma_find_from_char('\n', s, 0);
        if n < 0 || n >= s.len() { assert(seq![s] =~= seq![s] + Seq::<Seq<char>>::empty()); lemma_total_cons(s, Seq::empty()); }
        else { lemma_total_lines(s.skip(n + 1)); lemma_total_cons(chomp_cr(s.take(n)), lines(s.skip(n + 1))); }
    }
}
pub proof fn lemma_total_skip(v: Seq<Seq<char>>, n: int) requires 0 <= n <= v.len() ensures total(v.skip(n)) <= total(v), total(v) >= 0 decreases v.len()
{
    if v.len() > 0 {
        if n < v.len() { lemma_total_skip(v.drop_last(), n); assert(v.skip(n).drop_last() =~= v.drop_last().skip(n)); assert(v.skip(n).last() == v.last()); }
        else { lemma_total_skip(v.drop_last(), n - 1); assert(v.skip(n) =~= Seq::<Seq<char>>::empty()); }
    }
}
pub proof fn lemma_join_len(v: Seq<Seq<char>>) ensures join(v, "\n"@).len() + 1 == total(v) || v.len() == 0 decreases v.len()
{
    reveal_strlit("\n"); reveal_with_fuel(total, 3);
    if v.len() == 1 { assert(v.drop_last() =~= Seq::<Seq<char>>::empty()); } else if v.len() > 1 { lemma_join_len(v.drop_last()); }
}
pub proof fn lemma_body_len(s: Seq<char>, n: int) requires 0 <= n <= lines(s).len() ensures md_body(s, n).len() <= s.len()
{
    lemma_total_lines(s); lemma_total_skip(lines(s), n); lemma_join_len(lines(s).skip(n));
}
pub proof fn lemma_first_dashes(s: Seq<char>) requires is_prefix("---\n"@, s) || is_prefix("---\r\n"@, s) ensures lines(s).len() > 0, is_prefix("---"@, lines(s)[0])
{
    reveal_strlit("---\n"); reveal_strlit("---\r\n"); reveal_strlit("---");
    let n = first_nl(s);
    lemma_find_from_char('\n', s, 0);
    if is_prefix("---\n"@, s) {
        assert forall|i: int| 0 <= i < 4 implies s[i] == "---\n"@[i] by { assert(s.take(4)[i] == s[i]); }
        assert(n == 3); assert(chomp_cr(s.take(3)) =~= "---"@);
    } else {
        assert forall|i: int| 0 <= i < 5 implies s[i] == "---\r\n"@[i] by { assert(s.take(5)[i] == s[i]); }
        assert(n == 4); assert(chomp_cr(s.take(4)) =~= "---"@);
    }
    assert(lines(s)[0] =~= "---"@); assert("---"@.take(3) =~= "---"@);
}
pub proof fn lemma_splitn2(l: Seq<char>) ensures
    splitn_pat(l, seq![':'], 2) == (if find_str(seq![':'], l) < 0 { seq![l] } else { seq![l.take(find_str(seq![':'], l)), l.skip(find_str(seq![':'], l) + 1)] })
{
    let p = seq![':'];
    reveal_with_fuel(splitn_pat, 3);
    let i = find_str(p, l);
    if i >= 0 { assert(seq![l.take(i)] + seq![l.skip(i + 1)] =~= seq![l.take(i), l.skip(i + 1)]); }
}
pub proof fn lemma_fm_quoted(v: Seq<char>) ensures
    is_prefix(seq!['"'], v) == (v.len() > 0 && v[0] == '"'),
    v.len() > 0 ==> is_suffix(seq!['"'], v.skip(1)) == (v.len() >= 2 && v.last() == '"'),
    v.len() >= 2 ==> v.skip(1).take(v.skip(1).len() - 1) == v.subrange(1, v.len() - 1),
{
    if v.len() > 0 {
        assert(v.take(1)[0] == v[0]); if v[0] == '"' { assert(v.take(1) =~= seq!['"']); }
        let w = v.skip(1);
        if w.len() > 0 { assert(w.skip(w.len() - 1)[0] == v.last()); if v.last() == '"' { assert(w.skip(w.len() - 1) =~= seq!['"']); } }
    }
    if v.len() >= 2 { assert(v.skip(1).take(v.skip(1).len() - 1) =~= v.subrange(1, v.len() - 1)); }
}
