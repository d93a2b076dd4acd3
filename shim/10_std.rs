// Assumed contracts of the standard library (and a few language-level conversions), as used by /repo.
// Everything `external_body`, `uninterp` or `axiom` in this file is trusted; nothing else is.

// ---------------------------------------------------------------- text and bytes

pub uninterp spec fn vx_string(s: Seq<char>) -> String;
pub uninterp spec fn vx_vec<T>(s: Seq<T>) -> Vec<T>;

/// Two strings (vectors) with the same elements are the same value: capacity is not observable.
pub broadcast axiom fn ax_string_view(s: String) ensures vx_string(#[trigger] s@) == s;
pub broadcast axiom fn ax_view_string(s: Seq<char>) ensures (#[trigger] vx_string(s))@ == s;
pub broadcast axiom fn ax_vec_view<T>(s: Vec<T>) ensures vx_vec(#[trigger] s@) == s;
pub broadcast axiom fn ax_view_vec<T>(s: Seq<T>) ensures (#[trigger] vx_vec(s))@ == s;

pub uninterp spec fn vx_str<'a>(s: Seq<char>) -> &'a str;
pub broadcast axiom fn ax_str_view(s: &str) ensures vx_str(#[trigger] s@) == s;
pub broadcast axiom fn ax_view_str(s: Seq<char>) ensures (#[trigger] vx_str(s))@ == s;

/// UTF-8: one byte below 0x80 for ASCII, otherwise two to four bytes, all of them 0x80 or above.
pub uninterp spec fn cbytes(c: char) -> Seq<u8>;
pub broadcast axiom fn ax_cbytes(c: char)
    ensures
        1 <= (#[trigger] cbytes(c)).len() <= 4,
        (c as u32) < 128 ==> cbytes(c) == seq![c as u8],
        (c as u32) >= 128 ==> cbytes(c).len() >= 2 && (forall|i: int| 0 <= i < cbytes(c).len() ==> cbytes(c)[i] >= 128u8);
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + cbytes(s.last()) }
}
/// text -> bytes is injective (the inverse is a function)
pub uninterp spec fn utf8_inv(b: Seq<u8>) -> Option<Seq<char>>;
pub broadcast axiom fn ax_utf8_inv(s: Seq<char>) ensures utf8_inv(#[trigger] utf8(s)) == Some(s);
pub broadcast axiom fn ax_utf8_inv2(b: Seq<u8>) ensures (#[trigger] utf8_inv(b)) is Some ==> utf8(utf8_inv(b)->0) == b;
/// A Rust allocation holds at most isize::MAX bytes.
pub broadcast axiom fn ax_string_len(s: String) ensures utf8(#[trigger] s@).len() <= isize::MAX;
pub broadcast axiom fn ax_str_len(s: &str) ensures utf8(#[trigger] s@).len() <= isize::MAX;

pub proof fn lemma_utf8_push(s: Seq<char>, c: char)
    ensures utf8(s.push(c)) == utf8(s) + cbytes(c)
{
    assert(s.push(c).drop_last() =~= s);
}
pub proof fn lemma_utf8_add(a: Seq<char>, b: Seq<char>)
    ensures utf8(a + b) == utf8(a) + utf8(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(utf8(a) + utf8(b) =~= utf8(a));
    } else {
        lemma_utf8_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(utf8(a) + (utf8(b.drop_last()) + cbytes(b.last())) =~= (utf8(a) + utf8(b.drop_last())) + cbytes(b.last()));
    }
}
pub proof fn lemma_utf8_len(s: Seq<char>)
    ensures s.len() <= utf8(s).len() <= 4 * s.len()
    decreases s.len()
{
    broadcast use ax_cbytes;
    if s.len() > 0 { lemma_utf8_len(s.drop_last()); }
}

/// anything that is text
pub trait VxSv { spec fn sv(&self) -> Seq<char>; }
impl VxSv for str { open spec fn sv(&self) -> Seq<char> { self@ } }
impl VxSv for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl<T: VxSv + ?Sized> VxSv for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } }
pub trait VxPat { spec fn pat(&self) -> Seq<char>; }
impl VxPat for &str { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
impl VxPat for &String { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
impl VxPat for &&str { open spec fn pat(&self) -> Seq<char> { (**self)@ } }
impl VxPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }

pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub open spec fn occurs_at(p: Seq<char>, s: Seq<char>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
pub open spec fn occurs(p: Seq<char>, s: Seq<char>) -> bool { exists|i: int| #[trigger] occurs_at(p, s, i) }
/// position of the first occurrence of p in s, or -1
pub open spec fn find_from(p: Seq<char>, s: Seq<char>, i: int) -> int decreases s.len() + 1 - i {
    if i < 0 || i + p.len() > s.len() { -1 } else if occurs_at(p, s, i) { i } else { find_from(p, s, i + 1) }
}
pub open spec fn find_str(p: Seq<char>, s: Seq<char>) -> int { find_from(p, s, 0) }
pub uninterp spec fn char_ws(c: char) -> bool;
pub uninterp spec fn char_alnum(c: char) -> bool;
pub broadcast axiom fn ax_char_ws(c: char) ensures (c as u32) < 128 ==> (#[trigger] char_ws(c) <==> (c == ' ' || (9 <= c as u32 && c as u32 <= 13)));
pub broadcast axiom fn ax_char_alnum(c: char)
    ensures (c as u32) < 128 ==> (#[trigger] char_alnum(c) <==> (('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9')));
pub open spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && char_ws(s[0]) { trim_start(s.skip(1)) } else { s }
}
pub open spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && char_ws(s.last()) { trim_end(s.drop_last()) } else { s }
}
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
/// s cut at every occurrence of the character c
pub open spec fn split_char(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else {
        let r = split_char(s.skip(1), c);
        if s[0] == c { seq![Seq::<char>::empty()] + r } else { seq![seq![s[0]] + r[0]] + r.skip(1) }
    }
}
pub uninterp spec fn split_pat(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;
pub broadcast axiom fn ax_split_pat(s: Seq<char>, p: Seq<char>) ensures p.len() == 1 ==> #[trigger] split_pat(s, p) == split_char(s, p[0]);
pub broadcast proof fn lemma_split_char_len(s: Seq<char>, c: char)
    ensures (#[trigger] split_char(s, c)).len() >= 1
    decreases s.len()
{
    if s.len() > 0 { lemma_split_char_len(s.skip(1), c); }
}
/// at most n pieces, cut at the first n-1 occurrences
pub open spec fn splitn_pat(s: Seq<char>, p: Seq<char>, n: nat) -> Seq<Seq<char>> decreases n {
    if n == 0 { Seq::empty() }
    else if n == 1 || find_str(p, s) < 0 { seq![s] }
    else { let i = find_str(p, s); seq![s.take(i)] + splitn_pat(s.skip(i + p.len()), p, (n - 1) as nat) }
}
/// every non-overlapping occurrence of p, from the left, replaced by q
pub open spec fn replace(s: Seq<char>, p: Seq<char>, q: Seq<char>) -> Seq<char> decreases s.len() {
    if p.len() == 0 || s.len() < p.len() { s }
    else if is_prefix(p, s) { q + replace(s.skip(p.len() as int), p, q) }
    else { seq![s[0]] + replace(s.skip(1), p, q) }
}
/// the lines of a text: cut after every newline, without the newline and a carriage return before it
pub open spec fn chomp_cr(l: Seq<char>) -> Seq<char> { if l.len() > 0 && l.last() == '\r' { l.drop_last() } else { l } }
pub open spec fn first_nl(s: Seq<char>) -> int { find_str(seq!['\n'], s) }
pub proof fn lemma_find_from(p: Seq<char>, s: Seq<char>, i: int)
    requires 0 <= i
    ensures
        find_from(p, s, i) >= 0 ==> i <= find_from(p, s, i) && occurs_at(p, s, find_from(p, s, i)),
        forall|j: int| i <= j && (find_from(p, s, i) < 0 || j < find_from(p, s, i)) ==> !#[trigger] occurs_at(p, s, j),
        find_from(p, s, i) >= -1,
    decreases s.len() + 1 - i
{
    if i + p.len() > s.len() { } else if occurs_at(p, s, i) { } else { lemma_find_from(p, s, i + 1); }
}
pub proof fn lemma_find_from_char(c: char, s: Seq<char>, i: int)
    requires 0 <= i
    ensures find_from(seq![c], s, i) < s.len(), find_from(seq![c], s, i) >= -1,
       find_from(seq![c], s, i) >= 0 ==> s[find_from(seq![c], s, i)] == c && find_from(seq![c], s, i) >= i,
       find_from(seq![c], s, i) >= 0 ==> (forall|j: int| i <= j < find_from(seq![c], s, i) ==> s[j] != c),
       find_from(seq![c], s, i) < 0 ==> (forall|j: int| i <= j < s.len() ==> s[j] != c),
    decreases s.len() - i
{
    let p = seq![c];
    if i + 1 > s.len() { }
    else if occurs_at(p, s, i) { assert(s.subrange(i, i + 1)[0] == c); }
    else {
        if s[i] == c { assert(s.subrange(i, i + 1) =~= p); }
        lemma_find_from_char(c, s, i + 1);
    }
}
pub open spec fn lines(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if first_nl(s) < 0 || first_nl(s) >= s.len() { seq![s] }
    else { seq![chomp_cr(s.take(first_nl(s)))] + lines(s.skip(first_nl(s) + 1)) }
}
/// the maximal runs of non-blank characters
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if char_ws(s.last()) { words(s.drop_last()) }
    else if s.len() == 1 || char_ws(s[s.len() - 2]) { words(s.drop_last()).push(seq![s.last()]) }
    else { let w = words(s.drop_last()); if w.len() == 0 { w } else { w.drop_last().push(w.last().push(s.last())) } }
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
/// the number written by decimal digits
pub open spec fn digits_value(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { 10 * digits_value(s.drop_last()) + (s.last() as u32 - '0' as u32) as nat } }
/// what FromStr reads for the unsigned integer types: digits, perhaps after a plus sign
#[verifier::opaque]
pub open spec fn parse_nat(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && all_digits(d) { Some(digits_value(d)) } else { None }
}
/// what FromStr reads for the signed integer types: digits, perhaps after a sign
#[verifier::opaque]
pub open spec fn parse_int(s: Seq<char>) -> Option<int> {
    let neg = s.len() > 0 && s[0] == '-';
    let d = if s.len() > 0 && (s[0] == '+' || s[0] == '-') { s.skip(1) } else { s };
    if d.len() > 0 && all_digits(d) { Some(if neg { -(digits_value(d) as int) } else { digits_value(d) as int }) } else { None }
}
pub open spec fn ascii_lower(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub open spec fn ascii_upper(c: char) -> char { if 'a' <= c && c <= 'z' { (c as u32 - 32) as char } else { c } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
/// the last place at which p occurs in s, -1 without one
pub open spec fn rfind_at(p: Seq<char>, s: Seq<char>, k: int) -> int decreases k + 1 { if k < 0 { -1 } else if is_prefix(p, s.skip(k)) { k } else { rfind_at(p, s, k - 1) } }
pub open spec fn rfind_str(p: Seq<char>, s: Seq<char>) -> int { rfind_at(p, s, s.len() as int) }
/// without p at its end, as many times as it is there
pub open spec fn cut_end(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && is_suffix(p, s) { cut_end(s.take(s.len() - p.len()), p) } else { s } }
pub open spec fn join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn dec_digits(n: int) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { dec_digits(n / 10).push(digit(n % 10)) }
}
pub open spec fn digit(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}
pub open spec fn dec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec_digits(-n) } else { dec_digits(n) } }

pub open spec fn str_seq(v: Seq<&str>) -> Seq<Seq<char>> { v.map(|_i: int, s: &str| s@) }
pub broadcast proof fn lemma_str_seq_skip(v: Seq<&str>, n: int) requires 0 <= n <= v.len() ensures #[trigger] str_seq(v.skip(n)) == str_seq(v).skip(n)
{ assert(str_seq(v.skip(n)) =~= str_seq(v).skip(n)); }
pub broadcast proof fn lemma_str_seq_len(v: Seq<&str>) ensures #[trigger] str_seq(v).len() == v.len() {}

/// without p at its start, as many times as it is there
pub open spec fn cut_start(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && is_prefix(p, s) { cut_start(s.skip(p.len() as int), p) } else { s } }
pub trait VxStr {
    spec fn zv(&self) -> Seq<char>;
    fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) ensures r@ == cut_end(self.zv(), p.pat());
    fn vx_trim_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) ensures r@ == cut_end(cut_start(self.zv(), p.pat()), p.pat());
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) ensures find_str(p.pat(), self.zv()) < 0 ==> r is None,
                find_str(p.pat(), self.zv()) >= 0 ==> r is Some && (r->0) == utf8(self.zv().take(find_str(p.pat(), self.zv()))).len();
    fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) ensures rfind_str(p.pat(), self.zv()) < 0 ==> r is None,
                rfind_str(p.pat(), self.zv()) >= 0 ==> r is Some && (r->0) == utf8(self.zv().take(rfind_str(p.pat(), self.zv()))).len();
    fn vx_rsplit_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) ensures rfind_str(p.pat(), self.zv()) < 0 ==> r is None,
                rfind_str(p.pat(), self.zv()) >= 0 ==> r is Some && (r->0).0@ == self.zv().take(rfind_str(p.pat(), self.zv()))
                    && (r->0).1@ == self.zv().skip(rfind_str(p.pat(), self.zv()) + p.pat().len());
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (self.zv().map_values(|c: char| ascii_lower(c)) == o@.map_values(|c: char| ascii_lower(c)));
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == self.zv().map_values(|c: char| ascii_lower(c));
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == self.zv().map_values(|c: char| ascii_upper(c));
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.zv());
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == upper(self.zv());
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pat(), self.zv());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pat(), self.zv());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == occurs(p.pat(), self.zv());
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures is_prefix(p.pat(), self.zv()) ==> r is Some && (r->0)@ == self.zv().skip(p.pat().len() as int),
                !is_prefix(p.pat(), self.zv()) ==> r is None;
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures is_suffix(p.pat(), self.zv()) ==> r is Some && (r->0)@ == self.zv().take(self.zv().len() - p.pat().len()),
                !is_suffix(p.pat(), self.zv()) ==> r is None;
    fn vx_split<'a, P: VxPat>(&'a self, p: P) -> (r: VxIter<&'a str>) ensures str_seq(r@) == split_pat(self.zv(), p.pat());
    fn vx_splitn<'a, P: VxPat>(&'a self, n: usize, p: P) -> (r: VxIter<&'a str>)
        ensures str_seq(r@) == splitn_pat(self.zv(), p.pat(), n as nat);
    fn vx_split_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>)
        ensures find_str(p.pat(), self.zv()) < 0 ==> r is None,
                find_str(p.pat(), self.zv()) >= 0 ==> r is Some && (r->0).0@ == self.zv().take(find_str(p.pat(), self.zv()))
                    && (r->0).1@ == self.zv().skip(find_str(p.pat(), self.zv()) + p.pat().len());
    fn vx_split_whitespace<'a>(&'a self) -> (r: VxIter<&'a str>) ensures str_seq(r@) == words(self.zv());
    fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) ensures r@ == cut_start(self.zv(), p.pat());
    /// the pieces of split, from the last to the first
    fn vx_rsplit<'a, P: VxPat>(&'a self, p: P) -> (r: VxIter<&'a str>) ensures r@.len() == split_pat(self.zv(), p.pat()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_pat(self.zv(), p.pat())[r@.len() - 1 - i];
    fn vx_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == trim(self.zv());
    fn vx_trim_start<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_start(self.zv());
    fn vx_trim_end<'a>(&'a self) -> (r: &'a str) ensures r@ == trim_end(self.zv());
    fn vx_chars(&self) -> (r: VxIter<char>) ensures r@ == self.zv();
    fn vx_lines<'a>(&'a self) -> (r: VxIter<&'a str>) ensures str_seq(r@) == lines(self.zv());
    fn vx_replace<'b, P: VxPat>(&self, p: P, q: &'b str) -> (r: String) ensures r@ == replace(self.zv(), p.pat(), q@);
    fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.zv());
    fn vx_parse_i32(&self) -> (r: Result<i32, VxParseError>)
        ensures r is Ok <==> (parse_int(self.zv()) is Some && i32::MIN <= parse_int(self.zv())->0 <= i32::MAX),
                r is Ok ==> r->Ok_0 == parse_int(self.zv())->0;
    fn vx_parse_usize(&self) -> (r: Result<usize, VxParseError>)
        ensures r is Ok <==> (parse_nat(self.zv()) is Some && parse_nat(self.zv())->0 <= usize::MAX),
                r is Ok ==> r->Ok_0 == parse_nat(self.zv())->0;
}
pub struct VxParseError { pub x: u8 }
/// str::parse into a type that only the context names
pub trait VxParsed: Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
impl VxParsed for usize { open spec fn parsed(s: Seq<char>) -> Option<usize> { if parse_nat(s) is Some && parse_nat(s)->0 <= usize::MAX { Some(parse_nat(s)->0 as usize) } else { None } } }
impl VxParsed for i32 { open spec fn parsed(s: Seq<char>) -> Option<i32> { if parse_int(s) is Some && i32::MIN <= parse_int(s)->0 <= i32::MAX { Some(parse_int(s)->0 as i32) } else { None } } }
pub trait VxParseAny { fn vx_parse<T: VxParsed>(&self) -> (r: Result<T, VxParseError>); }
impl VxParseAny for str { #[verifier::external_body] fn vx_parse<T: VxParsed>(&self) -> (r: Result<T, VxParseError>) ensures match r { Ok(v) => T::parsed(self@) == Some(v), Err(_) => T::parsed(self@) is None } { unimplemented!() } }
impl VxStr for str {
    open spec fn zv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rsplit_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split<'a, P: VxPat>(&'a self, p: P) -> (r: VxIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn<'a, P: VxPat>(&'a self, n: usize, p: P) -> (r: VxIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<'a, P: VxPat>(&'a self, p: P) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_whitespace<'a>(&'a self) -> (r: VxIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_rsplit<'a, P: VxPat>(&'a self, p: P) -> (r: VxIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_lines<'a>(&'a self) -> (r: VxIter<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<'b, P: VxPat>(&self, p: P, q: &'b str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_i32(&self) -> (r: Result<i32, VxParseError>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_usize(&self) -> (r: Result<usize, VxParseError>) { unimplemented!() }
}

/// a byte offset that is the boundary before the k-th character
pub open spec fn at_boundary(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && utf8(s.take(k)).len() == b }
pub open spec fn can_remove(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k < s.len() && utf8(#[trigger] s.take(k)).len() == b }
pub open spec fn removed_at(s: Seq<char>, b: int, t: Seq<char>, c: char) -> bool {
    forall|k: int| 0 <= k < s.len() && utf8(#[trigger] s.take(k)).len() == b ==> t == s.remove(k) && c == s[k] }
pub open spec fn can_cut(s: Seq<char>, b: int) -> bool { b > utf8(s).len() || exists|k: int| 0 <= k <= s.len() && utf8(#[trigger] s.take(k)).len() == b }
pub open spec fn cut_at(s: Seq<char>, b: int, t: Seq<char>) -> bool {
    (b > utf8(s).len() ==> t == s) && (forall|k: int| 0 <= k <= s.len() && utf8(#[trigger] s.take(k)).len() == b ==> t == s.take(k)) }
pub trait VxString {
    spec fn yv(&self) -> Seq<char>;
    fn vx_push_str(&mut self, s: &str) ensures (*final(self)).yv() == (*old(self)).yv() + s@;
    fn vx_remove(&mut self, i: usize) -> (r: char)
        requires can_remove((*old(self)).yv(), i as int)
        ensures removed_at((*old(self)).yv(), i as int, (*final(self)).yv(), r);
    fn vx_truncate(&mut self, n: usize)
        requires can_cut((*old(self)).yv(), n as int)
        ensures cut_at((*old(self)).yv(), n as int, (*final(self)).yv());
}
impl VxString for String {
    open spec fn yv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_push_str(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_remove(&mut self, i: usize) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_truncate(&mut self, n: usize) { unimplemented!() }
}
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T) ensures r == &**b;
pub assume_specification [String::with_capacity](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();

pub uninterp spec fn char_alpha(c: char) -> bool;
pub uninterp spec fn char_num(c: char) -> bool;
pub uninterp spec fn char_up(c: char) -> bool;
pub uninterp spec fn char_low(c: char) -> bool;
pub trait VxChar {
    spec fn cc(&self) -> char;
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == char_ws(self.cc());
    fn vx_is_alphanumeric(&self) -> (r: bool) ensures r == char_alnum(self.cc());
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == is_digit(self.cc());
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (('a' <= self.cc() && self.cc() <= 'z') || ('A' <= self.cc() && self.cc() <= 'Z'));
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (is_digit(self.cc()) || ('a' <= self.cc() && self.cc() <= 'z') || ('A' <= self.cc() && self.cc() <= 'Z'));
    fn vx_is_ascii_whitespace(&self) -> (r: bool) ensures r == (self.cc() == ' ' || self.cc() == '\t' || self.cc() == '\n' || self.cc() == '\r' || self.cc() as u32 == 12);
    fn vx_is_ascii(&self) -> (r: bool) ensures r == ((self.cc() as u32) < 128);
    fn vx_is_alphabetic(&self) -> (r: bool) ensures r == char_alpha(self.cc());
    fn vx_is_numeric(&self) -> (r: bool) ensures r == char_num(self.cc());
    fn vx_is_control(&self) -> (r: bool) ensures r == ((self.cc() as u32) < 32 || 127 <= self.cc() as u32 <= 159);
    fn vx_is_uppercase(&self) -> (r: bool) ensures r == char_up(self.cc());
    fn vx_is_lowercase(&self) -> (r: bool) ensures r == char_low(self.cc());
}
impl VxChar for char {
    open spec fn cc(&self) -> char { *self }
    #[verifier::external_body] fn vx_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_numeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_control(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_lowercase(&self) -> (r: bool) { unimplemented!() }
}

/// length in bytes of a text, in elements of anything else
pub trait VxLen { spec fn lenv(&self) -> int; fn vx_len(&self) -> (r: usize) ensures r == self.lenv(); }
impl VxLen for str { open spec fn lenv(&self) -> int { utf8(self@).len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VxLen for [T] { open spec fn lenv(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VxLen for Vec<T> { open spec fn lenv(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
pub trait VxEmpty { spec fn emptyv(&self) -> bool; fn vx_is_empty(&self) -> (r: bool) ensures r == self.emptyv(); }
impl VxEmpty for str { open spec fn emptyv(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VxEmpty for [T] { open spec fn emptyv(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VxEmpty for Vec<T> { open spec fn emptyv(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }

// ---------------------------------------------------------------- equality, cloning, conversions

pub trait VxEq<B: ?Sized> { spec fn eqs(&self, o: &B) -> bool; fn vx_eq_(&self, o: &B) -> (r: bool) ensures r == self.eqs(o); }
impl<A: VxSv + ?Sized, B: VxSv + ?Sized> VxEq<B> for A {
    open spec fn eqs(&self, o: &B) -> bool { self.sv() == o.sv() }
    #[verifier::external_body] fn vx_eq_(&self, o: &B) -> (r: bool) { unimplemented!() }
}
impl VxEq<Option<String>> for Option<String> {
    open spec fn eqs(&self, o: &Option<String>) -> bool { *self == *o }
    #[verifier::external_body] fn vx_eq_(&self, o: &Option<String>) -> (r: bool) { unimplemented!() }
}
impl VxEq<Option<&str>> for Option<&str> {
    open spec fn eqs(&self, o: &Option<&str>) -> bool { (self is Some == o is Some) && (self is Some ==> (self->0)@ == (o->0)@) }
    #[verifier::external_body] fn vx_eq_(&self, o: &Option<&str>) -> (r: bool) { unimplemented!() }
}
macro_rules! vx_eq_prim { ($($t:ty)*) => { verus! { $(
impl VxEq<$t> for $t {
    open spec fn eqs(&self, o: &$t) -> bool { *self == *o }
    #[verifier::external_body] fn vx_eq_(&self, o: &$t) -> (r: bool) { unimplemented!() }
}
impl VxEq<&$t> for &$t {
    open spec fn eqs(&self, o: &&$t) -> bool { **self == **o }
    #[verifier::external_body] fn vx_eq_(&self, o: &&$t) -> (r: bool) { unimplemented!() }
}
impl VxEq<Option<$t>> for Option<$t> {
    open spec fn eqs(&self, o: &Option<$t>) -> bool { *self == *o }
    #[verifier::external_body] fn vx_eq_(&self, o: &Option<$t>) -> (r: bool) { unimplemented!() }
}
)* } } }
vx_eq_prim!{ char bool i32 u8 u32 u64 usize }
pub fn vx_eq<A: VxEq<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.eqs(b) { a.vx_eq_(b) }

/// `clone` returns an equal value (derived or standard implementations only)
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: T) { unimplemented!() } }

pub trait VxToString { spec fn strv(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.strv(); }
impl VxToString for str { open spec fn strv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for String { open spec fn strv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for usize { open spec fn strv(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for i32 { open spec fn strv(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for u32 { open spec fn strv(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for char { open spec fn strv(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }

pub trait VxToOwned { type O; spec fn owned(&self) -> Self::O; fn vx_to_owned(&self) -> (r: Self::O) ensures r == self.owned(); }
impl VxToOwned for str { type O = String; open spec fn owned(&self) -> String { vx_string(self@) } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }

pub trait VxIntoT<T> { spec fn intov(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.intov(); }
impl VxIntoT<String> for &str { open spec fn intov(self) -> String { vx_string(self@) } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl VxIntoT<String> for String { open spec fn intov(self) -> String { self } fn vx_into(self) -> (r: String) { self } }

pub struct VxTryIntError { pub x: u8 }
pub trait VxTryInto<T> { spec fn try_intov(self) -> Option<T>; fn vx_try_into(self) -> (r: Result<T, VxTryIntError>) ensures r is Ok <==> self.try_intov() is Some, r is Ok ==> r->Ok_0 == self.try_intov()->0; }
impl VxTryInto<usize> for i32 {
    open spec fn try_intov(self) -> Option<usize> { if self >= 0 { Some(self as usize) } else { None } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<usize, VxTryIntError>) { unimplemented!() }
}

pub uninterp spec fn f64_as_i32(f: f64) -> i32;
pub trait VxCast: Sized {
    spec fn c_i32(self) -> i32; spec fn c_u32(self) -> u32; spec fn c_usize(self) -> usize; spec fn c_u8(self) -> u8;
    fn vx_as_i32(self) -> (r: i32) ensures r == self.c_i32();
    fn vx_as_u32(self) -> (r: u32) ensures r == self.c_u32();
    fn vx_as_usize(self) -> (r: usize) ensures r == self.c_usize();
    fn vx_as_u8(self) -> (r: u8) ensures r == self.c_u8();
}
macro_rules! vx_cast { ($($t:ty)*) => { verus! { $(
impl VxCast for $t {
    open spec fn c_i32(self) -> i32 { self as i32 }
    open spec fn c_u32(self) -> u32 { self as u32 }
    open spec fn c_usize(self) -> usize { self as usize }
    open spec fn c_u8(self) -> u8 { self as u8 }
    #[verifier::external_body] fn vx_as_i32(self) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn vx_as_u32(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vx_as_usize(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_as_u8(self) -> (r: u8) { unimplemented!() }
} )* } } }
vx_cast!{ i32 u32 usize u64 i64 u8 u16 }
pub uninterp spec fn f64_as_u32(f: f64) -> u32;
pub uninterp spec fn f64_as_usize(f: f64) -> usize;
pub uninterp spec fn f64_as_u8(f: f64) -> u8;
impl VxCast for f64 {
    open spec fn c_i32(self) -> i32 { f64_as_i32(self) }
    open spec fn c_u32(self) -> u32 { f64_as_u32(self) }
    open spec fn c_usize(self) -> usize { f64_as_usize(self) }
    open spec fn c_u8(self) -> u8 { f64_as_u8(self) }
    #[verifier::external_body] fn vx_as_i32(self) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn vx_as_u32(self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vx_as_usize(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_as_u8(self) -> (r: u8) { unimplemented!() }
}
pub trait VxMinMax: Sized { spec fn iv(self) -> int;
    fn vx_max(self, o: Self) -> (r: Self) ensures r == if self.iv() >= o.iv() { self } else { o };
    fn vx_min(self, o: Self) -> (r: Self) ensures r == if self.iv() <= o.iv() { self } else { o }; }
macro_rules! vx_minmax { ($($t:ty)*) => { verus! { $( impl VxMinMax for $t {
    open spec fn iv(self) -> int { self as int }
    fn vx_max(self, o: Self) -> (r: Self) { if self >= o { self } else { o } }
    fn vx_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } }
} )* } } }
vx_minmax!{ usize i32 u32 }

pub trait VxAsRefStr { spec fn sr(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.sr(); }
impl VxAsRefStr for &str { open spec fn sr(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VxAsRefStr for String { open spec fn sr(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VxAsRefStr for &String { open spec fn sr(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
pub trait VxAsRefBytes { spec fn br(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.br(); }
impl VxAsRefBytes for &str { open spec fn br(&self) -> Seq<u8> { utf8((*self)@) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxAsRefBytes for String { open spec fn br(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxAsRefBytes for &String { open spec fn br(&self) -> Seq<u8> { utf8((*self)@) } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxAsRefBytes for Vec<u8> { open spec fn br(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxAsRefBytes for &Vec<u8> { open spec fn br(&self) -> Seq<u8> { (*self)@ } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl VxAsRefBytes for &[u8] { open spec fn br(&self) -> Seq<u8> { (*self)@ } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }

// ---------------------------------------------------------------- iterators and vectors

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { t: std::marker::PhantomData<T> }
impl<T> View for VxIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peekable(self) -> (r: VxIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn peek<'b>(&'b mut self) -> (r: Option<&'b T>)
        ensures final(self)@ == old(self)@,
                old(self)@.len() == 0 ==> r is None,
                old(self)@.len() > 0 ==> r == Some(&old(self)@[0])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VxIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<T>) ensures r@ == if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() } { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VxIter<T>) ensures r@ == if n <= self@.len() { self@.take(n as int) } else { self@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VxIter<(usize, T)>) ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])), self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@.last()) { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures n < old(self)@.len() ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.skip(n + 1),
                n >= old(self)@.len() ==> r is None && final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: VxIter<T>) -> (r: VxIter<T>) ensures r@ == self@ + o@ { unimplemented!() }
}
impl<'a, T> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VxIter<T>) ensures r@ == self@.map(|_i: int, x: &T| *x) { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: VxIter<T>) ensures r@ == self@.map(|_i: int, x: &T| *x) { unimplemented!() }
}
impl VxIter<char> {
    #[verifier::external_body]
    pub fn vx_collect_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VxCopied<T> { spec fn cp(self) -> Option<T>; fn vx_copied(self) -> (r: Option<T>) ensures r == self.cp(); fn vx_cloned(self) -> (r: Option<T>) ensures r == self.cp(); }
impl<'a, T> VxCopied<T> for Option<&'a T> {
    open spec fn cp(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
}
pub uninterp spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T>;
pub broadcast axiom fn ax_refs_len<T>(s: Seq<T>) ensures (#[trigger] refs(s)).len() == s.len();
pub broadcast axiom fn ax_refs<T>(s: Seq<T>, i: int) ensures 0 <= i < s.len() ==> *(#[trigger] refs(s)[i]) == s[i];
pub trait VxSlice<T> {
    spec fn lv(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) ensures r@ == refs(self.lv());
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.lv();
    fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) ensures self.lv().len() == 0 ==> r is None, self.lv().len() > 0 ==> r == Some(&self.lv()[0]);
    fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) ensures self.lv().len() == 0 ==> r is None, self.lv().len() > 0 ==> r == Some(&self.lv().last());
}
impl<T> VxSlice<T> for [T] {
    open spec fn lv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
}
pub trait VxVecMut<T> {
    spec fn mv(&self) -> Seq<T>;
    fn last_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>)
        ensures (*old(self)).mv().len() == 0 ==> r is None && (*final(self)).mv() == (*old(self)).mv(),
                (*old(self)).mv().len() > 0 ==> r is Some && *(r->0) == (*old(self)).mv().last()
                    && (*final(self)).mv() == (*old(self)).mv().drop_last().push(*final(r->0));
    fn vx_extend_from_slice(&mut self, s: &[T]) ensures (*final(self)).mv() == (*old(self)).mv() + s@;
}
impl<T> VxVecMut<T> for Vec<T> {
    open spec fn mv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn last_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>) { unimplemented!() }
    #[verifier::external_body] fn vx_extend_from_slice(&mut self, s: &[T]) { unimplemented!() }
}
pub trait VxIntoIter: Sized { type Item; spec fn iseq(self) -> Seq<Self::Item>; fn vx_into_iter(self) -> (r: VxIter<Self::Item>) ensures r@ == self.iseq(); }
impl<T> VxIntoIter for Vec<T> { type Item = T; open spec fn iseq(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<'a, T> VxIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn iseq(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
impl<'a, T> VxIntoIter for &'a [T] { type Item = &'a T; open spec fn iseq(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
impl<T, const N: usize> VxIntoIter for [T; N] { type Item = T; open spec fn iseq(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T> VxIntoIter for VxIter<T> { type Item = T; open spec fn iseq(self) -> Seq<T> { self@ } fn vx_into_iter(self) -> (r: VxIter<T>) { self } }

#[verifier::external_body]
pub fn vx_range_incl(a: usize, b: usize) -> (r: VxIter<usize>) ensures r@.len() == if a <= b { b - a + 1 } else { 0int }, forall|i: int| 0 <= i < r@.len() ==> r@[i] == a + i { unimplemented!() }
pub trait VxRangeT: Sized { spec fn range_seq(a: Self, b: Self) -> Seq<Self>; }
impl VxRangeT for usize { open spec fn range_seq(a: usize, b: usize) -> Seq<usize> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) } }
impl VxRangeT for u32 { open spec fn range_seq(a: u32, b: u32) -> Seq<u32> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as u32) } }
#[verifier::external_body]
pub fn vx_range<T: VxRangeT>(a: T, b: T) -> (r: VxIter<T>) ensures r@ == T::range_seq(a, b) { unimplemented!() }

pub fn vx_unreachable() -> ! requires false { vstd::pervasive::unreached() }

// sorting by a computed key, stably
/// texts in the order of their characters
pub open spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) } else { str_le(a.skip(1), b.skip(1)) }
}
/// the position after the last element whose key is not greater
pub open spec fn sort_pos(ks: Seq<Seq<char>>, k: Seq<char>) -> int decreases ks.len() {
    if ks.len() == 0 { 0 } else if str_le(ks.last(), k) { ks.len() as int } else { sort_pos(ks.drop_last(), k) }
}
/// sorted by key, equal keys in the order they came in
pub open spec fn sorted<T>(v: Seq<T>, ks: Seq<Seq<char>>) -> (Seq<T>, Seq<Seq<char>>) decreases v.len() {
    if v.len() == 0 || ks.len() != v.len() { (Seq::empty(), Seq::empty()) } else {
        let r = sorted(v.drop_last(), ks.drop_last());
        let i = sort_pos(r.1, ks.last());
        (r.0.insert(i, v.last()), r.1.insert(i, ks.last())) }
}
pub open spec fn keys_of<T, F: Fn(&T) -> String>(f: F, v: Seq<T>, ks: Seq<String>) -> bool {
    ks.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> f.ensures((&v[i],), #[trigger] ks[i])
}
pub open spec fn texts(ks: Seq<String>) -> Seq<Seq<char>> { ks.map(|_i: int, s: String| s@) }
pub trait VxSort<T> {
    spec fn srt(&self) -> Seq<T>;
    fn vx_sort_by_cached_key<F: Fn(&T) -> String>(&mut self, f: F)
        requires forall|x: &T| f.requires((x,))
        ensures exists|ks: Seq<String>| #[trigger] keys_of(f, (*old(self)).srt(), ks) && (*final(self)).srt() == sorted((*old(self)).srt(), texts(ks)).0;
}
impl<T> VxSort<T> for Vec<T> {
    open spec fn srt(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort_by_cached_key<F: Fn(&T) -> String>(&mut self, f: F) { unimplemented!() }
}

pub trait VxAsDeref { spec fn adv(&self) -> Option<Seq<char>>; fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) ensures (r is Some) == (self.adv() is Some), r is Some ==> (r->0)@ == self.adv()->0; }
impl VxAsDeref for Option<String> { open spec fn adv(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } } #[verifier::external_body] fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) { unimplemented!() } }

pub trait VxJoin { spec fn js(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == join(self.js(), sep@); }
impl VxJoin for Vec<&str> { open spec fn js(&self) -> Seq<Seq<char>> { str_seq(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VxJoin for [&str] { open spec fn js(&self) -> Seq<Seq<char>> { str_seq(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }

impl VxEq<[u8]> for [u8] { open spec fn eqs(&self, o: &[u8]) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }

// ---------------------------------------------------------------- the comparison operators, from partial_cmp
pub trait VxPartialCmp<B: ?Sized> { spec fn pcs(&self, o: &B) -> Option<Ordering>; fn vx_pc(&self, o: &B) -> (r: Option<Ordering>) ensures r == self.pcs(o); }
pub fn vx_lt<A: VxPartialCmp<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == (a.pcs(b) == Some(Ordering::Less)) { match a.vx_pc(b) { Some(Ordering::Less) => true, _ => false } }
pub fn vx_gt<A: VxPartialCmp<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == (a.pcs(b) == Some(Ordering::Greater)) { match a.vx_pc(b) { Some(Ordering::Greater) => true, _ => false } }
pub fn vx_le<A: VxPartialCmp<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == (a.pcs(b) == Some(Ordering::Less) || a.pcs(b) == Some(Ordering::Equal)) { match a.vx_pc(b) { Some(Ordering::Less) => true, Some(Ordering::Equal) => true, _ => false } }
pub fn vx_ge<A: VxPartialCmp<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == (a.pcs(b) == Some(Ordering::Greater) || a.pcs(b) == Some(Ordering::Equal)) { match a.vx_pc(b) { Some(Ordering::Greater) => true, Some(Ordering::Equal) => true, _ => false } }
pub fn vx_ne<A: VxEq<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == !a.eqs(b) { !a.vx_eq_(b) }
// floating-point arithmetic: total, its value left open
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn frem(a: f64, b: f64) -> f64;
#[verifier::external_body] pub fn vx_fadd(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fsub(a: f64, b: f64) -> (r: f64) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fmul(a: f64, b: f64) -> (r: f64) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fdiv(a: f64, b: f64) -> (r: f64) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_frem(a: f64, b: f64) -> (r: f64) ensures r == frem(a, b) { unimplemented!() }
// ---- derived defaults
pub trait VxDefault: Sized { spec fn dflt(&self) -> bool; fn vx_default() -> (r: Self) ensures r.dflt(); }
impl<T> VxDefault for Vec<T> { open spec fn dflt(&self) -> bool { self@.len() == 0 } fn vx_default() -> (r: Self) { Vec::new() } }
impl VxDefault for String { open spec fn dflt(&self) -> bool { self@ == ""@ } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl<T> VxDefault for Option<T> { open spec fn dflt(&self) -> bool { *self is None } fn vx_default() -> (r: Self) { None } }
impl VxDefault for bool { open spec fn dflt(&self) -> bool { !*self } fn vx_default() -> (r: Self) { false } }
// ---- text in a list of texts
pub trait VxTexts { spec fn texts(&self) -> Seq<Seq<char>>; fn vx_contains<Q: VxSv>(&self, x: Q) -> (r: bool) ensures r == self.texts().contains(x.sv()); }
impl<const N: usize> VxTexts for [&str; N] { open spec fn texts(&self) -> Seq<Seq<char>> { str_seq(self@) } #[verifier::external_body] fn vx_contains<Q: VxSv>(&self, x: Q) -> (r: bool) { unimplemented!() } }
pub trait VxAsStr { spec fn asv(&self) -> Seq<char>; fn vx_as_str<'a>(&'a self) -> (r: &'a str) ensures r@ == self.asv(); }
impl VxAsStr for String { open spec fn asv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_str<'a>(&'a self) -> (r: &'a str) { unimplemented!() } }
