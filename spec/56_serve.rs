// ================================================================= the development server
/// the script which reloads the page: it fits into memory
pub uninterp spec fn reload_script() -> Seq<u8>;
#[verifier::external_body] pub exec const JS: &'static [u8] ensures JS@ == reload_script(), JS@.len() < 0x1000_0000 { &[] }
/// `</body>`, `<script>` and `</script>`
pub open spec fn body_end() -> Seq<u8> { seq![60u8, 47u8, 98u8, 111u8, 100u8, 121u8, 62u8] }
pub open spec fn script_open() -> Seq<u8> { seq![60u8, 115u8, 99u8, 114u8, 105u8, 112u8, 116u8, 62u8] }
pub open spec fn script_close() -> Seq<u8> { seq![60u8, 47u8, 115u8, 99u8, 114u8, 105u8, 112u8, 116u8, 62u8] }
pub open spec fn ends_body(b: Seq<u8>, i: int) -> bool { i + 7 <= b.len() && b.subrange(i, i + 7) == body_end() }
/// where the first one from i on is
pub open spec fn body_end_from(b: Seq<u8>, i: int) -> Option<int> decreases b.len() - i { if i < 0 || i + 7 > b.len() { None } else if ends_body(b, i) { Some(i) } else { body_end_from(b, i + 1) } }
/// what is sent for a file
pub open spec fn sent(b: Seq<u8>) -> Seq<u8> { match body_end_from(b, 0) { Some(i) => b.take(i) + (script_open() + reload_script() + script_close()) + b.skip(i), None => b } }
pub open spec fn answer(l: Option<LocatedPath>, r: Response) -> bool {
    match l {
        None => r.status_code is NotFound,
        Some(LocatedPath::Directory) => r.status_code is MovedPermanently,
        Some(LocatedPath::File(p)) => match file_now(p@) { Some(b) => r.status_code is OK && r.body@ == sent(b), None => r.status_code is InternalError },
    }
}
/// the request names the file without the slash it starts with
pub open spec fn asked(uri: Seq<char>) -> Seq<char> { if uri.len() > 0 && uri[0] == '/' { uri.skip(1) } else { uri } }
/// C26: a file without `</body>` is sent as it is; otherwise the script is put before the first one and nothing else changes
//@C26
pub proof fn thm_sent(b: Seq<u8>)
    ensures
        (forall|i: int| 0 <= i ==> !ends_body(b, i)) ==> sent(b) == b,
        forall|i: int| 0 <= i && #[trigger] ends_body(b, i) && (forall|j: int| 0 <= j < i ==> !ends_body(b, j)) ==> sent(b) == b.take(i) + (script_open() + reload_script() + script_close()) + b.skip(i),
{
    lemma_body_end_from(b, 0);
    if let Some(k) = body_end_from(b, 0) { assert forall|i: int| 0 <= i && #[trigger] ends_body(b, i) && (forall|j: int| 0 <= j < i ==> !ends_body(b, j)) implies i == k by { } }
}
pub proof fn lemma_body_end_from(b: Seq<u8>, i: int)
    requires 0 <= i
    ensures match body_end_from(b, i) { Some(k) => i <= k && ends_body(b, k) && forall|j: int| i <= j < k ==> !ends_body(b, j), None => forall|j: int| i <= j ==> !ends_body(b, j) }
    decreases b.len() - i
{ if i + 7 <= b.len() && !ends_body(b, i) { lemma_body_end_from(b, i + 1); } }
pub proof fn lemma_slash(u: Seq<char>) ensures is_prefix(seq!['/'], u) == (u.len() > 0 && u[0] == '/') { if u.len() > 0 { assert(u.take(1)[0] == u[0]); if u[0] == '/' { assert(u.take(1) =~= seq!['/']); } } }
// ---- the clients (C30)
pub open spec fn reload_text() -> Seq<char> { "reload"@ }
pub open spec fn told(a: WebsocketStream, b: WebsocketStream) -> bool { ws_id(b) == ws_id(a) && ws_sent(b) == ws_sent(a).push(reload_text()) }
/// the first k connections were sent one message each, the others none
pub open spec fn all_told(a: Seq<WebsocketStream>, b: Seq<WebsocketStream>, k: int) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < k && i < a.len() ==> told(a[i], #[trigger] b[i])) && (forall|i: int| k <= i < a.len() ==> #[trigger] b[i] == a[i])
}
pub open spec fn refusing(s: Seq<WebsocketStream>, i: int) -> bool { ws_refused(s[i]) }
/// a change to this path below the project needs no rebuild: what the program writes itself, and the manifest (which needs a restart)
pub open spec fn no_source(p: Seq<char>) -> bool { path_strip(p, "dist"@) is Some || path_strip(p, "temp"@) is Some || path_ends(p, "stuart.toml"@) }
/// the positions, in order, of those of the first k connections which refused the message
pub open spec fn to_drop(s: Seq<WebsocketStream>, k: int, d: Seq<usize>) -> bool {
    &&& forall|j: int| 0 <= j < d.len() ==> 0 <= #[trigger] d[j] < k && d[j] < s.len() && ws_refused(s[d[j] as int])
    &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> #[trigger] d[i] < #[trigger] d[j]
    &&& forall|i: int| 0 <= i < k && #[trigger] refusing(s, i) ==> exists|j: int| 0 <= j < d.len() && #[trigger] d[j] == i
}
pub open spec fn reached(w: WebsocketStream) -> bool { !ws_refused(w) }
/// every client was sent one message; those which took it, and only those, are kept
pub open spec fn notified(a: Seq<WebsocketStream>, b: Seq<WebsocketStream>) -> bool {
    exists|m: Seq<WebsocketStream>| #[trigger] all_told(a, m, a.len() as int) && b.to_multiset() == m.filter(|w: WebsocketStream| reached(w)).to_multiset()
}
/// the list with one more client in it, and all those it had
#[verifier::opaque] pub open spec fn joined_by(a: Seq<WebsocketStream>, b: Seq<WebsocketStream>, s: WebsocketStream) -> bool { b.to_multiset() == a.to_multiset().insert(s) }
pub proof fn lemma_joined_last(a: Seq<WebsocketStream>, s: WebsocketStream) ensures joined_by(a, a.push(s), s) { reveal(joined_by); a.to_multiset_ensures(); }
/// the connection was added to the list of clients
pub uninterp spec fn joined(st: Arc<State>, s: WebsocketStream) -> bool;
/// it is when it was added to the content which the mutex had when it was taken
#[verifier::external_body] pub proof fn ax_joined(st: Arc<State>, a: Seq<WebsocketStream>, b: Seq<WebsocketStream>, s: WebsocketStream) requires joined_by(a, b, s) ensures joined(st, s) { unimplemented!() }
/// what humphrey_ws makes of a handler: it is called once for each connection that completes the handshake
#[verifier::external_body] pub fn vx_curried_websocket_handler<F: Fn(WebsocketStream, Arc<State>)>(f: F, request: Request, stream: Stream, state: Arc<State>)
    requires forall|s: WebsocketStream| #[trigger] f.requires((s, state)), forall|s: WebsocketStream| f.ensures((s, state), ()) ==> #[trigger] joined(state, s)
{ unimplemented!() }
pub proof fn lemma_told(s0: Seq<WebsocketStream>, s1: Seq<WebsocketStream>, s2: Seq<WebsocketStream>, d1: Seq<usize>, d2: Seq<usize>, k: int)
    requires all_told(s0, s1, k), to_drop(s1, k, d1), 0 <= k < s0.len(), k <= usize::MAX, s2 == s1.update(k, s2[k]), told(s0[k], s2[k]), d2 == if ws_refused(s2[k]) { d1.push(k as usize) } else { d1 }
    ensures all_told(s0, s2, k + 1), to_drop(s2, k + 1, d2)
{
    assert forall|i: int| 0 <= i < k + 1 && #[trigger] refusing(s2, i) implies exists|j: int| 0 <= j < d2.len() && #[trigger] d2[j] == i by {
        if i < k { assert(refusing(s1, i)); let j = choose|j: int| 0 <= j < d1.len() && #[trigger] d1[j] == i; assert(d2[j] == i); } else { assert(d2[d1.len() as int] == i); }
    }
}
/// what is left of m when the connections at positions d[k..] are taken out: the part in front of them is as it was
pub open spec fn some_gone(m: Seq<WebsocketStream>, d: Seq<usize>, k: int, s: Seq<WebsocketStream>) -> bool {
    &&& s.len() == m.len() - (d.len() - k)
    &&& forall|i: int| 0 <= i < m.len() && (k < d.len() ==> i < d[k]) ==> i < s.len() && #[trigger] s[i] == m[i]
    &&& s.to_multiset().add(Seq::new((d.len() - k) as nat, |j: int| m[d[k + j] as int]).to_multiset()) == m.to_multiset()
}
pub proof fn lemma_ms(a: Seq<WebsocketStream>, b: Seq<WebsocketStream>) ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset()) { vstd::seq_lib::lemma_multiset_commutative(a, b); }
pub open spec fn at_all(m: Seq<WebsocketStream>, d: Seq<usize>, k: int) -> Seq<WebsocketStream> { Seq::new((d.len() - k) as nat, |j: int| m[d[k + j] as int]) }
pub proof fn lemma_none_gone(m: Seq<WebsocketStream>, d: Seq<usize>) ensures some_gone(m, d, d.len() as int, m)
{ let e = at_all(m, d, d.len() as int); assert(e =~= Seq::empty()); lemma_ms(m, e); assert(m + e =~= m); assert(some_gone(m, d, d.len() as int, m)) by { assert(m.to_multiset().add(e.to_multiset()) == m.to_multiset()); } }
pub proof fn lemma_one_gone(m: Seq<WebsocketStream>, d: Seq<usize>, k: int, s: Seq<WebsocketStream>)
    requires to_drop(m, m.len() as int, d), 0 <= k < d.len(), some_gone(m, d, k + 1, s)
    ensures d[k] < s.len(), some_gone(m, d, k, s.update(d[k] as int, s.last()).drop_last())
{
    let i = d[k] as int;
    assert(0 <= d[k] < m.len());
    if k + 1 < d.len() { assert(d[k] < d[k + 1]); }
    assert(s[i] == m[i]);
    let x = s[i]; let l = s.last(); let t = s.update(i, l).drop_last();
    let e1 = at_all(m, d, k + 1); let e = at_all(m, d, k);
    assert(e =~= seq![m[d[k] as int]] + e1);
    lemma_ms(seq![m[d[k] as int]], e1);
    // t with the one taken out is s
    if i == s.len() - 1 {
        assert(s =~= t + seq![x]); lemma_ms(t, seq![x]);
    } else {
        let a = s.take(i); let b = s.subrange(i + 1, s.len() - 1);
        assert(s =~= a + (seq![x] + (b + seq![l]))); lemma_ms(a, seq![x] + (b + seq![l])); lemma_ms(seq![x], b + seq![l]); lemma_ms(b, seq![l]);
        assert(t =~= a + (seq![l] + b)); lemma_ms(a, seq![l] + b); lemma_ms(seq![l], b);
    }
    assert(s.to_multiset() =~= t.to_multiset().add(seq![x].to_multiset()));
    assert(t.to_multiset().add(e.to_multiset()) =~= m.to_multiset());
    assert forall|j: int| 0 <= j < m.len() && (k < d.len() ==> j < d[k]) implies j < t.len() && #[trigger] t[j] == m[j] by { assert(s[j] == m[j]); }
}
pub proof fn lemma_split_refused(m: Seq<WebsocketStream>, n: int, d: Seq<usize>)
    requires 0 <= n <= m.len(), to_drop(m, n, d)
    ensures m.take(n).to_multiset() == m.take(n).filter(|w: WebsocketStream| reached(w)).to_multiset().add(at_all(m, d, 0).to_multiset())
    decreases n
{
    let f = |w: WebsocketStream| reached(w);
    if n == 0 {
        if d.len() > 0 { assert(d[0] < 0); }
        assert(m.take(0) =~= Seq::empty()); assert(at_all(m, d, 0) =~= Seq::empty());
        reveal(Seq::filter);
        lemma_ms(m.take(0), m.take(0)); assert(m.take(0) + m.take(0) =~= m.take(0));
        assert(m.take(0).filter(f) =~= Seq::empty());
    } else {
        let a = m.take(n - 1); let x = m[n - 1];
        assert(m.take(n) =~= a.push(x)); assert(m.take(n) =~= a + seq![x]); lemma_ms(a, seq![x]);
        reveal(Seq::filter);
        assert(m.take(n).drop_last() =~= a);
        if ws_refused(x) {
            assert(refusing(m, n - 1));
            let j = choose|j: int| 0 <= j < d.len() && #[trigger] d[j] == n - 1;
            if j < d.len() - 1 { assert(d[j] < d[d.len() - 1]); }
            let d1 = d.drop_last();
            assert(to_drop(m, n - 1, d1)) by {
                assert forall|q: int| 0 <= q < d1.len() implies 0 <= #[trigger] d1[q] < n - 1 && d1[q] < m.len() && ws_refused(m[d1[q] as int]) by { assert(d[q] < d[d.len() - 1]); }
                assert forall|i: int| 0 <= i < n - 1 && #[trigger] refusing(m, i) implies exists|q: int| 0 <= q < d1.len() && #[trigger] d1[q] == i by { let q = choose|q: int| 0 <= q < d.len() && #[trigger] d[q] == i; assert(d1[q] == i); }
            }
            lemma_split_refused(m, n - 1, d1);
            assert(at_all(m, d, 0) =~= at_all(m, d1, 0) + seq![x]); lemma_ms(at_all(m, d1, 0), seq![x]);
            assert(m.take(n).filter(f) =~= a.filter(f));
        } else {
            assert(to_drop(m, n - 1, d)) by {
                assert forall|q: int| 0 <= q < d.len() implies 0 <= #[trigger] d[q] < n - 1 && d[q] < m.len() && ws_refused(m[d[q] as int]) by { if d[q] == n - 1 { assert(ws_refused(m[d[q] as int])); } }
            }
            lemma_split_refused(m, n - 1, d);
            assert(m.take(n).filter(f) =~= a.filter(f) + seq![x]); lemma_ms(a.filter(f), seq![x]);
        }
        assert(m.take(n).to_multiset() =~= m.take(n).filter(f).to_multiset().add(at_all(m, d, 0).to_multiset()));
    }
}
pub proof fn lemma_all_gone(m: Seq<WebsocketStream>, d: Seq<usize>, s: Seq<WebsocketStream>)
    requires to_drop(m, m.len() as int, d), some_gone(m, d, 0, s)
    ensures s.to_multiset() == m.filter(|w: WebsocketStream| reached(w)).to_multiset()
{
    lemma_split_refused(m, m.len() as int, d);
    assert(m.take(m.len() as int) =~= m);
    assert(s.to_multiset().add(at_all(m, d, 0).to_multiset()) == m.to_multiset());
    let r = m.filter(|w: WebsocketStream| reached(w));
    assert(s.to_multiset() =~= s.to_multiset().add(at_all(m, d, 0).to_multiset()).sub(at_all(m, d, 0).to_multiset()));
    assert(r.to_multiset() =~= r.to_multiset().add(at_all(m, d, 0).to_multiset()).sub(at_all(m, d, 0).to_multiset()));
}
/// C30: every client which took the message is still in the list after it, with that message as the last it was sent; no other is
//@C30
pub proof fn thm_notified(a: Seq<WebsocketStream>, b: Seq<WebsocketStream>)
    requires notified(a, b)
    ensures exists|m: Seq<WebsocketStream>| #[trigger] all_told(a, m, a.len() as int)
        && (forall|i: int| 0 <= i < m.len() && !ws_refused(#[trigger] m[i]) ==> b.contains(m[i]))
        && (forall|j: int| 0 <= j < b.len() ==> !ws_refused(#[trigger] b[j]) && m.contains(b[j]))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let m = choose|m: Seq<WebsocketStream>| #[trigger] all_told(a, m, a.len() as int) && b.to_multiset() == m.filter(|w: WebsocketStream| reached(w)).to_multiset();
    let f = |w: WebsocketStream| reached(w);
    let r = m.filter(f);
    assert forall|i: int| 0 <= i < m.len() && !ws_refused(#[trigger] m[i]) implies b.contains(m[i]) by { lemma_kept(m, i); assert(r.contains(m[i])); assert(r.to_multiset().count(m[i]) > 0); assert(b.to_multiset().count(m[i]) > 0); }
    assert forall|j: int| 0 <= j < b.len() implies !ws_refused(#[trigger] b[j]) && m.contains(b[j]) by { assert(b.contains(b[j])); assert(b.to_multiset().count(b[j]) > 0); assert(r.to_multiset().count(b[j]) > 0); assert(r.contains(b[j])); lemma_from(m, b[j]); }
}
pub proof fn lemma_kept(m: Seq<WebsocketStream>, i: int) requires 0 <= i < m.len(), !ws_refused(m[i]) ensures m.filter(|w: WebsocketStream| reached(w)).contains(m[i]) decreases m.len()
{
    let f = |w: WebsocketStream| reached(w);
    reveal(Seq::filter);
    let r0 = m.drop_last().filter(f); let r = m.filter(f);
    if i < m.len() - 1 { lemma_kept(m.drop_last(), i); assert(r0.contains(m[i])); let j = r0.index_of(m[i]); assert(r[j] == m[i]); } else { assert(r == r0.push(m[i])); assert(r[r.len() - 1] == m[i]); }
}
pub proof fn lemma_from(m: Seq<WebsocketStream>, x: WebsocketStream) requires m.filter(|w: WebsocketStream| reached(w)).contains(x) ensures !ws_refused(x), m.contains(x) decreases m.len()
{
    let f = |w: WebsocketStream| reached(w);
    reveal(Seq::filter);
    let r = m.filter(f);
    if m.len() > 0 {
        let r0 = m.drop_last().filter(f);
        let j = choose|j: int| 0 <= j < r.len() && r[j] == x;
        if j < r0.len() { assert(r0[j] == x); assert(r0.contains(x)); lemma_from(m.drop_last(), x); assert(m.drop_last().contains(x)); let q = m.drop_last().index_of(x); assert(m[q] == x); } else { assert(x == m.last()); assert(m[m.len() - 1] == x); }
    }
}
