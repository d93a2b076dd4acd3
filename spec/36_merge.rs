// ================================================================= merging one tree into another

pub open spec fn dir_with(n: Node, ch: Seq<Node>) -> Node { match n { Node::Directory { name, children, source } => Node::Directory { name: name, children: vx_vec(ch), source: source }, _ => n } }
pub open spec fn kids(n: Node) -> Seq<Node> { match n { Node::Directory { children, .. } => children@, _ => Seq::empty() } }
/// the tree of b merged into the tree of a; or the sources of two nodes that cannot both be there
pub open spec fn merged(a: Node, b: Node) -> Result<Node, (PathBuf, PathBuf)> decreases b, node_len(b) + 1 {
    match merged_first(kids(a), b, node_len(b)) { Ok(ch) => Ok(dir_with(a, ch)), Err(e) => Err(e) }
}
/// the first k children of b merged into the children of a
pub open spec fn merged_first(a: Seq<Node>, b: Node, k: int) -> Result<Seq<Node>, (PathBuf, PathBuf)> decreases b, k {
    match b {
        Node::Directory { children, .. } =>
            if k <= 0 || k > children@.len() { Ok(a) } else { match merged_first(a, b, k - 1) {
                Err(e) => Err(e),
                Ok(ch) => {
                    let y = children@[k - 1]; let i = child(ch, node_name(y));
                    if i < 0 { Ok(ch.push(y)) }
                    else if ch[i] is Directory && y is Directory { match merged(ch[i], y) { Ok(m) => Ok(ch.update(i, m)), Err(e) => Err(e) } }
                    else { Err((node_source(ch[i]), node_source(y))) }
                } } },
        _ => Ok(a),
    }
}

// ---- what that means for the files
/// the file f is in the tree under the path p
pub open spec fn has(n: Node, p: Seq<Seq<char>>, f: Node) -> bool decreases p.len() {
    if p.len() == 0 { n == f } else { n is Directory && in_kids(kids(n), p, f) }
}
pub open spec fn in_kids(ch: Seq<Node>, p: Seq<Seq<char>>, f: Node) -> bool decreases p.len(), 0int {
    p.len() > 0 && exists|i: int| 0 <= i < ch.len() && node_name(#[trigger] ch[i]) == p[0] && has(ch[i], p.skip(1), f)
}
pub proof fn lemma_merge_err(a: Seq<Node>, b: Node, k: int, l: int) requires 0 <= k <= l <= node_len(b), merged_first(a, b, k) is Err ensures merged_first(a, b, l) == merged_first(a, b, k) decreases l - k
{
    if k < l { lemma_merge_err(a, b, k, l - 1); }
}
pub proof fn lemma_child(ch: Seq<Node>, n: Seq<char>, i: int) requires 0 <= i ensures
    child_from(ch, n, i) >= -1,
    child_from(ch, n, i) >= 0 ==> i <= child_from(ch, n, i) < ch.len() && node_name(ch[child_from(ch, n, i)]) == n,
    forall|j: int| i <= j < ch.len() && (child_from(ch, n, i) < 0 || j < child_from(ch, n, i)) ==> node_name(#[trigger] ch[j]) != n,
    decreases ch.len() - i
{ if i < ch.len() && node_name(ch[i]) != n { lemma_child(ch, n, i + 1); } }
/// C19: the files of the merged tree are those of both, where they were, as they were
//@C19
pub proof fn thm_merge_files(a: Node, b: Node, p: Seq<Seq<char>>, f: Node)
    requires a is Directory, b is Directory, f is File, merged(a, b) is Ok
    ensures has(merged(a, b)->Ok_0, p, f) == (has(a, p, f) || has(b, p, f))
    decreases b, node_len(b) + 1
{
    lemma_merge_first_files(kids(a), b, node_len(b), p, f);
    assert(kids(b).take(node_len(b)) =~= kids(b));
}
pub proof fn lemma_merge_first_files(a: Seq<Node>, b: Node, k: int, p: Seq<Seq<char>>, f: Node)
    requires b is Directory, f is File, 0 <= k <= node_len(b), merged_first(a, b, k) is Ok
    ensures in_kids(merged_first(a, b, k)->Ok_0, p, f) == (in_kids(a, p, f) || in_kids(kids(b).take(k), p, f))
    decreases b, k
{
    if k > 0 && p.len() > 0 {
        let ch = merged_first(a, b, k - 1)->Ok_0; let y = kids(b)[k - 1]; let t = kids(b).take(k); let t0 = kids(b).take(k - 1);
        lemma_merge_first_files(a, b, k - 1, p, f);
        assert(decreases_to!(b => kids(b)[k - 1]));
        assert(t =~= t0.push(y));
        lemma_kids_push(t0, y, p, f);
        let i = child(ch, node_name(y));
        lemma_child(ch, node_name(y), 0);
        if i < 0 { lemma_kids_push(ch, y, p, f); }
        else {
            thm_merge_files(ch[i], y, p.skip(1), f);
            lemma_kids_update(ch, i, merged(ch[i], y)->Ok_0, p, f);
        }
    }
}
pub proof fn lemma_kids_push(ch: Seq<Node>, y: Node, p: Seq<Seq<char>>, f: Node) requires p.len() > 0
    ensures in_kids(ch.push(y), p, f) == (in_kids(ch, p, f) || (node_name(y) == p[0] && has(y, p.skip(1), f)))
{
    let c = ch.push(y);
    if in_kids(ch, p, f) { let i = choose|i: int| 0 <= i < ch.len() && node_name(#[trigger] ch[i]) == p[0] && has(ch[i], p.skip(1), f); assert(c[i] == ch[i]); }
    if node_name(y) == p[0] && has(y, p.skip(1), f) { assert(c[ch.len() as int] == y); }
    if in_kids(c, p, f) { let i = choose|i: int| 0 <= i < c.len() && node_name(#[trigger] c[i]) == p[0] && has(c[i], p.skip(1), f); if i < ch.len() { assert(c[i] == ch[i]); } else { assert(c[i] == y); } }
}
/// replacing a node by one of the same name which has f as well, or when the added one has it
pub proof fn lemma_kids_update(ch: Seq<Node>, i: int, m: Node, p: Seq<Seq<char>>, f: Node) requires p.len() > 0, 0 <= i < ch.len(), node_name(m) == node_name(ch[i]), has(ch[i], p.skip(1), f) ==> has(m, p.skip(1), f)
    ensures in_kids(ch.update(i, m), p, f) == (in_kids(ch, p, f) || (node_name(m) == p[0] && has(m, p.skip(1), f)))
{
    let c = ch.update(i, m);
    if in_kids(ch, p, f) { let j = choose|j: int| 0 <= j < ch.len() && node_name(#[trigger] ch[j]) == p[0] && has(ch[j], p.skip(1), f); if j != i { assert(c[j] == ch[j]); } else { assert(c[i] == m); } }
    if node_name(m) == p[0] && has(m, p.skip(1), f) { assert(c[i] == m); }
    if in_kids(c, p, f) { let j = choose|j: int| 0 <= j < c.len() && node_name(#[trigger] c[j]) == p[0] && has(c[j], p.skip(1), f); if j != i { assert(c[j] == ch[j]); } }
}
/// no two nodes of a directory have the same name
pub open spec fn uniq(n: Node) -> bool decreases n, node_len(n) + 1 { uniq_kids(n, node_len(n)) && (forall|i: int, j: int| 0 <= i < j < node_len(n) ==> node_name(#[trigger] kids(n)[i]) != node_name(#[trigger] kids(n)[j])) }
pub open spec fn uniq_kids(n: Node, k: int) -> bool decreases n, k {
    match n { Node::Directory { children, .. } => if k <= 0 || k > children@.len() { true } else { uniq(children@[k - 1]) && uniq_kids(n, k - 1) }, _ => true }
}
pub proof fn lemma_uniq_kid(n: Node, k: int, i: int) requires 0 <= i < k <= node_len(n), uniq_kids(n, k) ensures uniq(kids(n)[i]) decreases k { if i < k - 1 { lemma_uniq_kid(n, k - 1, i); } }
/// x of one tree and y of the other are under the same path and are not both directories
pub open spec fn clash(a: Node, b: Node, p: Seq<Seq<char>>, x: Node, y: Node) -> bool { has(a, p, x) && has(b, p, y) && !(x is Directory && y is Directory) }
/// C19: two trees that clash are not merged
//@C19
pub proof fn thm_merge_clash(a: Node, b: Node, p: Seq<Seq<char>>, x: Node, y: Node)
    requires a is Directory, b is Directory, uniq(a), uniq(b), clash(a, b, p, x, y)
    ensures merged(a, b) is Err
    decreases b, node_len(b) + 1
{
    if p.len() > 0 && merged(a, b) is Ok {
        let i = choose|i: int| 0 <= i < kids(a).len() && node_name(#[trigger] kids(a)[i]) == p[0] && has(kids(a)[i], p.skip(1), x);
        let j = choose|j: int| 0 <= j < kids(b).len() && node_name(#[trigger] kids(b)[j]) == p[0] && has(kids(b)[j], p.skip(1), y);
        lemma_merge_ok_prefix(kids(a), b, j + 1, node_len(b));
        lemma_merge_first_names(a, b, j, i);
        let ch = merged_first(kids(a), b, j)->Ok_0;
        lemma_child(ch, p[0], 0);
        assert(child(ch, p[0]) == i) by { if child(ch, p[0]) >= 0 && child(ch, p[0]) < i { lemma_merge_first_names(a, b, j, child(ch, p[0])); } }
        assert(ch[i] == kids(a)[i]);
        let a1 = kids(a)[i]; let b1 = kids(b)[j];
        assert(decreases_to!(b => kids(b)[j]));
        lemma_uniq_kid(a, node_len(a), i); lemma_uniq_kid(b, node_len(b), j);
        if a1 is Directory && b1 is Directory { thm_merge_clash(a1, b1, p.skip(1), x, y); }
    }
}
pub proof fn lemma_merge_ok_prefix(a: Seq<Node>, b: Node, k: int, l: int) requires 0 <= k <= l <= node_len(b), merged_first(a, b, l) is Ok ensures merged_first(a, b, k) is Ok { if merged_first(a, b, k) is Err { lemma_merge_err(a, b, k, l); } }
/// the names of the nodes stay; a node without a counterpart among the first k stays
pub proof fn lemma_merge_first_names(a: Node, b: Node, k: int, i: int)
    requires b is Directory, 0 <= k <= node_len(b), merged_first(kids(a), b, k) is Ok, 0 <= i < kids(a).len()
    ensures ({ let ch = merged_first(kids(a), b, k)->Ok_0;
        &&& ch.len() >= kids(a).len() && node_name(ch[i]) == node_name(kids(a)[i])
        &&& (forall|j: int| 0 <= j < k ==> node_name(#[trigger] kids(b)[j]) != node_name(kids(a)[i])) ==> ch[i] == kids(a)[i] })
    decreases k
{
    if k > 0 {
        lemma_merge_first_names(a, b, k - 1, i);
        let ch = merged_first(kids(a), b, k - 1)->Ok_0; let y = kids(b)[k - 1];
        lemma_child(ch, node_name(y), 0);
        let c = child(ch, node_name(y));
        assert(node_name(y) == node_name(kids(b)[k - 1]));
        assert(c >= 0 && ch[c] is Directory && y is Directory ==> node_name(merged(ch[c], y)->Ok_0) == node_name(ch[c]));
    }
}
/// C19: a conflict is reported for two nodes that clash, and names their sources
//@C19
pub proof fn thm_merge_conflict(a: Node, b: Node)
    requires a is Directory, b is Directory, uniq(b), merged(a, b) is Err
    ensures exists|p: Seq<Seq<char>>, x: Node, y: Node| #[trigger] clash(a, b, p, x, y) && merged(a, b) == Err::<Node, (PathBuf, PathBuf)>((node_source(x), node_source(y)))
    decreases b, node_len(b) + 1
{
    lemma_merge_first_conflict(a, b, node_len(b));
}
pub proof fn lemma_merge_first_conflict(a: Node, b: Node, k: int)
    requires a is Directory, b is Directory, uniq(b), 0 <= k <= node_len(b), merged_first(kids(a), b, k) is Err
    ensures exists|p: Seq<Seq<char>>, x: Node, y: Node| #[trigger] clash(a, b, p, x, y) && merged_first(kids(a), b, k) == Err::<Seq<Node>, (PathBuf, PathBuf)>((node_source(x), node_source(y)))
    decreases b, k
{
    if merged_first(kids(a), b, k - 1) is Err { lemma_merge_first_conflict(a, b, k - 1); }
    else {
        let ch = merged_first(kids(a), b, k - 1)->Ok_0; let y = kids(b)[k - 1]; let i = child(ch, node_name(y));
        lemma_child(ch, node_name(y), 0);
        assert(i < kids(a).len()) by { if i >= kids(a).len() { lemma_merge_first_from(a, b, k - 1, i); } }
        lemma_merge_first_names(a, b, k - 1, i);
        let x = kids(a)[i];
        assert(ch[i] == x);
        let p = seq![node_name(y)];
        if x is Directory && y is Directory {
            assert(decreases_to!(b => kids(b)[k - 1]));
            lemma_uniq_kid(b, node_len(b), k - 1);
            thm_merge_conflict(x, y);
            let (q, x1, y1) = choose|q: Seq<Seq<char>>, x1: Node, y1: Node| #[trigger] clash(x, y, q, x1, y1) && merged(x, y) == Err::<Node, (PathBuf, PathBuf)>((node_source(x1), node_source(y1)));
            assert((p + q).skip(1) =~= q);
            assert(clash(a, b, p + q, x1, y1));
        } else {
            assert(p.skip(1) =~= Seq::<Seq<char>>::empty());
            assert(has(x, p.skip(1), x)); assert(has(y, p.skip(1), y));
            assert(clash(a, b, p, x, y));
        }
    }
}
/// a node beyond those of a is one of the first k of b
pub proof fn lemma_merge_first_from(a: Node, b: Node, k: int, i: int)
    requires a is Directory, b is Directory, uniq(b), 0 <= k <= node_len(b), merged_first(kids(a), b, k) is Ok, kids(a).len() <= i < merged_first(kids(a), b, k)->Ok_0.len()
    ensures exists|j: int| 0 <= j < k && node_name(#[trigger] kids(b)[j]) == node_name(merged_first(kids(a), b, k)->Ok_0[i])
    decreases k
{
    let ch = merged_first(kids(a), b, k - 1)->Ok_0; let y = kids(b)[k - 1];
    lemma_child(ch, node_name(y), 0);
    if i < ch.len() { lemma_merge_first_from(a, b, k - 1, i); let j = choose|j: int| 0 <= j < k - 1 && node_name(#[trigger] kids(b)[j]) == node_name(ch[i]); assert(node_name(kids(b)[j]) == node_name(merged_first(kids(a), b, k)->Ok_0[i])); }
    else { assert(node_name(kids(b)[k - 1]) == node_name(y)); }
}
