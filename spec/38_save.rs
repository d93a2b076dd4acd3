// ================================================================= saving a tree

pub enum SaveRes { Ok(Fs), Conflict(PathBuf, PathBuf), Bad }
pub open spec fn mkdir(fs: Fs, p: Seq<char>) -> Fs { if fs.contains_key(p) { fs } else { fs.insert(p, VxEntry::Dir) } }
/// the files that are written: no templates, and data only if asked for
pub open spec fn is_saved(name: Seq<char>, c: Config) -> bool { name != "root.html"@ && name != "md.html"@ && (c.save_data_files || !is_suffix(".json"@, name)) }
/// the pages that get a directory of their own
pub open spec fn is_stripped(n: Node, c: Config) -> bool { c.strip_extensions && is_suffix(".html"@, node_name(n)) && node_name(n) != "index.html"@ && !(node_pc(n) is Ignored) }
pub open spec fn stripped_dir(n: Node, p: Seq<char>) -> Seq<char> { path_join(p, node_name(n).take(node_name(n).len() - 5)) }
/// where a file is written
pub open spec fn target(n: Node, p: Seq<char>, c: Config) -> Seq<char> { if is_stripped(n, c) { path_join(stripped_dir(n, p), "index.html"@) } else { path_join(p, node_name(n)) } }
/// the files after a node has been saved in the directory p
pub open spec fn saved(n: Node, p: Seq<char>, c: Config, fs: Fs) -> SaveRes decreases n, node_len(n) + 1 {
    match n {
        Node::Directory { name, .. } => saved_first(n, path_join(p, name@), c, mkdir(fs, path_join(p, name@)), node_len(n)),
        Node::File { contents, source, .. } => if !is_saved(node_name(n), c) { SaveRes::Ok(fs) } else {
            let fs1 = if is_stripped(n, c) { mkdir(fs, stripped_dir(n, p)) } else { fs };
            if fs1.contains_key(target(n, p, c)) { SaveRes::Conflict(vx_path(target(n, p, c)), source) }
            else { SaveRes::Ok(fs1.insert(target(n, p, c), VxEntry::File(contents@))) } }
    }
}
/// the files after the first k nodes of a directory have been saved in p
pub open spec fn saved_first(n: Node, p: Seq<char>, c: Config, fs: Fs, k: int) -> SaveRes decreases n, k {
    match n {
        Node::Directory { children, .. } =>
            if k <= 0 || k > children@.len() { SaveRes::Ok(fs) } else { match saved_first(n, p, c, fs, k - 1) {
                SaveRes::Ok(f) => saved(children@[k - 1], p, c, f),
                e => e } },
        _ => SaveRes::Ok(fs),
    }
}
/// the output directory p is made anew
pub open spec fn fresh(fs: Fs, p: Seq<char>) -> Fs { if fs_is_dir(fs, p) { fs_without(fs, p) } else { fs } }
pub open spec fn saved_root(n: Node, p: Seq<char>, c: Config, fs: Fs) -> SaveRes {
    if fresh(fs, p).contains_key(p) { SaveRes::Bad } else { saved_first(n, p, c, fresh(fs, p).insert(p, VxEntry::Dir), node_len(n)) }
}
/// what the caller of a function that saves is told
pub open spec fn reported(r: Result<(), Error>, x: SaveRes, w0: VxWorld, w1: VxWorld) -> bool {
    &&& (r is Ok ==> x == SaveRes::Ok(w1.fs()) && w1.failed() == w0.failed())
    &&& (r is Err ==> (x matches SaveRes::Conflict(t, s) && r->Err_0 == Error::Fs(FsError::Conflict(t, s)))
        || ((w1.failed() || x is Bad) && r->Err_0 == Error::Fs(FsError::Write)))
}
pub proof fn lemma_saved_err(n: Node, p: Seq<char>, c: Config, fs: Fs, k: int, l: int)
    requires 0 <= k <= l <= node_len(n), !(saved_first(n, p, c, fs, k) is Ok) ensures saved_first(n, p, c, fs, l) == saved_first(n, p, c, fs, k) decreases l - k
{ if k < l { lemma_saved_err(n, p, c, fs, k, l - 1); } }
// ---- what that means for the files on disk
/// the files of a tree that are written, each with its place and its bytes
pub open spec fn targets(n: Node, p: Seq<char>, c: Config) -> Seq<(Seq<char>, Seq<u8>)> decreases n, node_len(n) + 1 {
    match n {
        Node::Directory { name, .. } => targets_first(n, path_join(p, name@), c, node_len(n)),
        Node::File { contents, .. } => if is_saved(node_name(n), c) { seq![(target(n, p, c), contents@)] } else { Seq::empty() },
    }
}
pub open spec fn targets_first(n: Node, p: Seq<char>, c: Config, k: int) -> Seq<(Seq<char>, Seq<u8>)> decreases n, k {
    match n { Node::Directory { children, .. } => if k <= 0 || k > children@.len() { Seq::empty() } else { targets_first(n, p, c, k - 1) + targets(children@[k - 1], p, c) }, _ => Seq::empty() }
}
pub open spec fn kept(f: Fs, g: Fs, t: Seq<char>) -> bool { f.contains_key(t) ==> g.contains_key(t) && g[t] == f[t] }
pub open spec fn listed(ts: Seq<(Seq<char>, Seq<u8>)>, t: Seq<char>, e: VxEntry) -> bool { exists|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).0 == t && VxEntry::File(ts[i].1) == e }
/// from f to g exactly the files ts were added, each once, nothing was overwritten
pub open spec fn wrote(f: Fs, g: Fs, ts: Seq<(Seq<char>, Seq<u8>)>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] kept(f, g, t)
    &&& forall|i: int| 0 <= i < ts.len() ==> !f.contains_key((#[trigger] ts[i]).0) && g.contains_key(ts[i].0) && g[ts[i].0] == VxEntry::File(ts[i].1)
    &&& forall|t: Seq<char>| #[trigger] g.contains_key(t) && !f.contains_key(t) && g[t] is File ==> listed(ts, t, g[t])
    &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> (#[trigger] ts[i]).0 != (#[trigger] ts[j]).0
}
pub proof fn lemma_wrote_join(f: Fs, g: Fs, h: Fs, a: Seq<(Seq<char>, Seq<u8>)>, b: Seq<(Seq<char>, Seq<u8>)>) requires wrote(f, g, a), wrote(g, h, b) ensures wrote(f, h, a + b)
{
    let ts = a + b;
    assert forall|t: Seq<char>| #[trigger] kept(f, h, t) by { assert(kept(f, g, t)); assert(kept(g, h, t)); }
    assert forall|i: int| 0 <= i < ts.len() implies !f.contains_key((#[trigger] ts[i]).0) && h.contains_key(ts[i].0) && h[ts[i].0] == VxEntry::File(ts[i].1) by {
        if i < a.len() { assert(ts[i] == a[i]); assert(kept(g, h, a[i].0)); } else { assert(ts[i] == b[i - a.len()]); assert(kept(f, g, b[i - a.len()].0)); }
    }
    assert forall|t: Seq<char>| #[trigger] h.contains_key(t) && !f.contains_key(t) && h[t] is File implies listed(ts, t, h[t]) by {
        if g.contains_key(t) {
            assert(kept(g, h, t));
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == t && VxEntry::File(a[i].1) == g[t]; assert(ts[i] == a[i]);
        } else {
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == t && VxEntry::File(b[i].1) == h[t]; assert(ts[a.len() + i] == b[i]);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < ts.len() implies (#[trigger] ts[i]).0 != (#[trigger] ts[j]).0 by {
        if j < a.len() { assert(ts[i] == a[i] && ts[j] == a[j]); }
        else if i < a.len() { assert(ts[i] == a[i]); assert(ts[j] == b[j - a.len()]); }
        else { assert(ts[i] == b[i - a.len()]); assert(ts[j] == b[j - a.len()]); }
    }
}
/// C20: what is saved is exactly the files of the tree that are meant to be
//@C20
pub proof fn thm_saved(n: Node, p: Seq<char>, c: Config, f: Fs)
    ensures saved(n, p, c, f) matches SaveRes::Ok(g) ==> wrote(f, g, targets(n, p, c))
    decreases n, node_len(n) + 1
{
    match n {
        Node::Directory { name, .. } => {
            let d = path_join(p, name@);
            thm_saved_first(n, d, c, mkdir(f, d), node_len(n));
            if let SaveRes::Ok(g) = saved(n, p, c, f) {
                lemma_mkdir(f, d);
                lemma_wrote_join(f, mkdir(f, d), g, Seq::empty(), targets_first(n, d, c, node_len(n)));
                assert(Seq::<(Seq<char>, Seq<u8>)>::empty() + targets_first(n, d, c, node_len(n)) =~= targets(n, p, c));
            }
        }
        Node::File { contents, .. } => if is_saved(node_name(n), c) {
            let d = stripped_dir(n, p); let t = target(n, p, c);
            let f1 = if is_stripped(n, c) { mkdir(f, d) } else { f };
            lemma_mkdir(f, d);
            let ts = seq![(t, contents@)];
            if !f1.contains_key(t) {
                let g = f1.insert(t, VxEntry::File(contents@));
                assert(ts[0] == (t, contents@));
                assert(wrote(f1, g, ts));
                lemma_wrote_join(f, f1, g, Seq::empty(), ts);
                assert(Seq::<(Seq<char>, Seq<u8>)>::empty() + ts =~= ts);
            }
        } else { assert(wrote(f, f, Seq::empty())); }
    }
}
pub proof fn lemma_mkdir(f: Fs, d: Seq<char>) ensures wrote(f, mkdir(f, d), Seq::empty()), wrote(f, f, Seq::empty()) { }
pub proof fn thm_saved_first(n: Node, p: Seq<char>, c: Config, f: Fs, k: int) requires 0 <= k <= node_len(n), n is Directory
    ensures saved_first(n, p, c, f, k) matches SaveRes::Ok(g) ==> wrote(f, g, targets_first(n, p, c, k))
    decreases n, k
{
    if k > 0 {
        thm_saved_first(n, p, c, f, k - 1);
        if let SaveRes::Ok(g) = saved_first(n, p, c, f, k - 1) {
            assert(decreases_to!(n => kids(n)[k - 1]));
            thm_saved(kids(n)[k - 1], p, c, g);
            if let SaveRes::Ok(h) = saved_first(n, p, c, f, k) { lemma_wrote_join(f, g, h, targets_first(n, p, c, k - 1), targets(kids(n)[k - 1], p, c)); }
        }
    } else { lemma_mkdir(f, p); }
}
/// C20: the output directory holds the files of the tree and no others
//@C20
pub proof fn thm_saved_root(n: Node, p: Seq<char>, c: Config, f: Fs) requires n is Directory
    ensures saved_root(n, p, c, f) matches SaveRes::Ok(g) ==> {
        &&& forall|i: int| 0 <= i < targets_first(n, p, c, node_len(n)).len() ==> g.contains_key((#[trigger] targets_first(n, p, c, node_len(n))[i]).0) && g[targets_first(n, p, c, node_len(n))[i].0] == VxEntry::File(targets_first(n, p, c, node_len(n))[i].1)
        &&& fs_is_dir(f, p) ==> forall|t: Seq<char>| #[trigger] g.contains_key(t) && path_under(t, p) && g[t] is File ==> listed(targets_first(n, p, c, node_len(n)), t, g[t])
        &&& forall|t: Seq<char>| !path_under(t, p) && #[trigger] f.contains_key(t) ==> g.contains_key(t) && g[t] == f[t]
    }
{
    let f1 = fresh(f, p).insert(p, VxEntry::Dir);
    thm_saved_first(n, p, c, f1, node_len(n));
    if let SaveRes::Ok(g) = saved_root(n, p, c, f) {
        assert forall|t: Seq<char>| !path_under(t, p) && #[trigger] f.contains_key(t) implies g.contains_key(t) && g[t] == f[t] by { assert(kept(f1, g, t)); assert(p.take(p.len() as int) =~= p); assert(t != p); }
        assert forall|t: Seq<char>| fs_is_dir(f, p) && #[trigger] g.contains_key(t) && path_under(t, p) && g[t] is File implies listed(targets_first(n, p, c, node_len(n)), t, g[t]) by { assert(kept(f1, g, t)); }
    }
}
// ================================================================= metadata of a tree
/// the metadata a file brings is an object (files of plugins may bring what they like)
pub open spec fn meta_ok(n: Node) -> bool decreases n, node_len(n) + 1 {
    match n { Node::File { metadata, .. } => metadata is Some ==> metadata->0 is Object, Node::Directory { .. } => meta_ok_first(n, node_len(n)) }
}
pub open spec fn meta_ok_first(n: Node, k: int) -> bool decreases n, k {
    match n { Node::Directory { children, .. } => if k <= 0 || k > children@.len() { true } else { meta_ok_first(n, k - 1) && meta_ok(children@[k - 1]) }, _ => true }
}
/// the members of an object added to another one, in order
pub open spec fn obj_add(o: Seq<(String, Value)>, a: Seq<(String, Value)>, k: int) -> Seq<(String, Value)> decreases k {
    if k <= 0 || k > a.len() { o } else { obj_set(obj_add(o, a, k - 1), a[k - 1].0@, a[k - 1].1) }
}
pub open spec fn str_val(s: Seq<char>) -> Value { Value::String(vx_string(s)) }
pub open spec fn file_meta(n: Node) -> Seq<(String, Value)> {
    let o = seq![(vx_string("name"@), str_val(node_name(n)))];
    match n { Node::File { metadata: Some(m), .. } => obj_add(o, m->Object_0@, m->Object_0@.len() as int), _ => obj_set(o, "type"@, str_val("file"@)) }
}
/// the entry of a node
pub open spec fn meta(n: Node) -> Value decreases n, node_len(n) + 1 {
    match n {
        Node::Directory { name, .. } => Value::Object(vx_vec(seq![(vx_string("type"@), str_val("directory"@)), (vx_string("name"@), str_val(name@)), (vx_string("children"@), Value::Array(vx_vec(metas(n, node_len(n)))))])),
        Node::File { .. } => Value::Object(vx_vec(file_meta(n))),
    }
}
/// the entries of the first k nodes of a directory
pub open spec fn metas(n: Node, k: int) -> Seq<Value> decreases n, k {
    match n { Node::Directory { children, .. } => if k <= 0 || k > children@.len() { Seq::empty() } else { metas(n, k - 1).push(meta(children@[k - 1])) }, _ => Seq::empty() }
}
/// the data of a site: the entries of the nodes of its root
pub open spec fn site_meta(n: Node) -> Value { match n { Node::Directory { .. } => Value::Array(vx_vec(metas(n, node_len(n)))), _ => meta(n) } }
pub open spec fn meta_base(c: Config) -> Seq<(String, Value)> { seq![(vx_string("name"@), str_val(c.name@)), (vx_string("author"@), match c.author { Some(s) => Value::String(s), None => Value::Null })] }
/// C21: one entry for every node of a directory, in order
//@C21
pub proof fn thm_metas(n: Node, k: int) requires 0 <= k <= node_len(n), n is Directory
    ensures metas(n, k).len() == k, forall|i: int| 0 <= i < k ==> #[trigger] metas(n, k)[i] == meta(kids(n)[i])
    decreases k
{ if k > 0 { thm_metas(n, k - 1); } }
pub proof fn lemma_meta_ok(n: Node, k: int, i: int) requires 0 <= i < k <= node_len(n), meta_ok_first(n, k), n is Directory ensures meta_ok(kids(n)[i]) decreases k { if i < k - 1 { lemma_meta_ok(n, k - 1, i); } }
