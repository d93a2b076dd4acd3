// ================================================================= the program around the library

/// a setting is the value that is given, and its default otherwise
pub open spec fn setting(given: Option<bool>, default: bool) -> bool { match given { Some(b) => b, None => default } }
pub open spec fn settings_of(raw: RawConfig) -> Config {
    Config {
        name: raw.site.name, author: raw.site.author,
        strip_extensions: setting(match raw.settings { Some(s) => s.strip_extensions, None => None }, true),
        save_data_files: setting(match raw.settings { Some(s) => s.save_data_files, None => None }, false),
        save_metadata: setting(match raw.settings { Some(s) => s.save_metadata, None => None }, false),
    }
}
// ---- errors of the program
pub enum VxDynStuartError { Core(Error), Script(ScriptError), Text(String), Trace(TracebackError<String>), Fs(FsError) }
pub trait VxIntoDynStuartError: Sized { spec fn dynv(self) -> VxDynStuartError; fn vx_dyn_(self) -> (r: VxDynStuartError) ensures r == self.dynv(); }
impl VxIntoDynStuartError for Error { open spec fn dynv(self) -> VxDynStuartError { VxDynStuartError::Core(self) } fn vx_dyn_(self) -> (r: VxDynStuartError) { VxDynStuartError::Core(self) } }
impl VxIntoDynStuartError for ScriptError { open spec fn dynv(self) -> VxDynStuartError { VxDynStuartError::Script(self) } fn vx_dyn_(self) -> (r: VxDynStuartError) { VxDynStuartError::Script(self) } }
impl VxIntoDynStuartError for String { open spec fn dynv(self) -> VxDynStuartError { VxDynStuartError::Text(self) } fn vx_dyn_(self) -> (r: VxDynStuartError) { VxDynStuartError::Text(self) } }
impl<'a> VxIntoDynStuartError for &'a str { uninterp spec fn dynv(self) -> VxDynStuartError; #[verifier::external_body] fn vx_dyn_(self) -> (r: VxDynStuartError) { unimplemented!() } }
impl VxIntoDynStuartError for TracebackError<String> { open spec fn dynv(self) -> VxDynStuartError { VxDynStuartError::Trace(self) } fn vx_dyn_(self) -> (r: VxDynStuartError) { VxDynStuartError::Trace(self) } }
pub fn vx_dyn_StuartError<T: VxIntoDynStuartError>(x: T) -> (r: VxDynStuartError) ensures r == x.dynv() { x.vx_dyn_() }
impl vstd::std_specs::convert::FromSpecImpl<Error> for Box<VxDynStuartError> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Error) -> Self { Box::new(VxDynStuartError::Core(e)) } }
impl From<Error> for Box<VxDynStuartError> { fn from(e: Error) -> (r: Self) { Box::new(VxDynStuartError::Core(e)) } }
impl vstd::std_specs::convert::FromSpecImpl<ScriptError> for Box<VxDynStuartError> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ScriptError) -> Self { Box::new(VxDynStuartError::Script(e)) } }
impl From<ScriptError> for Box<VxDynStuartError> { fn from(e: ScriptError) -> (r: Self) { Box::new(VxDynStuartError::Script(e)) } }
impl vstd::std_specs::convert::FromSpecImpl<String> for Box<VxDynStuartError> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: String) -> Self { Box::new(VxDynStuartError::Text(e)) } }
impl From<String> for Box<VxDynStuartError> { fn from(e: String) -> (r: Self) { Box::new(VxDynStuartError::Text(e)) } }
impl vstd::std_specs::convert::FromSpecImpl<FsError> for Box<VxDynStuartError> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: FsError) -> Self { Box::new(VxDynStuartError::Fs(e)) } }
impl From<FsError> for Box<VxDynStuartError> { fn from(e: FsError) -> (r: Self) { Box::new(VxDynStuartError::Fs(e)) } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Box<VxDynStuartError> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: &'a str) -> Self { arbitrary() } }
impl<'a> From<&'a str> for Box<VxDynStuartError> { fn from(e: &'a str) -> (r: Self) { Box::new(VxDynStuartError::Text(e.vx_to_string())) } }
impl<'a> VxIntoT<Box<VxDynStuartError>> for &'a str { open spec fn intov(self) -> Box<VxDynStuartError> { Box::new(VxDynStuartError::Text(vx_string(self@))) } #[verifier::external_body] fn vx_into(self) -> (r: Box<VxDynStuartError>) { unimplemented!() } }
impl VxIntoT<Box<VxDynStuartError>> for String { open spec fn intov(self) -> Box<VxDynStuartError> { Box::new(VxDynStuartError::Text(self)) } #[verifier::external_body] fn vx_into(self) -> (r: Box<VxDynStuartError>) { unimplemented!() } }
impl VxIntoT<Box<VxDynStuartError>> for Error { open spec fn intov(self) -> Box<VxDynStuartError> { Box::new(VxDynStuartError::Core(self)) } #[verifier::external_body] fn vx_into(self) -> (r: Box<VxDynStuartError>) { unimplemented!() } }

// ---- scripts
pub open spec fn script_run(s: Scripts, p: PathBuf, w0: VxWorld, w1: VxWorld, r: Option<bool>) -> bool { program_ran("sh"@, seq![p@], s.environment@, w0, w1, r) }
/// the first k scripts were run, one after the other, and each succeeded
pub open spec fn scripts_ok(s: Scripts, l: Seq<PathBuf>, k: int, w0: VxWorld, w1: VxWorld) -> bool decreases k {
    if k <= 0 || k > l.len() { w0 == w1 } else { exists|w: VxWorld| scripts_ok(s, l, k - 1, w0, w) && #[trigger] script_run(s, l[k - 1], w, w1, Some(true)) }
}
pub open spec fn scripts_done(s: Scripts, l: Seq<PathBuf>, w0: VxWorld, w1: VxWorld) -> bool { scripts_ok(s, l, l.len() as int, w0, w1) }
/// one of them did not, and those after it were not run
pub open spec fn script_stops(s: Scripts, l: Seq<PathBuf>, k: int, w0: VxWorld, w: VxWorld, w1: VxWorld, r: Option<bool>) -> bool { scripts_ok(s, l, k, w0, w) && script_run(s, l[k], w, w1, r) }
pub open spec fn scripts_failed(s: Scripts, l: Seq<PathBuf>, w0: VxWorld, w1: VxWorld) -> bool {
    exists|k: int, w: VxWorld, r: Option<bool>| 0 <= k < l.len() && r != Some(true) && #[trigger] script_stops(s, l, k, w0, w, w1, r)
}
pub open spec fn named(l: Seq<PathBuf>) -> bool { forall|i: int| 0 <= i < l.len() ==> path_file_name((#[trigger] l[i])@) is Some }
// ---- one build of the project
pub open spec fn sub(c: StuartContext, p: Seq<char>) -> Seq<char> { path_join(c.project_dir@, p) }
/// b is a with the files of the directory p, if it exists, added
pub open spec fn laid(w: VxWorld, p: Seq<char>, a: Node, b: Node) -> bool {
    if w.fs().contains_key(p) { tree_failure(w, p, false, None) is None && exists|n: Node| #[trigger] tree_read(w, vx_path(w.canon(p)->0), false, None, n) && merged(a, n) == Ok::<Node, (PathBuf, PathBuf)>(b) } else { b == a }
}
pub open spec fn lay_fails(w: VxWorld, p: Seq<char>, a: Node) -> bool {
    w.fs().contains_key(p) && (tree_failure(w, p, false, None) is Some || exists|n: Node| #[trigger] tree_read(w, vx_path(w.canon(p)->0), false, None, n) && merged(a, n) is Err)
}
/// out is the whole site: every page, the static and the temporary files
pub open spec fn made_of(c: StuartContext, w: VxWorld, a: Node, b: Node, out: Node) -> bool { builds(c.stuart, w, c.stuart_env@, a) && laid(w, sub(c, "static"@), a, b) && laid(w, sub(c, "temp"@), b, out) }
pub open spec fn made(c: StuartContext, w: VxWorld, out: Node) -> bool { exists|a: Node, b: Node| #[trigger] made_of(c, w, a, b, out) }
/// a page, a static or a temporary file stops it
pub open spec fn fails_at(c: StuartContext, w: VxWorld, a: Node, b: Node) -> bool {
    builds(c.stuart, w, c.stuart_env@, a) && (lay_fails(w, sub(c, "static"@), a) || (laid(w, sub(c, "static"@), a, b) && lay_fails(w, sub(c, "temp"@), b)))
}
pub open spec fn unmade(c: StuartContext, w: VxWorld) -> bool { (exists|f: Fail| #[trigger] build_fails(c.stuart, w, c.stuart_env@, f)) || (exists|a: Node, b: Node| #[trigger] fails_at(c, w, a, b)) }
/// the files after the temporary ones have been removed, if they could be
pub open spec fn cleared(c: StuartContext, w0: VxWorld, w1: VxWorld) -> bool { w1.failed() || (w1.fs() == fs_without(w0.fs(), sub(c, "temp"@)) && w1.failed() == w0.failed()) }
pub open spec fn written(c: StuartContext, out: Node, w0: VxWorld, w1: VxWorld, r: Result<(), Error>) -> bool { reported(r, saved_root(out, sub(c, c.output@), c.stuart.config, w0.fs()), w0, w1) }
pub open spec fn meta_file(c: StuartContext, out: Node) -> Seq<u8> { utf8(json_text(Value::Object(vx_vec(obj_set(meta_base(c.stuart.config), "data"@, site_meta(out)))))) }
pub open spec fn put_meta(c: StuartContext, out: Node, w0: VxWorld, w1: VxWorld, ok: bool) -> bool {
    if c.stuart.config.save_metadata { if ok { w1.fs() == w0.fs().insert(sub(c, "metadata.json"@), VxEntry::File(meta_file(c, out))) && w1.failed() == w0.failed() } else { w1.failed() } } else { ok && w1 == w0 }
}
/// the world in which a site was made, and those before and after it was saved, and after its metadata was
pub open spec fn publishes(c: StuartContext, w1: VxWorld, out: Node, w2: VxWorld) -> bool { made(c, w1, out) && cleared(c, w1, w2) }
pub open spec fn published(c: StuartContext, w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld, w4: VxWorld) -> bool { publishes(c, w1, out, w2) && written(c, out, w2, w3, Ok(())) && put_meta(c, out, w3, w4, true) }
pub open spec fn unpublished(c: StuartContext, w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld, w4: VxWorld) -> bool {
    publishes(c, w1, out, w2) && ((exists|e: Error| #[trigger] written(c, out, w2, w4, Err(e))) || (written(c, out, w2, w3, Ok(())) && put_meta(c, out, w3, w4, false)))
}
/// a build: the scripts before it; the site; its files; the scripts after it. What stops one of them stops the build there.
pub open spec fn pre(c: StuartContext, w0: VxWorld, w1: VxWorld) -> bool { scripts_done(c.scripts, c.scripts.on_pre_build@, w0, w1) }
pub open spec fn build_ok(c: StuartContext, w0: VxWorld, w9: VxWorld) -> bool {
    exists|w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld, w4: VxWorld| pre(c, w0, w1) && #[trigger] published(c, w1, out, w2, w3, w4) && scripts_done(c.scripts, c.scripts.on_post_build@, w4, w9)
}
pub open spec fn build_err(c: StuartContext, w0: VxWorld, w9: VxWorld) -> bool {
    ||| scripts_failed(c.scripts, c.scripts.on_pre_build@, w0, w9)
    ||| pre(c, w0, w9) && unmade(c, w9)
    ||| exists|w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld| pre(c, w0, w1) && #[trigger] unpublished(c, w1, out, w2, w3, w9)
    ||| exists|w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld, w4: VxWorld| pre(c, w0, w1) && #[trigger] published(c, w1, out, w2, w3, w4) && scripts_failed(c.scripts, c.scripts.on_post_build@, w4, w9)
}
/// C24: a build which fails before the whole site is made has only run scripts
//@C24
pub proof fn thm_failed_build(c: StuartContext, w0: VxWorld, w9: VxWorld)
    requires build_err(c, w0, w9)
    ensures scripts_failed(c.scripts, c.scripts.on_pre_build@, w0, w9) || pre(c, w0, w9) || exists|w1: VxWorld, out: Node| pre(c, w0, w1) && #[trigger] made(c, w1, out)
{
    if exists|w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld| pre(c, w0, w1) && #[trigger] unpublished(c, w1, out, w2, w3, w9) {
        let (w1, out, w2, w3) = choose|w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld| pre(c, w0, w1) && #[trigger] unpublished(c, w1, out, w2, w3, w9);
        assert(made(c, w1, out));
    }
    if exists|w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld, w4: VxWorld| pre(c, w0, w1) && #[trigger] published(c, w1, out, w2, w3, w4) && scripts_failed(c.scripts, c.scripts.on_post_build@, w4, w9) {
        let (w1, out, w2, w3, w4) = choose|w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld, w4: VxWorld| pre(c, w0, w1) && #[trigger] published(c, w1, out, w2, w3, w4) && scripts_failed(c.scripts, c.scripts.on_post_build@, w4, w9);
        assert(made(c, w1, out));
    }
}
/// the metadata of the nodes of a site
pub open spec fn plugin_objects() -> bool { forall|p: VxDynNodeProcessor| #[trigger] custom_json(p) is Object }
pub proof fn lemma_built_meta(s: Site, n: Node, e: Env)
    requires plugin_objects(), built(s, n, e) is Ok
    ensures meta_ok(built(s, n, e)->Ok_0), n is Directory ==> built(s, n, e)->Ok_0 is Directory
    decreases n, node_len(n) + 1
{
    match n {
        Node::File { .. } => { },
        Node::Directory { name, children, source } => {
            let k = children@.len() as int; let ch = built_first(s, n, env_in(e, children@), k)->Ok_0;
            lemma_built_meta_first(s, n, env_in(e, children@), k);
            lemma_meta_all(built(s, n, e)->Ok_0, k);
        }
    }
}
pub proof fn lemma_built_meta_first(s: Site, n: Node, e: Env, k: int)
    requires plugin_objects(), built_first(s, n, e, k) is Ok, n is Directory, 0 <= k <= node_len(n)
    ensures built_first(s, n, e, k)->Ok_0.len() == k, forall|i: int| 0 <= i < k ==> meta_ok(#[trigger] built_first(s, n, e, k)->Ok_0[i])
    decreases n, k
{ if k > 0 { lemma_built_meta_first(s, n, e, k - 1); assert(decreases_to!(n => kids(n)[k - 1])); lemma_built_meta(s, kids(n)[k - 1], e);
    let a = built_first(s, n, e, k - 1)->Ok_0; let b = built_first(s, n, e, k)->Ok_0;
    assert forall|i: int| 0 <= i < k implies meta_ok(#[trigger] b[i]) by { if i < k - 1 { assert(b[i] == a[i]); } } } }
pub proof fn lemma_meta_all(n: Node, k: int) requires n is Directory, 0 <= k <= node_len(n), forall|i: int| 0 <= i < k ==> meta_ok(#[trigger] kids(n)[i]) ensures meta_ok_first(n, k) decreases k
{ if k > 0 { lemma_meta_all(n, k - 1); assert(meta_ok(kids(n)[k - 1])); } }
pub proof fn lemma_plain_meta(w: VxWorld, p: Path, n: Node)
    requires entry_read(w, p, false, None, n)
    ensures meta_ok(n)
    decreases n
{
    match n {
        Node::File { .. } => { },
        Node::Directory { name, children, source } => {
            assert forall|i: int| 0 <= i < children@.len() implies meta_ok(#[trigger] children@[i]) by { assert(decreases_to!(n => children@[i])); lemma_plain_meta(w, vx_path(w.list(p@)->0[i]), children@[i]); }
            lemma_meta_all(n, node_len(n));
        }
    }
}
pub proof fn lemma_plain_tree_meta(w: VxWorld, p: Path, n: Node)
    requires tree_read(w, p, false, None, n) ensures meta_ok(n), n is Directory
{
    assert forall|i: int| 0 <= i < kids(n).len() implies meta_ok(#[trigger] kids(n)[i]) by { lemma_plain_meta(w, vx_path(w.list(p@)->0[i]), kids(n)[i]); }
    lemma_meta_all(n, node_len(n));
}
pub proof fn lemma_merged_meta(a: Node, b: Node)
    requires a is Directory, b is Directory, meta_ok(a), meta_ok(b), merged(a, b) is Ok
    ensures meta_ok(merged(a, b)->Ok_0), merged(a, b)->Ok_0 is Directory
    decreases b, node_len(b) + 1
{
    assert forall|i: int| 0 <= i < kids(a).len() implies meta_ok(#[trigger] kids(a)[i]) by { lemma_meta_ok(a, node_len(a), i); }
    lemma_merged_meta_first(kids(a), b, node_len(b));
    lemma_meta_all(merged(a, b)->Ok_0, node_len(merged(a, b)->Ok_0));
}
pub proof fn lemma_merged_meta_first(a: Seq<Node>, b: Node, k: int)
    requires b is Directory, 0 <= k <= node_len(b), meta_ok(b), merged_first(a, b, k) is Ok, forall|i: int| 0 <= i < a.len() ==> meta_ok(#[trigger] a[i])
    ensures forall|i: int| 0 <= i < merged_first(a, b, k)->Ok_0.len() ==> meta_ok(#[trigger] merged_first(a, b, k)->Ok_0[i])
    decreases b, k
{
    if k > 0 {
        lemma_merged_meta_first(a, b, k - 1);
        let ch = merged_first(a, b, k - 1)->Ok_0; let y = kids(b)[k - 1]; let j = child(ch, node_name(y)); let r = merged_first(a, b, k)->Ok_0;
        lemma_meta_ok(b, node_len(b), k - 1); lemma_child(ch, node_name(y), 0);
        assert(decreases_to!(b => kids(b)[k - 1]));
        if j >= 0 && ch[j] is Directory && y is Directory { lemma_merged_meta(ch[j], y); }
        assert forall|i: int| 0 <= i < r.len() implies meta_ok(#[trigger] r[i]) by { if i < ch.len() && i != j { assert(r[i] == ch[i]); } }
    }
}
pub proof fn lemma_site_meta(s: Stuart, w: VxWorld, e: Seq<char>, out: Node)
    requires plugin_objects(), builds(s, w, e, out)
    ensures meta_ok(out), out is Directory
{
    let n = choose|n: Node| #[trigger] content_of(s, w, n) && site_built(s, n, e) == Ok::<Node, Fail>(out);
    lemma_prepared_dir(site_of(s, n, e), n);
    let m = prepared(site_of(s, n, e), n)->Ok_0;
    lemma_built_meta(site_of(s, m, e), m, no_env());
}
pub proof fn lemma_prepared_dir(s: Site, n: Node) requires n is Directory, prepared(s, n) is Ok ensures prepared(s, n)->Ok_0 is Directory { }
pub open spec fn root_named(w: VxWorld, p: Seq<char>) -> bool { w.canon(p) is Some ==> path_file_name(w.canon(p)->0) is Some }
/// none of the directories of the project is the root of the file system
pub open spec fn roots_ok(c: StuartContext, w: VxWorld) -> bool { root_ok(c.stuart, w) && root_named(w, sub(c, "static"@)) && root_named(w, sub(c, "temp"@)) }
pub open spec fn same_but_output(c: StuartContext, d: StuartContext) -> bool {
    c.stuart.config == d.stuart.config && c.scripts == d.scripts && c.stuart_env == d.stuart_env && c.project_dir == d.project_dir && c.output == d.output
}
pub open spec fn dirs_laid(c: StuartContext, w: VxWorld, a: Node, n: Node, k: int) -> bool {
    if k <= 0 { n == a } else if k == 1 { laid(w, sub(c, "static"@), a, n) } else { exists|b: Node| #[trigger] made_of(c, w, a, b, n) }
}
pub open spec fn dir_no(k: int) -> Seq<char> { if k == 0 { "static"@ } else { "temp"@ } }
/// what one more directory does
pub proof fn lemma_dir_step(c: StuartContext, w0: VxWorld, w: VxWorld, a: Node, cur: Node, k: int, p: Seq<char>)
    requires 0 <= k < 2, p == sub(c, dir_no(k)), dirs_laid(c, w, a, cur, k), builds(c.stuart, w, c.stuart_env@, a), pre(c, w0, w)
    ensures
        !w.fs().contains_key(p) ==> dirs_laid(c, w, a, cur, k + 1),
        w.fs().contains_key(p) && tree_failure(w, p, false, None) is Some ==> build_err(c, w0, w),
        w.fs().contains_key(p) && tree_failure(w, p, false, None) is None ==> forall|n: Node| #[trigger] tree_read(w, vx_path(w.canon(p)->0), false, None, n) ==> dir_then(c, w0, w, a, cur, n, k),
{
    lemma_dirs_fail(c, w, a, cur, k);
    if !w.fs().contains_key(p) { assert(laid(w, p, cur, cur)); }
    if w.fs().contains_key(p) && tree_failure(w, p, false, None) is Some { assert(lay_fails(w, p, cur)); }
    if w.fs().contains_key(p) && tree_failure(w, p, false, None) is None {
        assert forall|n: Node| #[trigger] tree_read(w, vx_path(w.canon(p)->0), false, None, n) implies dir_then(c, w0, w, a, cur, n, k) by {
            match merged(cur, n) { Ok(m) => { assert(laid(w, p, cur, m)); }, Err(_) => { assert(lay_fails(w, p, cur)); } }
        }
    }
}
pub open spec fn dir_then(c: StuartContext, w0: VxWorld, w: VxWorld, a: Node, cur: Node, n: Node, k: int) -> bool { match merged(cur, n) { Ok(m) => dirs_laid(c, w, a, m, k + 1), Err(_) => build_err(c, w0, w) } }
pub proof fn lemma_build_start(c: StuartContext, w0: VxWorld, w: VxWorld)
    ensures scripts_failed(c.scripts, c.scripts.on_pre_build@, w0, w) ==> build_err(c, w0, w),
        pre(c, w0, w) ==> forall|f: Fail| #[trigger] build_fails(c.stuart, w, c.stuart_env@, f) ==> build_err(c, w0, w)
{ }
pub proof fn lemma_unsaved(c: StuartContext, w0: VxWorld, w1: VxWorld, out: Node, w2: VxWorld)
    requires pre(c, w0, w1), publishes(c, w1, out, w2)
    ensures forall|v: VxWorld, e: Error| #[trigger] reported(Err(e), saved_root(out, sub(c, c.output@), c.stuart.config, w2.fs()), w2, v) ==> build_err(c, w0, v)
{ assert forall|v: VxWorld, e: Error| #[trigger] reported(Err(e), saved_root(out, sub(c, c.output@), c.stuart.config, w2.fs()), w2, v) implies build_err(c, w0, v) by { assert(written(c, out, w2, v, Err(e))); assert(unpublished(c, w1, out, w2, w2, v)); } }
pub proof fn lemma_unmeta(c: StuartContext, w0: VxWorld, w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld)
    requires pre(c, w0, w1), publishes(c, w1, out, w2), written(c, out, w2, w3, Ok(()))
    ensures c.stuart.config.save_metadata ==> forall|v: VxWorld| #[trigger] v.failed() ==> build_err(c, w0, v)
{ assert forall|v: VxWorld| c.stuart.config.save_metadata && #[trigger] v.failed() implies build_err(c, w0, v) by { assert(put_meta(c, out, w3, v, false)); assert(unpublished(c, w1, out, w2, w3, v)); } }
pub proof fn lemma_build_end(c: StuartContext, w0: VxWorld, w1: VxWorld, out: Node, w2: VxWorld, w3: VxWorld, w4: VxWorld)
    requires pre(c, w0, w1), publishes(c, w1, out, w2), written(c, out, w2, w3, Ok(())), put_meta(c, out, w3, w4, true)
    ensures forall|v: VxWorld| #[trigger] scripts_done(c.scripts, c.scripts.on_post_build@, w4, v) ==> build_ok(c, w0, v),
        forall|v: VxWorld| #[trigger] scripts_failed(c.scripts, c.scripts.on_post_build@, w4, v) ==> build_err(c, w0, v)
{ assert(published(c, w1, out, w2, w3, w4)); }
/// what stops after k directories
pub proof fn lemma_dirs_fail(c: StuartContext, w: VxWorld, a: Node, cur: Node, k: int)
    requires 0 <= k < 2, dirs_laid(c, w, a, cur, k), builds(c.stuart, w, c.stuart_env@, a)
    ensures lay_fails(w, sub(c, dir_no(k)), cur) ==> unmade(c, w),
        forall|n: Node| #[trigger] laid(w, sub(c, dir_no(k)), cur, n) ==> dirs_laid(c, w, a, n, k + 1),
{
    if lay_fails(w, sub(c, dir_no(k)), cur) { if k == 0 { assert(fails_at(c, w, a, a)); } else { assert(fails_at(c, w, a, cur)); } }
    assert forall|n: Node| #[trigger] laid(w, sub(c, dir_no(k)), cur, n) implies dirs_laid(c, w, a, n, k + 1) by { if k == 1 { assert(made_of(c, w, a, cur, n)); } }
}
// ---- finding the scripts
pub open spec fn pre_name(n: Seq<char>) -> bool { n == "onPreBuild.sh"@ || n == "onPreBuild"@ }
pub open spec fn post_name(n: Seq<char>) -> bool { n == "onPostBuild.sh"@ || n == "onPostBuild"@ }
pub open spec fn is_script(w: VxWorld, p: Seq<char>, before: bool) -> bool {
    w.kind(p) == Some(VxKind::File) && path_file_name(p) is Some && (if before { pre_name(path_file_name(p)->0) } else { post_name(path_file_name(p)->0) })
}
/// the scripts among the first k entries of a directory, in the order of the directory
pub open spec fn found(w: VxWorld, l: Seq<Seq<char>>, before: bool, k: int) -> Seq<PathBuf> decreases k {
    if k <= 0 || k > l.len() { Seq::empty() } else if is_script(w, l[k - 1], before) { found(w, l, before, k - 1).push(vx_path(l[k - 1])) } else { found(w, l, before, k - 1) }
}
pub open spec fn scripts_in(w: VxWorld, p: Seq<char>, before: bool) -> Seq<PathBuf> { match w.list(p) { Some(l) => found(w, l, before, l.len() as int), None => Seq::empty() } }
pub proof fn lemma_found_named(w: VxWorld, l: Seq<Seq<char>>, before: bool, k: int) ensures named(found(w, l, before, k)) decreases k { if k > 0 && k <= l.len() { lemma_found_named(w, l, before, k - 1); } }
pub proof fn lemma_script_names()
    ensures forall|n: Seq<char>| #[trigger] PRE_BUILD_SCRIPT_NAMES.texts().contains(n) == pre_name(n), forall|n: Seq<char>| #[trigger] POST_BUILD_SCRIPT_NAMES.texts().contains(n) == post_name(n)
{
    let a = PRE_BUILD_SCRIPT_NAMES.texts(); let b = POST_BUILD_SCRIPT_NAMES.texts();
    assert(a.len() == 2 && a[0] == "onPreBuild.sh"@ && a[1] == "onPreBuild"@);
    assert(b.len() == 2 && b[0] == "onPostBuild.sh"@ && b[1] == "onPostBuild"@);
    assert forall|n: Seq<char>| pre_name(n) implies #[trigger] a.contains(n) by { if n == a[0] { assert(a.contains(a[0])); } else { assert(a.contains(a[1])); } }
    assert forall|n: Seq<char>| post_name(n) implies #[trigger] b.contains(n) by { if n == b[0] { assert(b.contains(b[0])); } else { assert(b.contains(b[1])); } }
}
