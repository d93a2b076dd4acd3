// ================================================================= the build of a site

/// the variable `env`: the environment of the build first, then every variable of the process
pub open spec fn env_pairs(stuart_env: Seq<char>) -> Seq<(String, String)> { seq![(vx_string("STUART_ENV"@), vx_string(stuart_env))] + env_vars() }
pub open spec fn str_pair(x: (String, String)) -> (String, Value) { (x.0, Value::String(x.1)) }
pub open spec fn str_pairs(l: Seq<(String, String)>) -> Seq<(String, Value)> { l.map_values(|x: (String, String)| str_pair(x)) }
pub open spec fn env_obj(stuart_env: Seq<char>) -> Value { Value::Object(vx_vec(str_pairs(env_pairs(stuart_env)))) }
pub open spec fn base_frame(stuart_env: Seq<char>) -> StackFrame { frame_with(frame("base"@), "env"@, env_obj(stuart_env)) }
/// `$env.STUART_ENV` is the environment of the build, whatever is set outside
pub proof fn thm_stuart_env(e: Seq<char>)
    ensures json_key(env_obj(e), "STUART_ENV"@) == Some(Value::String(vx_string(e)))
{
    let o = str_pairs(env_pairs(e));
    assert(o[0].0@ == "STUART_ENV"@); assert(o[0].1 == Value::String(vx_string(e)));
}
/// `$env.NAME` is the value of any other variable of the process
pub open spec fn env_value(l: Seq<(String, String)>, k: Seq<char>, i: int) -> Option<Seq<char>> decreases l.len() - i {
    if i < 0 || i >= l.len() { None } else if l[i].0@ == k { Some(l[i].1@) } else { env_value(l, k, i + 1) }
}
pub proof fn lemma_env_value(l: Seq<(String, String)>, o: Seq<(String, Value)>, k: Seq<char>, i: int)
    requires 0 <= i <= l.len(), o == str_pairs(l)
    ensures match env_value(l, k, i) { None => obj_find_from(o, k, i) == -1, Some(v) => 0 <= obj_find_from(o, k, i) < o.len() && o[obj_find_from(o, k, i)].1 == Value::String(vx_string(v)) }
    decreases l.len() - i
{ if i < l.len() { assert(o[i] == str_pair(l[i])); lemma_env_value(l, o, k, i + 1); } }
pub proof fn thm_env_value(e: Seq<char>, k: Seq<char>)
    requires k != "STUART_ENV"@
    ensures json_key(env_obj(e), k) == (match env_value(env_vars(), k, 0) { Some(v) => Some(Value::String(vx_string(v))), None => None::<Value> })
{
    let l = env_pairs(e); let o = str_pairs(l);
    lemma_env_value(l, o, k, 0);
    assert(l.skip(1) =~= env_vars());
    lemma_env_shift(l, env_vars(), k, 0);
    assert(l[0].0@ == "STUART_ENV"@);
    assert(env_value(l, k, 0) == env_value(l, k, 1));
}
pub proof fn lemma_env_shift(l: Seq<(String, String)>, m: Seq<(String, String)>, k: Seq<char>, i: int)
    requires l.len() == m.len() + 1, l.skip(1) == m, 0 <= i <= m.len()
    ensures env_value(l, k, i + 1) == env_value(m, k, i)
    decreases m.len() - i
{ if i < m.len() { assert(l.skip(1)[i] == l[i + 1]); lemma_env_shift(l, m, k, i + 1); } }

/// what a build depends on, besides the files
pub open spec fn site_of(s: Stuart, input: Node, stuart_env: Seq<char>) -> Site { Site { input: Some(input), base: base_frame(stuart_env), save_metadata: s.config.save_metadata } }
pub open spec fn plugins_of<'a>(s: Stuart) -> Option<&'a VxDynManager> { match s.plugins { Some(b) => Some(&*b), None => None } }
pub open spec fn no_env() -> Env { Env { root: None, md: None } }
/// in is the tree of the content files
pub open spec fn content_of(s: Stuart, w: VxWorld, n: Node) -> bool {
    tree_failure(w, s.dir@, true, plugins_of(s)) is None && tree_read(w, vx_path(w.canon(s.dir@)->0), true, plugins_of(s), n)
}
/// the site made of the tree: the HTML of every markdown body first, then every page
pub open spec fn site_built(s: Stuart, n: Node, stuart_env: Seq<char>) -> Result<Node, Fail> {
    match prepared(site_of(s, n, stuart_env), n) { Err(f) => Err(f), Ok(m) => built(site_of(s, m, stuart_env), m, no_env()) }
}
pub open spec fn builds(s: Stuart, w: VxWorld, stuart_env: Seq<char>, out: Node) -> bool { exists|n: Node| #[trigger] content_of(s, w, n) && site_built(s, n, stuart_env) == Ok::<Node, Fail>(out) }
pub open spec fn build_fails(s: Stuart, w: VxWorld, stuart_env: Seq<char>, f: Fail) -> bool {
    tree_failure(w, s.dir@, true, plugins_of(s)) == Some(f) || exists|n: Node| #[trigger] content_of(s, w, n) && site_built(s, n, stuart_env) == Err::<Node, Fail>(f)
}
pub open spec fn root_ok(s: Stuart, w: VxWorld) -> bool { w.canon(s.dir@) is Some ==> path_file_name(w.canon(s.dir@)->0) is Some }
/// the templates of a directory applied twice are those applied once
pub proof fn lemma_env_twice(e: Env, ch: Seq<Node>) ensures env_in(env_in(e, ch), ch) == env_in(e, ch)
{ lemma_template_either(template_in(e.root, ch, "root.html"@), e.root, ch, "root.html"@); lemma_template_either(template_in(e.md, ch, "md.html"@), e.md, ch, "md.html"@); }
pub proof fn lemma_template_either(x: Option<Seq<LocatableToken>>, d: Option<Seq<LocatableToken>>, a: Seq<Node>, name: Seq<char>)
    ensures template_in(x, a, name) == template_in(d, a, name) || (template_in(x, a, name) == x && template_in(d, a, name) == d)
    decreases a.len()
{ if a.len() > 0 { lemma_template_either(x, d, a.drop_last(), name); } }
pub proof fn lemma_built_env(s: Site, n: Node, e: Env)
    requires n is Directory
    ensures built(s, n, env_in(e, kids(n))) == built(s, n, e)
{ lemma_env_twice(e, kids(n)); }
pub proof fn lemma_prepared_ok(s: Site, n: Node)
    requires tree_ok(n), prepared(s, n) is Ok
    ensures tree_ok(prepared(s, n)->Ok_0), n is Directory ==> prepared(s, n)->Ok_0 is Directory
    decreases n, node_len(n) + 1
{
    match n {
        Node::File { .. } => { },
        Node::Directory { name, children, source } => {
            lemma_prepared_first_ok(s, n, children@.len() as int);
            let ch = prepared_first(s, n, children@.len() as int)->Ok_0;
            let m = prepared(s, n)->Ok_0;
            assert(kids(m) == ch);
        },
    }
}
pub proof fn lemma_prepared_first_ok(s: Site, n: Node, k: int)
    requires tree_ok(n), n is Directory, 0 <= k <= node_len(n), prepared_first(s, n, k) is Ok
    ensures forall|i: int| 0 <= i < prepared_first(s, n, k)->Ok_0.len() ==> tree_ok(#[trigger] prepared_first(s, n, k)->Ok_0[i])
    decreases n, k
{
    if k > 0 {
        lemma_prepared_first_ok(s, n, k - 1);
        assert(tree_ok(kids(n)[k - 1]));
        assert(decreases_to!(n => kids(n)[k - 1]));
        lemma_prepared_ok(s, kids(n)[k - 1]);
    }
}
