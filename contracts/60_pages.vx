# ---- rendering of pages
fn core::process::Node::process_html
attr rlimit(60)
props C16 C06
requires
  site_ok(*processor), toks_ok(tokens@), env_ok(envv(env)),
ensures
  r is Ok == sem_html(site(*processor), tokens@, envv(env), node_source(*self)) is Ok, //@C16 C06
  r is Err ==> eat(r->Err_0) == sem_html(site(*processor), tokens@, envv(env), node_source(*self))->Err_0, //@C16 C06
  r is Ok ==> outv(r->Ok_0) == (None::<Seq<char>>, Some(sem_html(site(*processor), tokens@, envv(env), node_source(*self))->Ok_0)), //@C16
at __vx_let_scope__
  let ghost c = cx(scope); let ghost s0 = st(scope); let ghost sc0 = scope; let ghost m0 = sem_all(c, s0);
  let ghost b0 = st(scope).stack.last();
  proof { assert(st(scope).stack =~= Seq::<StackFrame>::empty().push(b0)); assert(st(scope).secs =~= Seq::<(String, Vec<u8>)>::empty()); }
  let ghost w = sem_template(site(*processor), c.toks, b0, Seq::empty(), Seq::empty(), node_source(*self));
at __vx_loop_0__
  invariant
    cx(scope) == c, keeps(sc0, scope), stack_ok(st(scope).stack), 0 <= st(scope).idx <= c.toks.len(), toks_ok(c.toks), c.input is Some, c.input == processor.input,
    sem_all(c, st(scope)) == m0,
  ensures
    st(scope).idx >= c.toks.len(),
  decreases c.toks.len() - st(scope).idx
at __vx_aft_loop_0__
  let ghost t0 = st(scope);
  proof { assert(m0 == Ok::<St, At>(t0)); }
at __vx_aft_if_0__
  proof { assert(w == Ok::<St, At>(t0)); }
at __vx_aft_assign_0__
  let ghost c1 = cx(scope); let ghost s1 = st(scope); let ghost sc1 = scope; let ghost m1 = sem_all(c1, s1);
at __vx_loop_1__
  invariant
    cx(scope) == c1, keeps(sc1, scope), stack_ok(st(scope).stack), 0 <= st(scope).idx <= c1.toks.len(), toks_ok(c1.toks), c1.input is Some, c1.input == processor.input,
    sem_all(c1, st(scope)) == m1,
  ensures
    st(scope).idx >= c1.toks.len(),
  decreases c1.toks.len() - st(scope).idx
at __vx_start__
  hide(sem_tok); hide(sem_body); hide(sem_branch); hide(sem_fn); hide(skip_from); hide(tok_ok); hide(utf8); hide(lookup);
end
fn core::process::Node::process_markdown
attr rlimit(60)
props C16 C06 C28
requires
  site_ok(*processor), env_ok(envv(env)), is_suffix(".md"@, node_name(*self)),
ensures
  r is Ok == sem_md(site(*processor), *md, envv(env), node_source(*self)) is Ok, //@C16 C06
  r is Err ==> eat(r->Err_0) == sem_md(site(*processor), *md, envv(env), node_source(*self))->Err_0, //@C16 C06
  r is Ok ==> outv(r->Ok_0) == (Some(md_page_name(node_name(*self))), Some(sem_md(site(*processor), *md, envv(env), node_source(*self))->Ok_0)), //@C16
at __vx_let_scope__
  let ghost c = cx(scope); let ghost s0 = st(scope); let ghost sc0 = scope; let ghost m0 = sem_all(c, s0);
  let ghost b0 = st(scope).stack.last();
  proof { assert(st(scope).stack =~= Seq::<StackFrame>::empty().push(b0)); assert(st(scope).secs =~= Seq::<(String, Vec<u8>)>::empty()); }
  proof { assert(b0 == md_base(site(*processor), *md)); }
  let ghost w = sem_template(site(*processor), c.toks, b0, Seq::empty(), Seq::empty(), node_source(*self));
at __vx_loop_0__
  invariant
    cx(scope) == c, keeps(sc0, scope), stack_ok(st(scope).stack), 0 <= st(scope).idx <= c.toks.len(), toks_ok(c.toks), c.input is Some, c.input == processor.input,
    sem_all(c, st(scope)) == m0,
  ensures
    st(scope).idx >= c.toks.len(),
  decreases c.toks.len() - st(scope).idx
at __vx_aft_loop_0__
  let ghost t0 = st(scope);
  proof { assert(m0 == Ok::<St, At>(t0)); }
at __vx_aft_if_0__
  proof { assert(w == Ok::<St, At>(t0)); }
at __vx_aft_assign_0__
  let ghost c1 = cx(scope); let ghost s1 = st(scope); let ghost sc1 = scope; let ghost m1 = sem_all(c1, s1);
at __vx_loop_1__
  invariant
    cx(scope) == c1, keeps(sc1, scope), stack_ok(st(scope).stack), 0 <= st(scope).idx <= c1.toks.len(), toks_ok(c1.toks), c1.input is Some, c1.input == processor.input,
    sem_all(c1, st(scope)) == m1,
  ensures
    st(scope).idx >= c1.toks.len(),
  decreases c1.toks.len() - st(scope).idx
at __vx_start__
  hide(sem_tok); hide(sem_body); hide(sem_branch); hide(sem_fn); hide(skip_from); hide(tok_ok); hide(utf8); hide(lookup);
  proof { reveal_strlit(".md"); }
end
fn core::fs::Node::parsed_contents_mut
props C16 C28
requires
  *old(self) is File,
ensures
  *r == node_pc(*old(self)), *final(self) == with_pc(*old(self), *final(r)),
end
fn core::process::Node::preprocess_markdown
props C28 C06
attr rlimit(60)
requires
  site_ok(*processor), *old(self) is File, node_pc(*old(self)) is Markdown ==> toks_ok(node_pc(*old(self))->Markdown_0.markdown@),
ensures
  r is Ok == sem_prepare(site(*processor), *old(self)) is Ok, //@C28 C06
  r is Ok ==> *final(self) == sem_prepare(site(*processor), *old(self))->Ok_0, //@C28
  r is Err ==> eat(r->Err_0) == sem_prepare(site(*processor), *old(self))->Err_0, //@C28 C06
at __vx_start__
  hide(sem_tok); hide(sem_body); hide(sem_branch); hide(sem_fn); hide(skip_from); hide(tok_ok); hide(utf8); hide(lookup);
at __vx_let_md__
  let ghost md0 = *md;
at __vx_let_scope__
  let ghost c = cx(scope); let ghost s0 = st(scope); let ghost sc0 = scope; let ghost m0 = sem_all(c, s0);
  let ghost b0 = st(scope).stack.last();
  proof { assert(st(scope).stack =~= Seq::<StackFrame>::empty().push(b0)); assert(st(scope).secs =~= Seq::<(String, Vec<u8>)>::empty()); }
  let ghost w = sem_template(site(*processor), c.toks, b0, Seq::empty(), Seq::empty(), node_source(*old(self)));
at __vx_loop_0__
  invariant
    cx(scope) == c, keeps(sc0, scope), stack_ok(st(scope).stack), 0 <= st(scope).idx <= c.toks.len(), toks_ok(c.toks), c.input is Some, c.input == processor.input,
    sem_all(c, st(scope)) == m0,
  ensures
    st(scope).idx >= c.toks.len(),
  decreases c.toks.len() - st(scope).idx
at __vx_aft_loop_0__
  let ghost t0 = st(scope);
  proof { assert(m0 == Ok::<St, At>(t0)); }
end
fn core::parse::contents::ParsedContents::to_json
props C21 C18
ensures
  r == pc_json(*self), //@C21
end
fn core::process::Node::process
props C16 C17 C18
requires
  site_ok(*processor), *self is File, pc_ok(*self), env_ok(envv(env)),
ensures
  r is Ok == processed(site(*processor), *self, envv(env)) is Ok, //@C16 C17 C18
  r is Ok ==> r->Ok_0 == processed(site(*processor), *self, envv(env))->Ok_0, //@C16 C17 C18
  r is Err ==> failv(r->Err_0) == processed(site(*processor), *self, envv(env))->Err_0, //@C16 C17 C18
end
fn core::Environment::update_from_children
props C17
ensures
  envv(r) == env_in(envv(*self), children@), //@C17
at __vx_pre_0__
  let ghost mut k: int = 0;
  let ghost ch = children@;
  proof { assert(refs(ch).skip(0) =~= refs(ch)); assert(ch.take(0) =~= Seq::<Node>::empty()); }
at __vx_loop_0__
  invariant
    0 <= k <= ch.len(), ch == children@, vx_it1@ == refs(ch).skip(k), envv(env) == env_in(envv(*self), ch.take(k)),
  ensures k == ch.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof {
    assert(vx_x2 == refs(ch)[k]); assert(refs(ch).skip(k).skip(1) =~= refs(ch).skip(k + 1));
    assert(ch.take(k + 1).drop_last() =~= ch.take(k)); assert(ch.take(k + 1).last() == ch[k]);
    reveal_strlit("root.html"); reveal_strlit("md.html");
    k = k + 1;
  }
at __vx_post_0__
  proof { assert(envv(env) == env_in(envv(*self), ch.take(k))); assert(ch.take(k) == children@); }
end
fn core::Stuart::build_node
props C17 C18
requires
  site_ok(*self), tree_ok(*node), env_ok(envv(env)),
ensures
  r is Ok == built(site(*self), *node, envv(env)) is Ok, //@C17 C18
  r is Ok ==> r->Ok_0 == built(site(*self), *node, envv(env))->Ok_0, //@C17 C18
  r is Err ==> failv(r->Err_0) == built(site(*self), *node, envv(env))->Err_0, //@C17 C18
decreases *node
at __vx_start__
  let ghost e0 = envv(env);
at __vx_pre_0__
  let ghost mut k: int = 0;
  let ghost ch = children@;
  let ghost e1 = envv(env);
  proof {
    assert(refs(ch).skip(0) =~= refs(ch));
    assert forall|i: int| 0 <= i < ch.len() implies pc_ok(#[trigger] ch[i]) by { assert(tree_ok(ch[i])); }
  }
at __vx_let_env__
  proof {
    assert forall|i: int| 0 <= i < children@.len() implies pc_ok(#[trigger] children@[i]) by { assert(tree_ok(children@[i])); }
    lemma_template_ok(e0.root, children@, "root.html"@);
    lemma_template_ok(e0.md, children@, "md.html"@);
  }
at __vx_loop_0__
  invariant_except_break
    vx_err0 is None,
  invariant
    0 <= k <= ch.len(), ch == children@, ch == (*node)->children@, *node is Directory, vx_it1@ == refs(ch).skip(k), env_ok(e1), e1 == envv(env), site_ok(*self), tree_ok(*node),
    vx_err0 is None ==> built_first(site(*self), *node, e1, k) == Ok::<Seq<Node>, Fail>(vx_out0@),
    vx_err0 is Some ==> built_first(site(*self), *node, e1, k) == Err::<Seq<Node>, Fail>(failv(vx_err0->0)),
  ensures vx_err0 is None ==> k == ch.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof {
    assert(vx_x2 == refs(ch)[k]); assert(refs(ch).skip(k).skip(1) =~= refs(ch).skip(k + 1)); assert(tree_ok(ch[k]));
    k = k + 1;
  }
at __vx_post_0__
  proof { if vx_err0 is Some { lemma_built_fails(site(*self), *node, e1, k, ch.len() as int); } }
end
fn core::Stuart::preprocess_markdown_node
props C28
requires
  site_ok(*old(self)), tree_ok(*old(node)),
ensures
  *final(self) == *old(self), //@C28
  r is Ok == prepared(site(*old(self)), *old(node)) is Ok, //@C28
  r is Ok ==> *final(node) == prepared(site(*old(self)), *old(node))->Ok_0, //@C28
  r is Err ==> failv(r->Err_0) == prepared(site(*old(self)), *old(node))->Err_0, //@C28
decreases *old(node)
at __vx_start__
  let ghost n0 = *node; let ghost sx = site(*self); let ghost p0 = *self;
at __vx_pre_0__
  let ghost ch0 = children@;
  proof { assert(ch0.take(0) =~= Seq::<Node>::empty()); assert(n0 is Directory && ch0 == n0->children@); }
at __vx_loop_0__
  invariant
    0 <= vx_i1 <= ch0.len(), children@.len() == ch0.len(), *self == p0, site_ok(*self), sx == site(p0), n0 is Directory, ch0 == n0->children@, tree_ok(n0),
    forall|j: int| vx_i1 <= j < ch0.len() ==> #[trigger] children@[j] == ch0[j],
    prepared_first(sx, n0, vx_i1 as int) == Ok::<Seq<Node>, Fail>(children@.take(vx_i1 as int)),
  ensures vx_i1 == ch0.len(),
  decreases ch0.len() - vx_i1
at __vx_body_0__
  let ghost i0 = vx_i1 as int; let ghost c1 = children@;
  proof {
    assert(tree_ok(ch0[i0])); assert(children@[i0] == ch0[i0]);
    if prepared_first(sx, n0, i0 + 1) is Err { lemma_prepared_fails(sx, n0, i0 + 1, ch0.len() as int); }
  }
at __vx_bend_0__
  proof { assert(children@.take(i0 + 1) =~= c1.take(i0).push(children@[i0])); }
at __vx_post_0__
  proof { assert(children@.take(ch0.len() as int) =~= children@); }
end
