# the commands of the program (C33 C34 C35)
fn bin::clean
name cmd_clean
props C34 C35
ensures
  !old(vx_w).fs().contains_key("stuart.toml"@) ==> r is Err && *final(vx_w) == *old(vx_w), //@C34
  r is Ok ==> final(vx_w).fs() == cleaned(old(vx_w).fs()) && final(vx_w).failed() == old(vx_w).failed(), //@C34 C35
  r is Err && old(vx_w).fs().contains_key("stuart.toml"@) ==> final(vx_w).failed(), //@C34
  sources(final(vx_w).fs()) == sources(old(vx_w).fs()), //@C34
at __vx_start__
  let ghost f0 = vx_w.fs();
  proof { lemma_clean(f0); assert(sources(without(f0, "dist"@)) =~= sources(f0)); assert(sources(without(without(f0, "dist"@), "_build"@)) =~= sources(f0));
    assert forall|a: Fs, b: Fs, p: Seq<char>| #[trigger] same_outside(p, a, b) && (p == "dist"@ || p == "_build"@) implies sources(a) == sources(b) by { lemma_clean_stop(a, b, p); } }
end
# ---- a new site
fn bin::config::git::get_user_name
name git_user_name
props C33
ensures
  git_setting("user.name"@, *old(vx_w), *final(vx_w), match r { Some(s) => Some(s@), None => None }), //@C33
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C33
end
fn bin::config::git::get_user_email
name git_user_email
props C33
ensures
  git_setting("user.email"@, *old(vx_w), *final(vx_w), match r { Some(s) => Some(s@), None => None }), //@C33
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C33
end
fn bin::config::git::init_repository
name git_init
props C33
ensures
  prog_ran("git"@, init_args(path@), *old(vx_w), *final(vx_w), r), //@C33
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C33
end
fn bin::new::extract
props C33
ensures
  r is Ok ==> final(vx_w).fs() == emb(old(vx_w).fs(), root@, *dir, dir.l@.len()) && final(vx_w).failed() == old(vx_w).failed(), //@C33
  r is Err ==> final(vx_w).failed(), //@C33
decreases *dir
at __vx_pre_0__
  let ghost w0 = *vx_w; let ghost l = dir.l@;
  proof { assert(refs(l).skip(0) =~= refs(l)); }
at __vx_loop_0__
  invariant
    w0 == *old(vx_w), l == dir.l@, 0 <= vx_it1@.len() <= l.len(), vx_it1@ == refs(l).skip(l.len() - vx_it1@.len()),
    vx_w.fs() == emb(w0.fs(), root@, *dir, (l.len() - vx_it1@.len()) as nat), vx_w.failed() == w0.failed(),
  ensures
    vx_w.fs() == emb(w0.fs(), root@, *dir, l.len()), vx_w.failed() == w0.failed(),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = l.len() - vx_it1@.len();
  proof { assert(vx_x2 == refs(l)[k - 1]); assert(*vx_x2 == l[k - 1]); assert(vx_it1@ =~= refs(l).skip(k)); assert(decreases_to!(*dir => l[k - 1])); assert(dir.l@[k - 1] == l[k - 1]);
    assert(emb(w0.fs(), root@, *dir, k as nat) == emb_entry(emb(w0.fs(), root@, *dir, (k - 1) as nat), root@, l[k - 1])); }
end
fn bin::new::new
name cmd_new
props C33 C35
requires
  arg_value(*args, "name"@) is Some,
ensures
  r is Ok ==> site_created(arg_value(*args, "name"@)->0, !arg_given(*args, "no-git"@), *old(vx_w), *final(vx_w)), //@C33 C35
  r is Err ==> final(vx_w).failed() || not_created(arg_value(*args, "name"@)->0, *old(vx_w), *final(vx_w)), //@C33
at __vx_start__
  hide(author_known);
  let ghost w0 = *vx_w;
at __vx_let_manifest__
  let ghost mut who: Option<Seq<char>> = None; let ghost m0 = manifest@; let ghost called = name@;
  proof { assert(m0 == utf8("[site]\nname = "@ + toml_quoted(called))); }
at __vx_blk_1__
  proof { who = Some(author_text(name@, email@)); }
at __vx_let_author__
  proof { assert(who == Some(author@)); }
at __vx_aft_unwrap_0__
  proof { assert(manifest@ == m0 + utf8("\nauthor = "@ + toml_quoted(who->0))); }
at __vx_aft_if_0__
  let ghost w2 = *vx_w;
  proof { ax_new_manifest(called, who); }
  proof { reveal(author_known); assert(author_known(w0, w2, who)); reveal_strlit("\n");
    let head = "[site]\nname = "@ + toml_quoted(called); let tail = match who { Some(a) => "\nauthor = "@ + toml_quoted(a), None => ""@ };
    reveal_strlit(""); assert(utf8(""@) =~= Seq::<u8>::empty()); assert("\n"@ =~= Seq::<char>::empty().push('\n')); lemma_utf8_push(Seq::empty(), '\n'); assert(utf8("\n"@) =~= seq![10u8]);
    assert(manifest@ =~= utf8(head) + utf8(tail)); lemma_utf8_add(head, tail); lemma_utf8_add(head + tail, "\n"@); assert(manifest@.push(10u8) == utf8(new_manifest(called, who))); }
at __vx_aft_push_0__
  proof { assert forall|v: VxWorld| in_the_way(called, w2, v) implies #[trigger] not_created(called, w0, v) by { assert(not_created_from(called, who, w0, w2, v)); } }
at __vx_aft_extract_0__
  let ghost w3 = *vx_w; let ghost mut w4 = w3;
  proof { assert(w3.fs() == laid_out(w2.fs(), called, who)); }
at __vx_aft_init_repository_0__
  proof { w4 = *vx_w; assert(repository_made(called, w3, w4)); }
at __vx_aft_if_1__
  proof { assert(created_from(called, !no_git, who, w2, w3, w4, *vx_w)); assert(asked_then(called, !no_git, who, w0, w2, w3, w4, *vx_w)); }
end
# ---- building, and the status with which the program ends
fn bin::build
name cmd_build
props C32 C35
requires
  world_ok(*old(vx_w)), plugin_objects(), forall|c: StuartContext, w: VxWorld| #[trigger] roots_ok(c, w),
  arg_value(*args, "manifest-path"@) is Some, arg_value(*args, "output"@) is Some,
ensures
  r is Ok ==> site_built_from(arg_value(*args, "manifest-path"@)->0, arg_value(*args, "output"@)->0, "production"@, *old(vx_w), *final(vx_w)), //@C35
at __vx_start__
  let ghost w0 = *vx_w;
  proof { assert forall|w: VxWorld, p: Seq<char>, b: bool| named(#[trigger] scripts_in(w, p, b)) by { if w.list(p) is Some { lemma_found_named(w, w.list(p)->0, b, w.list(p)->0.len() as int); } } }
at __vx_let_ctx__
  proof { assert(ctx.stuart_env@ == "production"@); } //@C32
  let ghost c = ctx; let ghost w1 = *vx_w;
  proof { assert(project_of(w0.canon(manifest_path@)->0, output@, "production"@, w0, w1, c));
    assert forall|v: VxWorld| #[trigger] build_ok(c, w1, v) implies site_built_from(manifest_path@, output@, "production"@, w0, v) by { assert(init_then_build(manifest_path@, output@, "production"@, c, w0, w1, v)); } }
end

fn bin::bench
name cmd_bench
props C32 C35
requires
  world_ok(*old(vx_w)), plugin_objects(), forall|c: StuartContext, w: VxWorld| #[trigger] roots_ok(c, w), builds_readable(),
  arg_value(*args, "iterations"@) is Some,
ensures
  r is Ok ==> benched(*args, *old(vx_w), *final(vx_w)), //@C35
at __vx_start__
  let ghost w0 = *vx_w;
  proof { assert forall|w: VxWorld, p: Seq<char>, b: bool| named(#[trigger] scripts_in(w, p, b)) by { if w.list(p) is Some { lemma_found_named(w, w.list(p)->0, b, w.list(p)->0.len() as int); } } }
at __vx_let_ctx__
  proof { assert(ctx.stuart_env@ == "benchmark"@); } //@C32
  let ghost c0 = ctx; let ghost w1 = *vx_w;
at __vx_loop_0__
  invariant
    same_but_output(c0, ctx), world_ok(*vx_w), plugin_objects(), builds_readable(), forall|c: StuartContext, w: VxWorld| #[trigger] roots_ok(c, w),
    named(ctx.scripts.on_pre_build@), named(ctx.scripts.on_post_build@),
    vx_it2@.len() <= iters, built_times(c0, w1, *vx_w, (iters - vx_it2@.len()) as nat),
  decreases vx_it2@.len()
at __vx_body_0__
  let ghost c1 = ctx; let ghost v1 = *vx_w;
at __vx_bend_0__
  proof { assert(built_once_more(c0, c1, v1, *vx_w)); }
at __vx_tail_0__
  proof { assert(benched_from(c0, w0, w1, *vx_w, iters as nat)); }
end

fn bin::serve::websocket_handler
props C30
at __vx_clo_0__
  |vx_c0_0: WebsocketStream, vx_c0_1: Arc<State>| -> (z: ())
    ensures joined(vx_c0_1, vx_c0_0)
at __vx_held_0__
  let ghost s0 = vx_held_0@;
at __vx_left_0__
  proof {
    lemma_joined_last(s0, stream);
    assert(joined_by(s0, vx_held_0@, stream)); //@C30
    ax_joined(state, s0, vx_held_0@, stream);
  }
end
fn bin::serve::serve
name cmd_serve
props C26 C30 C32 C35
requires
  world_ok(*old(vx_w)), plugin_objects(), forall|c: StuartContext, w: VxWorld| #[trigger] roots_ok(c, w),
  arg_value(args, "manifest-path"@) is Some, arg_value(args, "output"@) is Some,
ensures
  r is Ok ==> served(args, *old(vx_w), *final(vx_w)), //@C35
at __vx_start__
  proof { assert forall|w: VxWorld, p: Seq<char>, b: bool| named(#[trigger] scripts_in(w, p, b)) by { if w.list(p) is Some { lemma_found_named(w, w.list(p)->0, b, w.list(p)->0.len() as int); } } }
  let ghost w0 = *vx_w; let ghost p0 = arg_value(args, "manifest-path"@)->0; let ghost o0 = arg_value(args, "output"@)->0;
at __vx_let_path__
  let ghost d0 = path@;
  proof { assert(d0 == path_parent(w0.canon(p0)->0)->0); ax_join_absolute(d0, o0); }
at __vx_let_full_output_path__
  proof { assert(full_output_path@ == path_join(d0, o0)); } //@C26
at __vx_let_state__
  proof { assert(state.path@ == path_join(d0, o0)); } //@C26
  proof { assert(state.streams == streams); } //@C30
  let ghost st = state;
at __vx_let_ctx__
  proof { assert(ctx.stuart_env@ == "development"@); } //@C32
at __vx_clo_0__
  move || -> (z: Result<(), Box<VxDynStuartError>>)
    requires state == st, st.path@ == path_join(d0, o0), st.streams == streams
at __vx_let_app__
  proof { assert(app_state(app).path@ == path_join(d0, o0)); } //@C26
  proof { assert(app_state(app).streams == streams); } //@C30
end

fn bin::app
props C34 C35
ensures
  described(r), //@C35
at __vx_start__
  broadcast use lemma_always_push, lemma_defaults_push, lemma_known_push;
  proof {
    reveal_strlit("build"); reveal_strlit("dev"); reveal_strlit("new"); reveal_strlit("bench"); reveal_strlit("clean");
    assert("build"@[0] == 'b' && "dev"@[0] == 'd' && "new"@[0] == 'n' && "clean"@[0] == 'c' && "bench"@[1] == 'e' && "build"@[1] == 'u');
  }
end
fn bin::main
name cmd_main
props C35
requires
  world_ok(*old(vx_w)), plugin_objects(), forall|c: StuartContext, w: VxWorld| #[trigger] roots_ok(c, w), builds_readable(),
ensures
  command_done(given_args(), *old(vx_w), *final(vx_w)), //@C35
at __vx_start__
  broadcast use lemma_described;
at __vx_let_result__
  let ghost res = result;
at __vx_aft_print_0__
  proof { ax_failing(res, *vx_w); }
end
