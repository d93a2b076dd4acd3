# ---- the build of a site
fn core::config::Config#Default::default
props C18 C20 C23
ensures
  r.name@ == ""@ && r.author is None && r.strip_extensions && !r.save_data_files && !r.save_metadata, //@C23
end
fn core::Stuart::new
props C18
ensures
  r.dir@ == dir.pv() && r.input is None && r.output is None && r.base is None && r.plugins is None, //@C18
end
fn core::Stuart::with_config
props C18 C20 C21
ensures
  r == (Stuart { config: config, ..self }), //@C18 C20 C21
end
fn core::Stuart::with_plugins
props C25
ensures
  r.plugins is Some && plugins_seq(*(r.plugins->0)) == plugins.managed(), //@C25
  r.dir == self.dir && r.input == self.input && r.output == self.output && r.config == self.config && r.base == self.base, //@C25
end
fn core::Stuart::build
props C18 C32
requires
  world_ok(*old(vx_w)), root_ok(*old(self), *old(vx_w)),
ensures
  *final(vx_w) == *old(vx_w), //@C18
  r is Ok ==> final(self).output is Some && builds(*old(self), *old(vx_w), stuart_env@, final(self).output->0), //@C18 C32
  r is Err ==> build_fails(*old(self), *old(vx_w), stuart_env@, failv(r->Err_0)), //@C18 C32
  r is Err ==> final(self).output == old(self).output, //@C18
  final(self).config == old(self).config && final(self).dir == old(self).dir && final(self).plugins == old(self).plugins, //@C18
at __vx_start__
  let ghost s0 = *self; let ghost w = *vx_w; let ghost e0 = stuart_env@;
at __vx_let_input__
  let ghost n0 = input;
  proof { assert(content_of(s0, w, n0)); lemma_tree_ok(w, vx_path(w.canon(s0.dir@)->0), true, plugins_of(s0), n0); }
at __vx_pre_0__
  let ghost all0 = vx_it1@;
  proof { assert(all0.skip(0) =~= all0); }
at __vx_loop_0__
  invariant
    0 <= vx_it1@.len() <= all0.len(), vx_it1@ == all0.skip(all0.len() - vx_it1@.len()), vx_out0@ == all0.take(all0.len() - vx_it1@.len()), all0 == env_vars(),
  ensures vx_out0@ == env_vars(),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = all0.len() - vx_it1@.len();
  proof { assert(vx_it1@ =~= all0.skip(k)); assert(vx_x2 == all0[k - 1]); }
at __vx_bend_0__
  proof { assert(vx_out0@ =~= all0.take(k)); }
at __vx_let_vars__
  proof { assert(vars@ =~= env_pairs(e0)); }
at __vx_pre_1__
  let ghost vs = vars@; let ghost ob = str_pairs(vs);
  proof { assert(refs(vs).skip(0) =~= refs(vs)); }
at __vx_loop_1__
  invariant
    vs == vars@, ob == str_pairs(vs),
    0 <= vx_it6@.len() <= vs.len(), vx_it6@ == refs(vs).skip(vs.len() - vx_it6@.len()), vx_out1@ == ob.take(vs.len() - vx_it6@.len()),
  ensures vx_out1@ == ob,
  decreases vx_it6@.len()
at __vx_body_1__
  let ghost k = vs.len() - vx_it6@.len();
  proof { assert(vx_it6@ =~= refs(vs).skip(k)); assert(vx_x7 == refs(vs)[k - 1]); assert(*vx_x7 == vs[k - 1]); }
at __vx_bend_1__
  proof { assert(vx_out1@ =~= ob.take(k)); }
at __vx_post_1__
  proof { assert(vs == env_pairs(e0)); assert(vx_out1@ == str_pairs(env_pairs(e0))); assert(vx_out1 == vx_vec(vx_out1@)); }
at __vx_let_base__
  proof { assert(base.variables@ =~= base_frame(e0).variables@); assert(base == base_frame(e0)); }
at __vx_aft_preprocess_markdown_node_0__
  let ghost m = input;
  proof { lemma_prepared_ok(site_of(s0, n0, e0), n0); }
at __vx_let_env__#2
  proof {
    assert forall|i: int| 0 <= i < kids(m).len() implies pc_ok(#[trigger] kids(m)[i]) by { assert(tree_ok(kids(m)[i])); }
    lemma_template_ok(None, kids(m), "root.html"@); lemma_template_ok(None, kids(m), "md.html"@);
    lemma_built_env(site_of(s0, m, e0), m, no_env());
  }
end
