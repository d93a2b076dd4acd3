# ---- settings
fn bin::config::Config#From::from
props C23
ensures
  r == settings_of(raw), //@C23
end
# ---- scripts
fn bin::scripts::Scripts::execute
props C24
requires
  named(scripts@),
ensures
  r is Ok ==> scripts_done(*self, scripts@, *old(vx_w), *final(vx_w)), //@C24
  r is Err ==> scripts_failed(*self, scripts@, *old(vx_w), *final(vx_w)), //@C24
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C24
at __vx_pre_0__
  let ghost w0 = *vx_w; let ghost l = scripts@;
  proof { assert(refs(l).skip(0) =~= refs(l)); }
at __vx_loop_0__
  invariant_except_break
    scripts_ok(*self, l, l.len() - vx_it1@.len(), w0, *vx_w),
  invariant
    world_ok(w0) ==> world_ok(*vx_w), named(l), w0 == *old(vx_w), l == scripts@, 0 <= vx_it1@.len() <= l.len(), vx_it1@ == refs(l).skip(l.len() - vx_it1@.len()),
  ensures
    scripts_ok(*self, l, l.len() as int, w0, *vx_w),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = l.len() - vx_it1@.len(); let ghost w = *vx_w;
  proof { assert(vx_x2 == refs(l)[k - 1]); assert(*vx_x2 == l[k - 1]); assert(vx_it1@ =~= refs(l).skip(k)); assert(seq![l[k - 1]@] =~= Seq::<Seq<char>>::empty().push(l[k - 1]@)); assert(Seq::<(String, String)>::empty() + self.environment@ =~= self.environment@); assert(path_file_name(l[k - 1]@) is Some);
    assert forall|v: VxWorld, r: Option<bool>| #[trigger] program_ran("sh"@, Seq::<Seq<char>>::empty().push(l[k - 1]@), Seq::<(String, String)>::empty() + self.environment@, w, v, r) implies (if r == Some(true) { scripts_ok(*self, l, k, w0, v) } else { scripts_failed(*self, l, w0, v) }) by {
      assert(script_run(*self, l[k - 1], w, v, r)); if r != Some(true) { assert(script_stops(*self, l, k - 1, w0, w, v, r)); } } }
end
fn bin::scripts::Scripts::execute_pre_build
props C24
requires
  named(self.on_pre_build@),
ensures
  r is Ok ==> scripts_done(*self, self.on_pre_build@, *old(vx_w), *final(vx_w)), //@C24
  r is Err ==> scripts_failed(*self, self.on_pre_build@, *old(vx_w), *final(vx_w)), //@C24
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C24
end
fn bin::scripts::Scripts::execute_post_build
props C24
requires
  named(self.on_post_build@),
ensures
  r is Ok ==> scripts_done(*self, self.on_post_build@, *old(vx_w), *final(vx_w)), //@C24
  r is Err ==> scripts_failed(*self, self.on_post_build@, *old(vx_w), *final(vx_w)), //@C24
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C24
end
# ---- one build
fn bin::build::StuartContext::build
props C24
attr rlimit(40)
requires
  world_ok(*old(vx_w)), forall|w: VxWorld| #[trigger] roots_ok(*old(self), w), plugin_objects(),
  named(old(self).scripts.on_pre_build@), named(old(self).scripts.on_post_build@),
ensures
  r is Ok ==> build_ok(*old(self), *old(vx_w), *final(vx_w)), //@C24
  r is Err ==> build_err(*old(self), *old(vx_w), *final(vx_w)), //@C24
  same_but_output(*old(self), *final(self)) && final(self).stuart.dir == old(self).stuart.dir, //@C24 C30
at __vx_start__
  hide(builds); hide(build_fails); hide(dir_failure); hide(tree_read); hide(merged); hide(saved_root); hide(reported); hide(scripts_done); hide(scripts_failed); hide(meta_ok); hide(world_ok); hide(named); hide(meta_base); hide(obj_set);
  hide(build_ok); hide(build_err); hide(dirs_laid); hide(pre); hide(tree_failure);
  let ghost c = *self; let ghost w0 = *vx_w;
  proof { assert forall|v: VxWorld| #[trigger] pre(c, w0, v) == scripts_done(c.scripts, c.scripts.on_pre_build@, w0, v) by { reveal(pre); } assert forall|v: VxWorld| #[trigger] scripts_failed(c.scripts, c.scripts.on_pre_build@, w0, v) implies build_err(c, w0, v) by { lemma_build_start(c, w0, v); } }
at __vx_let_pre_build_duration__
  let ghost w1 = *vx_w;
  proof { assert(pre(c, w0, w1)); assert(roots_ok(c, w1)); lemma_build_start(c, w0, w1); }
at __vx_let_build_duration__#1
  let ghost a = self.stuart.output->0;
  proof { lemma_site_meta(c.stuart, w1, c.stuart_env@, a); reveal(dirs_laid); }
at __vx_pre_0__
  let ghost dirs = vx_it1@;
  proof { assert(dirs.len() == 2 && dirs[0]@ == "static"@ && dirs[1]@ == "temp"@); assert(dirs.skip(0) =~= dirs); }
at __vx_loop_0__
  invariant_except_break
    dirs_laid(c, w1, a, self.stuart.output->0, 2 - vx_it1@.len()),
  invariant
    *vx_w == w1, world_ok(w1), roots_ok(c, w1), pre(c, w0, w1), builds(c.stuart, w1, c.stuart_env@, a), w0 == *old(vx_w), c == *old(self),
    dirs.len() == 2 && dirs[0]@ == "static"@ && dirs[1]@ == "temp"@, vx_it1@.len() <= 2, vx_it1@ == dirs.skip(2 - vx_it1@.len()),
    self.stuart.output is Some, self.stuart.output->0 is Directory, meta_ok(self.stuart.output->0), same_but_output(c, *self), self.stuart.dir == c.stuart.dir,
  ensures
    dirs_laid(c, w1, a, self.stuart.output->0, 2),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = 2 - vx_it1@.len(); let ghost cur = self.stuart.output->0;
  proof { assert(vx_x2@ == dir_no(k - 1)); assert(vx_it1@ =~= dirs.skip(k)); lemma_dir_step(c, w0, w1, a, cur, k - 1, sub(c, vx_x2@)); }
at __vx_let_node__
  proof { lemma_plain_tree_meta(w1, vx_path(w1.canon(dir_path@)->0), node); assert(dir_then(c, w0, w1, a, cur, node, k - 1)); if merged(cur, node) is Ok { lemma_merged_meta(cur, node); } }
at __vx_aft_loop_0__
  let ghost out = self.stuart.output->0;
  proof { reveal(dirs_laid); assert(made(c, w1, out)); }
at __vx_aft_ok_0__
  let ghost w2 = *vx_w;
  proof { assert(publishes(c, w1, out, w2)); lemma_unsaved(c, w0, w1, out, w2); }
at __vx_let_save_duration__
  let ghost w3 = *vx_w;
  proof { assert(written(c, out, w2, w3, Ok(()))); lemma_unmeta(c, w0, w1, out, w2, w3); }
at __vx_aft_if_0__
  let ghost w4 = *vx_w;
  proof { assert(put_meta(c, out, w3, w4, true)); lemma_build_end(c, w0, w1, out, w2, w3, w4); }
end
fn bin::scripts::Scripts::from_directory
props C24
requires
  world_ok(*old(vx_w)),
ensures
  *final(vx_w) == *old(vx_w), //@C24
  r.on_pre_build@ == scripts_in(*old(vx_w), dir.pv(), true) && r.on_post_build@ == scripts_in(*old(vx_w), dir.pv(), false), //@C24
  r.environment@.len() == 0, //@C24
at __vx_pre_0__
  let ghost w = *vx_w; let ghost all = vx_it1@; let ghost l = entry_paths(all);
  proof { assert(all.skip(0) =~= all); lemma_script_names(); assert(scripts.on_pre_build@ =~= found(w, l, true, 0)); assert(scripts.on_post_build@ =~= found(w, l, false, 0)); }
at __vx_loop_0__
  invariant
    *vx_w == w, l == entry_paths(all), 0 <= vx_it1@.len() <= all.len(), vx_it1@ == all.skip(all.len() - vx_it1@.len()), scripts.environment@.len() == 0,
    scripts.on_pre_build@ == found(w, l, true, all.len() - vx_it1@.len()), scripts.on_post_build@ == found(w, l, false, all.len() - vx_it1@.len()),
  ensures
    scripts.on_pre_build@ == found(w, l, true, l.len() as int), scripts.on_post_build@ == found(w, l, false, l.len() as int),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = all.len() - vx_it1@.len();
  proof { assert(vx_x2 == all[k - 1]); assert(vx_it1@ =~= all.skip(k)); assert(l[k - 1] == all[k - 1].p@); assert(path_file_name(l[k - 1]) is Some); }
end
fn bin::scripts::Scripts::with_environment_variables
props C24
ensures
  r == (Scripts { environment: environment, ..self }), //@C24
end
