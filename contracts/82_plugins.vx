# ---- the plugins of the program
fn bin::plugins::load
name plugins_load
props C25
requires
  world_ok(*old(vx_w)),
ensures
  r is Ok ==> plugins_ok(root@, deps(*plugins), *old(vx_w), *final(vx_w), r->Ok_0.plugins@), //@C25
  r is Err ==> plugins_err(root@, deps(*plugins), *old(vx_w), *final(vx_w)), //@C25
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C25
at __vx_start__
  hide(source_gives);
  let ghost w0 = *vx_w; let ghost l = deps(*plugins);
at __vx_pre_0__
  proof { assert(pair_refs(l).skip(0) =~= pair_refs(l)); }
at __vx_loop_0__
  invariant_except_break
    plugins_had(root@, l, l.len() - vx_it1@.len(), w0, *vx_w, manager.plugins@),
  invariant
    world_ok(*vx_w), 0 <= vx_it1@.len() <= l.len(), vx_it1@ == pair_refs(l).skip(l.len() - vx_it1@.len()),
  ensures
    plugins_had(root@, l, l.len() as int, w0, *vx_w, manager.plugins@),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = l.len() - vx_it1@.len(); let ghost w = *vx_w; let ghost ps = manager.plugins@; let ghost nm = l[k - 1].0@; let ghost ss = split_char(l[k - 1].1@, ';');
  proof { assert(vx_x2 == pair_refs(l)[k - 1]); assert(vx_it1@ =~= pair_refs(l).skip(k));
    assert forall|v: VxWorld| #[trigger] none_of(root@, nm, ss, ss.len() as int, w, v) implies plugins_err(root@, l, w0, v) by { assert(plugins_stop(root@, l, k - 1, w0, w, v, ps)); } }
at __vx_pre_1__
  let ghost pieces = vx_it3@;
  proof { assert(str_seq(pieces) == ss); assert(pieces.skip(0) =~= pieces); }
at __vx_loop_1__
  invariant
    world_ok(*vx_w), manager.plugins@ == ps, 0 <= vx_it3@.len() <= ss.len(), vx_it3@ == pieces.skip(ss.len() - vx_it3@.len()), pieces.len() == ss.len(),
    none_of(root@, nm, ss, ss.len() - vx_it3@.len(), w, *vx_w),
  ensures
    none_of(root@, nm, ss, ss.len() as int, w, *vx_w), manager.plugins@ == ps,
  decreases vx_it3@.len()
at __vx_body_1__
  let ghost j = ss.len() - vx_it3@.len(); let ghost wj = *vx_w;
  proof { assert(vx_x4 == pieces[j - 1]); assert(str_seq(pieces)[j - 1] == vx_x4@); assert(vx_it3@ =~= pieces.skip(j));
    if other_platform(ss[j - 1]) { assert(passed_over(root@, nm, ss[j - 1], wj, wj)); }
    assert forall|v: VxWorld| #[trigger] source_gives(root@, nm, ss[j - 1], wj, v, None) && !other_platform(ss[j - 1]) implies none_of(root@, nm, ss, j, w, v) by { assert(passed_over(root@, nm, ss[j - 1], wj, v)); }
    assert forall|v: VxWorld, qs: Seq<Plugin>| #[trigger] source_gives(root@, nm, ss[j - 1], wj, v, Some(qs.last())) && !other_platform(ss[j - 1]) && qs.len() == ps.len() + 1 && qs.drop_last() == ps implies plugins_had(root@, l, k, w0, v, qs) by {
      assert(first_of(root@, nm, ss, j - 1, w, wj, v, qs.last())); assert(plugin_had(root@, l[k - 1], w, v, qs.last())); } }
end
fn bin::plugins::load_from_source
props C25
requires
  world_ok(*old(vx_w)),
ensures
  r is Ok ==> final(manager).plugins@.len() == old(manager).plugins@.len() + 1 && final(manager).plugins@.drop_last() == old(manager).plugins@ && source_gives(root@, name@, src@, *old(vx_w), *final(vx_w), Some(final(manager).plugins@.last())), //@C25
  r is Err ==> final(manager).plugins@ == old(manager).plugins@ && source_gives(root@, name@, src@, *old(vx_w), *final(vx_w), None), //@C25
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C25
at __vx_start__
  hide(file_gives); hide(cargo_built); hide(prog_ran); hide(git_answers);
  let ghost w0 = *vx_w; let ghost ps = manager.plugins@;
at __vx_blk_4__
  let ghost w1 = *vx_w;
at __vx_aft_if_0__
  let ghost w2 = *vx_w;
  proof { assert(repo_had(root@, name@, src@, w1, w2, true)); }
at __vx_blk_10__
  let ghost w3 = *vx_w; let ghost ss = split_char(src@, '/');
  proof { assert(seq!['/'][0] == '/'); assert(split_pat(src@, seq!['/']) == ss); lemma_split_char_len(src@, '/'); }
at __vx_aft_if_1__
  let ghost w4 = *vx_w;
  proof { assert(plugin_path@ == path_join(plugin_dir@, ss.last())); }
at __vx_aft_map_err_2__
  proof { assert(file_put(plugin_path@, plugin@, w4, *vx_w)); assert(w4 == w3 || dirs_made(plugin_dir@, w3, w4, true));
    assert forall|r: Option<Plugin>| #[trigger] file_gives(plugin_path@, r) implies url_gives(root@, name@, src@, plugin@, w3, *vx_w, r) by { } }
end
fn bin::plugins::DynamicPluginManager::load
props C25
ensures
  r is Ok ==> final(self).plugins@.len() == old(self).plugins@.len() + 1 && final(self).plugins@.drop_last() == old(self).plugins@ && file_gives(path.pv(), Some(final(self).plugins@.last())), //@C25
  r is Err ==> final(self).plugins@ == old(self).plugins@ && file_gives(path.pv(), None), //@C25
end
fn bin::plugins::DynamicPluginManager::load_js
props C25
ensures
  r is Ok ==> final(self).plugins@.len() == old(self).plugins@.len() + 1 && final(self).plugins@.drop_last() == old(self).plugins@ && js_gives(path.pv(), Some(final(self).plugins@.last())), //@C25
  r is Err ==> final(self).plugins@ == old(self).plugins@ && js_gives(path.pv(), None), //@C25
end
fn bin::plugins::DynamicPluginManager::load_binary
props C25
ensures
  r is Ok ==> final(self).plugins@.len() == old(self).plugins@.len() + 1 && final(self).plugins@.drop_last() == old(self).plugins@ && library_gives(path.pv(), Some(final(self).plugins@.last())), //@C25
  r is Err ==> final(self).plugins@ == old(self).plugins@ && library_gives(path.pv(), None),
at __vx_start__
  proof { reveal(library_gives); }
end
fn bin::plugins::DynamicPluginManager::new
props C25
ensures
  r.plugins@.len() == 0 && r.libraries@.len() == 0, //@C25
end
fn bin::plugins::DynamicPluginManager#Manager::plugins
props C25
ensures
  r@ == self.plugins@, //@C25
end
fn bin::plugins::source::build_cargo_project
props C25
requires
  world_ok(*old(vx_w)),
ensures
  cargo_built(root.pv(), *old(vx_w), *final(vx_w), match r { Ok(p) => Some(p@), Err(_) => None }), //@C25
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C25
end
fn bin::plugins::source::find_cargo_project
props C25
requires
  world_ok(*old(vx_w)),
ensures
  *final(vx_w) == *old(vx_w), //@C25
  match r { Some(p) => project_in(*old(vx_w), root.pv(), name@) == Some(p@), None => project_in(*old(vx_w), root.pv(), name@) is None }, //@C25
decreases old(vx_w).depth(root.pv())
at __vx_start__
  let ghost w = *vx_w; let ghost p = root.pv();
at __vx_pre_0__
  let ghost all = vx_it1@; let ghost l = w.list(p)->0;
  proof { assert(all.skip(0) =~= all); assert(l.len() == all.len()); }
at __vx_loop_0__
  invariant
    *vx_w == w, world_ok(w), w.list(p) == Some(l), entry_paths(all) == l, vx_it1@ == all.skip(all.len() - vx_it1@.len()), vx_it1@.len() <= all.len(),
    forall|i: int| 0 <= i < all.len() ==> entry_kind(#[trigger] all[i]) == w.lkind(all[i].p@),
    project_in(w, p, name@) == project_from(w, p, l, name@, all.len() - vx_it1@.len()),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = all.len() - vx_it1@.len() - 1;
  proof { assert(vx_x2 == all[k]); assert(vx_it1@ =~= all.skip(k + 1)); assert(l[k] == entry_paths(all)[k]); assert(l[k] == vx_x2.p@); assert(entries_ok(w, p, l)); assert(path_file_name(l[k]) is Some); assert(w.depth(l[k]) < w.depth(p)); }
end
fn bin::plugins::source::get_project_name
props C25
ensures
  *final(vx_w) == *old(vx_w), match r { Some(p) => package_name(*old(vx_w), manifest@) == Some(p@), None => package_name(*old(vx_w), manifest@) is None }, //@C25
end
fn bin::plugins::source::download_plugin
props C25
ensures
  download_gives(url@, *old(vx_w), *final(vx_w), match r { Some(b) => Some(b@), None => None }), world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)),
at __vx_start__
  proof { reveal(download_gives); }
end
fn bin::config::git::exists
name git_exists
props C25
ensures
  git_answers(url@, *old(vx_w), *final(vx_w), r), //@C25
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C25
end
fn bin::config::git::clone
name git_clone
props C25
ensures
  prog_ran("git"@, seq!["clone"@, url@, path@, "--depth"@, "1"@], *old(vx_w), *final(vx_w), r), //@C25
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C25
end
fn bin::config::git::pull
name git_pull
props C25
ensures
  prog_ran("git"@, seq!["-C"@, path@, "pull"@], *old(vx_w), *final(vx_w), r), //@C25
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C25
end
# ---- the project
fn bin::config::load
name config_load
props C23
ensures
  match r { Ok(raw) => project_file(string@) == Some(raw), Err(_) => project_file(string@) is None }, //@C23
end
fn bin::build::StuartContext::init
props C23 C24 C25
requires
  world_ok(*old(vx_w)),
ensures
  r is Ok ==> old(vx_w).canon(manifest_path@) is Some && project_of(old(vx_w).canon(manifest_path@)->0, output@, stuart_env@, *old(vx_w), *final(vx_w), r->Ok_0), //@C23 C24 C25
  r is Err ==> *final(vx_w) == *old(vx_w) || no_project(old(vx_w).canon(manifest_path@)->0, *old(vx_w), *final(vx_w)), //@C25
  world_ok(*old(vx_w)) ==> world_ok(*final(vx_w)), //@C25
end
