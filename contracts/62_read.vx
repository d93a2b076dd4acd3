# ---- reading the files
fn core::fs::Node::create_from_file
props C18 C12 C22
attr rlimit(40)
ret r
requires
  world_ok(*old(vx_w)), path_file_name(file.pv()) is Some,
ensures
  *final(vx_w) == *old(vx_w), //@C18
  r is Ok == file_failure(*old(vx_w), vx_path(file.pv()), parse, plugins) is None, //@C18
  r is Ok ==> file_read(*old(vx_w), vx_path(file.pv()), parse, plugins, r->Ok_0), //@C18
  r is Err ==> Some(failv(r->Err_0)) == file_failure(*old(vx_w), vx_path(file.pv()), parse, plugins), //@C18
at __vx_start__
  let ghost w = *vx_w; let ghost p = vx_path(file.pv());
at __vx_let_contents__
  proof { lemma_text_ok(contents@); reveal_strlit("html"); reveal_strlit("md"); reveal_strlit("json"); }
at __vx_pre_0__
  let ghost pl = plugins_seq(*plugins); let ghost mut k: int = 0; let ghost e = extension@; let ghost found = plugin_from(pl, e, 0);
  proof { assert(refs(pl).skip(0) =~= refs(pl)); assert(path_extension(p@) == Some(e)); }
at __vx_loop_0__
  invariant_except_break
    result is None, plugin_from(pl, e, k) == found,
  invariant
    w == *vx_w, w == *old(vx_w), file@ == p@, w.bytes(p@) == Some(contents@), parse, path_extension(p@) == Some(e), e == extension@, e != "html"@, e != "md"@, e != "json"@,
    0 <= k <= pl.len(), vx_it7@ == refs(pl).skip(k), pl == plugins_seq(*plugins), found == plugin_from(pl, e, 0), custom_parser(Some(plugins), e) == found,
  ensures
    match found { None => result is None, Some(q) => node_parse(q, contents@, p) is Ok && result is Custom && **(result->Custom_0) == node_parse(q, contents@, p)->Ok_0 },
  decreases vx_it7@.len()
at __vx_body_0__
  proof { assert(*refs(pl)[k] == pl[k]); assert(refs(pl).skip(k).skip(1) =~= refs(pl).skip(k + 1)); k = k + 1; }
at __vx_pre_1__
  let ghost ps = plugin.parsers@; let ghost mut j: int = 0;
  proof { assert(refs(ps).skip(0) =~= refs(ps)); }
at __vx_loop_1__
  invariant
    w == *vx_w, w == *old(vx_w), file@ == p@, w.bytes(p@) == Some(contents@), parse, path_extension(p@) == Some(e), e == extension@, e != "html"@, e != "md"@, e != "json"@,
    result is None, 0 <= j <= ps.len(), vx_it9@ == refs(ps).skip(j), custom_parser(Some(plugins), e) == found,
    found == (match parser_from(ps, e, j) { Some(q) => Some(q), None => plugin_from(pl, e, k) }),
  ensures found == plugin_from(pl, e, k),
  decreases vx_it9@.len()
at __vx_body_1__
  proof { assert(*refs(ps)[j] == ps[j]); assert(refs(ps).skip(j).skip(1) =~= refs(ps).skip(j + 1)); j = j + 1; }
end

# it ends because directories are finite (`world_ok`)
fn core::fs::Node::create_from_dir
props C18 C12
ret r
attr rlimit(30)
requires
  world_ok(*old(vx_w)), path_file_name(dir.pv()) is Some,
ensures
  *final(vx_w) == *old(vx_w), //@C18
  r is Ok == dir_failure(*old(vx_w), vx_path(dir.pv()), parse, plugins) is None, //@C18
  r is Ok ==> tree_read(*old(vx_w), vx_path(dir.pv()), parse, plugins, r->Ok_0), //@C18
  r is Err ==> Some(failv(r->Err_0)) == dir_failure(*old(vx_w), vx_path(dir.pv()), parse, plugins), //@C18
decreases old(vx_w).depth(dir.pv())
at __vx_start__
  hide(parsed_as); hide(file_read); hide(file_failure);
  let ghost w = *vx_w; let ghost p = vx_path(dir.pv());
at __vx_let_content__
  let ghost l = w.list(p@)->0;
  let ghost all = content.it@;
  proof { assert(all.skip(0) =~= all); assert(l.len() == all.len()); }
at __vx_loop_0__
  invariant_except_break
    vx_err0 is None, list_failure(w, p, l, parse, plugins, all.len() - vx_it2@.len()) is None, vx_out0@.len() == all.len() - vx_it2@.len(),
  invariant
    w == *vx_w, w == *old(vx_w), world_ok(w), dir@ == p@, w.list(p@) == Some(l), entries_ok(w, p@, l), entry_paths(all) == l, l.len() == all.len(),
    0 <= vx_it2@.len() <= all.len(), vx_it2@ == all.skip(all.len() - vx_it2@.len()), vx_out0@.len() <= all.len(),
    forall|i: int| 0 <= i < vx_out0@.len() ==> entry_read(w, vx_path(l[i]), parse, plugins, #[trigger] vx_out0@[i]),
  ensures
    vx_err0 is None ==> vx_out0@.len() == all.len() && list_failure(w, p, l, parse, plugins, l.len() as int) is None,
    match vx_err0 { Some(x) => list_failure(w, p, l, parse, plugins, l.len() as int) == Some(failv(x)), None => true },
  decreases vx_it2@.len()
at __vx_body_0__
  let ghost k = all.len() - vx_it2@.len(); let ghost q = l[k - 1];
  proof { if list_failure(w, p, l, parse, plugins, k) is Some { lemma_list_fails(w, p, l, parse, plugins, k, l.len() as int); } assert(vx_it2@ =~= all.skip(k)); assert(vx_x3 == all[k - 1]); assert(entry_paths(all)[k - 1] == q); assert(path_file_name(l[k - 1]) is Some); }
at __vx_let_path__
  proof { assert(path@ == q); assert(w.depth(q) < w.depth(p@)); assert(path == vx_path(q)); }
at __vx_arm_0__
  proof { assert((&path).pv() == q); assert(w.kind(q) == Some(VxKind::Dir)); assert(list_failure(w, p, l, parse, plugins, k) == entry_failure(w, path, parse, plugins)); }
end

fn core::fs::Node::new
props C18
ret r
requires
  world_ok(*old(vx_w)), old(vx_w).canon(root.pv()) is Some ==> path_file_name(old(vx_w).canon(root.pv())->0) is Some,
ensures
  *final(vx_w) == *old(vx_w), //@C18
  r is Ok == tree_failure(*old(vx_w), root.pv(), parse, None) is None, //@C18
  r is Ok ==> tree_read(*old(vx_w), vx_path(old(vx_w).canon(root.pv())->0), parse, None, r->Ok_0), //@C18
  r is Err ==> Some(failv(r->Err_0)) == tree_failure(*old(vx_w), root.pv(), parse, None), //@C18
end

fn core::fs::Node::new_with_plugins
props C18
ret r
requires
  world_ok(*old(vx_w)), old(vx_w).canon(root.pv()) is Some ==> path_file_name(old(vx_w).canon(root.pv())->0) is Some,
ensures
  *final(vx_w) == *old(vx_w), //@C18
  r is Ok == tree_failure(*old(vx_w), root.pv(), parse, Some(plugins)) is None, //@C18
  r is Ok ==> tree_read(*old(vx_w), vx_path(old(vx_w).canon(root.pv())->0), parse, Some(plugins), r->Ok_0), //@C18
  r is Err ==> Some(failv(r->Err_0)) == tree_failure(*old(vx_w), root.pv(), parse, Some(plugins)), //@C18
end
