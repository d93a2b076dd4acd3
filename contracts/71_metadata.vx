# ---- merging static content, continued
fn core::Stuart::merge_output
props C19
requires
  old(self).output is Some ==> old(self).output->0 is Directory, node is Directory,
ensures
  *final(self) == (Stuart { output: final(self).output, ..*old(self) }), //@C19
  old(self).output is None ==> r == Err::<(), Error>(Error::NotBuilt), //@C19
  old(self).output is Some ==> (r is Ok == merged(old(self).output->0, node) is Ok), //@C19
  old(self).output is Some && r is Ok ==> final(self).output == Some(merged(old(self).output->0, node)->Ok_0), //@C19
  old(self).output is Some && r is Err ==> r->Err_0 == Error::Fs(FsError::Conflict(merged(old(self).output->0, node)->Err_0.0, merged(old(self).output->0, node)->Err_0.1)), //@C19
end
# ---- metadata
fn core::fs::Node::save_metadata_recur
props C21
attr rlimit(30)
requires
  meta_ok(*self),
ensures
  r == (if is_first { site_meta(*self) } else { meta(*self) }), //@C21
decreases *self
at __vx_pre_0__
  let ghost ch = vx_it1@; let ghost n = *self;
  proof { assert(ch == refs(kids(n))); assert(refs(kids(n)).skip(0) =~= refs(kids(n))); assert(metas(n, 0) =~= Seq::<Value>::empty()); }
at __vx_loop_0__
  invariant_except_break
    vx_out0@ == metas(n, kids(n).len() - vx_it1@.len()),
  invariant
    n is Directory, n == *self, meta_ok(n), 0 <= vx_it1@.len() <= kids(n).len(), vx_it1@ == refs(kids(n)).skip(kids(n).len() - vx_it1@.len()),
  ensures
    vx_out0@ == metas(n, kids(n).len() as int),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = kids(n).len() - vx_it1@.len();
  proof { assert(vx_x2 == refs(kids(n))[k - 1]); assert(*vx_x2 == kids(n)[k - 1]); assert(vx_it1@ =~= refs(kids(n)).skip(k)); assert(decreases_to!(n => kids(n)[k - 1])); lemma_meta_ok(n, kids(n).len() as int, k - 1); }
at __vx_let_children__
  proof { assert(children@ == metas(*self, kids(*self).len() as int)); assert(vx_vec(children@) == children); }
at __vx_let_metadata__
  let ghost o0 = metadata->Object_0@;
  proof { assert(o0 =~= seq![(vx_string("name"@), str_val(node_name(*self)))]); }
at __vx_tail_4__
  proof { assert(metadata is Object); assert(vx_vec(metadata->Object_0@) == metadata->Object_0); assert(metadata->Object_0@ == file_meta(*self)); }
at __vx_pre_1__
  let ghost o = metadata->Object_0@; let ghost a = json->Object_0@;
  proof { assert(refs(a).skip(0) =~= refs(a)); assert(vx_it4@ == refs(a)); }
at __vx_loop_1__
  invariant_except_break
    metadata is Object, metadata->Object_0@ == obj_add(o, a, a.len() - vx_it4@.len()),
  invariant
    0 <= vx_it4@.len() <= a.len(), vx_it4@ == refs(a).skip(a.len() - vx_it4@.len()),
  ensures
    metadata is Object, metadata->Object_0@ == obj_add(o, a, a.len() as int),
  decreases vx_it4@.len()
at __vx_body_1__
  let ghost k = a.len() - vx_it4@.len();
  proof { assert(vx_x5 == refs(a)[k - 1]); assert(*vx_x5 == a[k - 1]); assert(vx_it4@ =~= refs(a).skip(k)); }
end
fn core::fs::Node::save_metadata
props C21
requires
  meta_ok(*self), base is Object,
ensures
  r is Ok ==> final(vx_w).fs() == old(vx_w).fs().insert(path.pv(), VxEntry::File(utf8(json_text(Value::Object(vx_vec(obj_set(base->Object_0@, "data"@, site_meta(*self)))))))) && final(vx_w).failed() == old(vx_w).failed(), //@C21
  r is Err ==> final(vx_w).failed() && r->Err_0 == Error::Fs(FsError::Write), //@C21
end
fn core::Stuart::save_metadata
props C21
requires
  self.output is Some ==> meta_ok(self.output->0),
ensures
  !self.config.save_metadata ==> r == Err::<(), Error>(Error::MetadataNotEnabled) && *final(vx_w) == *old(vx_w), //@C21
  self.config.save_metadata && self.output is None ==> r == Err::<(), Error>(Error::NotBuilt) && *final(vx_w) == *old(vx_w), //@C21
  self.config.save_metadata && self.output is Some && r is Ok ==> final(vx_w).fs() == old(vx_w).fs().insert(path.pv(), VxEntry::File(utf8(json_text(Value::Object(vx_vec(obj_set(meta_base(self.config), "data"@, site_meta(self.output->0)))))))) && final(vx_w).failed() == old(vx_w).failed(), //@C21
  self.config.save_metadata && self.output is Some && r is Err ==> final(vx_w).failed() && r->Err_0 == Error::Fs(FsError::Write), //@C21
at __vx_let_base__
  proof { assert(base->Object_0@ =~= meta_base(self.config)); }
end
