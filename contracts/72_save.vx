# ---- saving
fn core::parse::contents::ParsedContents::is_ignored
props C20
ensures
  r == (*self is Ignored),
end
fn core::fs::write_new
props C20
ensures
  reported(r, if old(vx_w).fs().contains_key(target@) { SaveRes::Conflict(target, *source) } else { SaveRes::Ok(old(vx_w).fs().insert(target@, VxEntry::File(contents@))) }, *old(vx_w), *final(vx_w)), //@C20
end
fn core::fs::Node::save_recur
props C20
attr rlimit(40)
ensures
  reported(r, saved(*self, path.pv(), *config, old(vx_w).fs()), *old(vx_w), *final(vx_w)), //@C20
decreases *self
at __vx_start__
  proof { reveal_strlit(".html"); }
at __vx_pre_0__
  let ghost f0 = vx_w.fs(); let ghost ch = children@; let ghost n = *self; let ghost fl = vx_w.failed(); let ghost d = dir@;
  proof { assert(refs(ch).skip(0) =~= refs(ch)); }
at __vx_loop_0__
  invariant_except_break
    saved_first(n, d, *config, f0, ch.len() - vx_it1@.len()) == SaveRes::Ok(vx_w.fs()),
  invariant
    d == dir@, n is Directory, n == *self, ch == kids(n), 0 <= vx_it1@.len() <= ch.len(), vx_it1@ == refs(ch).skip(ch.len() - vx_it1@.len()), vx_w.failed() == fl, fl == old(vx_w).failed(),
    saved(n, path@, *config, old(vx_w).fs()) == saved_first(n, d, *config, f0, ch.len() as int),
  ensures
    saved_first(n, d, *config, f0, ch.len() as int) == SaveRes::Ok(vx_w.fs()),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = ch.len() - vx_it1@.len();
  proof { assert(vx_x2 == refs(ch)[k - 1]); assert(*vx_x2 == ch[k - 1]); assert(vx_it1@ =~= refs(ch).skip(k)); assert(decreases_to!(n => ch[k - 1]));
    if !(saved_first(n, d, *config, f0, k) is Ok) { lemma_saved_err(n, d, *config, f0, k, ch.len() as int); } }
end
fn core::fs::Node::save
props C20
requires
  *self is Directory,
ensures
  reported(r, saved_root(*self, path.pv(), *config, old(vx_w).fs()), *old(vx_w), *final(vx_w)), //@C20
at __vx_pre_0__
  let ghost f0 = vx_w.fs(); let ghost ch = children@; let ghost n = *self; let ghost fl = vx_w.failed(); let ghost d = path@;
  proof { assert(refs(ch).skip(0) =~= refs(ch)); }
at __vx_loop_0__
  invariant_except_break
    saved_first(n, d, *config, f0, ch.len() - vx_it3@.len()) == SaveRes::Ok(vx_w.fs()),
  invariant
    d == path@, n is Directory, n == *self, ch == kids(n), 0 <= vx_it3@.len() <= ch.len(), vx_it3@ == refs(ch).skip(ch.len() - vx_it3@.len()), vx_w.failed() == fl, fl == old(vx_w).failed(),
    saved_root(n, path@, *config, old(vx_w).fs()) == saved_first(n, d, *config, f0, ch.len() as int),
  ensures
    saved_first(n, d, *config, f0, ch.len() as int) == SaveRes::Ok(vx_w.fs()),
  decreases vx_it3@.len()
at __vx_body_0__
  let ghost k = ch.len() - vx_it3@.len();
  proof { assert(vx_x4 == refs(ch)[k - 1]); assert(*vx_x4 == ch[k - 1]); assert(vx_it3@ =~= refs(ch).skip(k)); assert(decreases_to!(n => ch[k - 1]));
    if !(saved_first(n, d, *config, f0, k) is Ok) { lemma_saved_err(n, d, *config, f0, k, ch.len() as int); } }
end
fn core::Stuart::save
props C20
requires
  self.output is Some ==> self.output->0 is Directory,
ensures
  self.output is None ==> r == Err::<(), Error>(Error::NotBuilt) && *final(vx_w) == *old(vx_w), //@C20
  self.output is Some ==> reported(r, saved_root(self.output->0, path.pv(), self.config, old(vx_w).fs()), *old(vx_w), *final(vx_w)), //@C20
end
