# ---- merging static content
fn core::fs::Node::merge
props C19
attr rlimit(30)
requires
  *old(self) is Directory, other is Directory,
ensures
  r is Ok == merged(*old(self), other) is Ok, //@C19
  r is Ok ==> *final(self) == merged(*old(self), other)->Ok_0, //@C19
  r is Err ==> r->Err_0 == Error::Fs(FsError::Conflict(merged(*old(self), other)->Err_0.0, merged(*old(self), other)->Err_0.1)), //@C19
decreases other
at __vx_start__
  let ghost a = *self; let ghost b = other; let ghost bc = kids(other); let ghost ac = kids(*self);
at __vx_pre_0__
  proof { assert(bc.skip(0) =~= bc); }
at __vx_loop_0__
  invariant_except_break
    merged_first(ac, b, bc.len() - vx_it1@.len()) == Ok::<Seq<Node>, (PathBuf, PathBuf)>(children@),
  invariant
    0 <= vx_it1@.len() <= bc.len(), vx_it1@ == bc.skip(bc.len() - vx_it1@.len()), b is Directory, bc == kids(b), a is Directory, ac == kids(a),
  ensures
    merged_first(ac, b, bc.len() as int) == Ok::<Seq<Node>, (PathBuf, PathBuf)>(children@),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = bc.len() - vx_it1@.len(); let ghost ch = children@; let ghost n = node_name(vx_x2);
  proof { if merged_first(ac, b, k) is Err { lemma_merge_err(ac, b, k, bc.len() as int); } assert(vx_x2 == bc[k - 1]); assert(vx_it1@ =~= bc.skip(k)); assert(decreases_to!(b => bc[k - 1])); }
at __vx_loop_1__
  invariant_except_break
    child_from(children@, n, vx_i3 as int) == child(ch, n),
  invariant
    children@ == ch, 0 <= vx_i3 <= ch.len(), n == node_name(other_child),
  ensures
    vx_i3 < ch.len() ==> child(ch, n) == vx_i3,
    vx_i3 >= ch.len() ==> child(ch, n) == -1,
  decreases ch.len() - vx_i3
end
