# ---- nodes of the content tree
fn core::fs::Node::is_dir
props C10 C12 C13 C18
ensures
  r == (self is Directory),
end
fn core::fs::Node::is_file
props C10 C12 C13 C18
ensures
  r == (self is File),
end
fn core::fs::Node::name
props C13 C16 C18
ensures
  r@ == node_name(*self),
end
fn core::fs::Node::children
props C10 C13 C18
ensures
  r is Some == (*self is Directory),
  r is Some ==> (r->0)@ == (*self)->children@,
end
fn core::fs::Node::contents
props C16 C18
ensures
  r is Some == (*self is File),
  r is Some ==> (r->0)@ == (*self)->contents@,
end
fn core::fs::Node::parsed_contents
props C10 C12 C16 C18
ensures
  *r == node_pc(*self),
end
fn core::fs::Node::source
props C16 C18
ensures
  *r == node_source(*self),
end
fn core::fs::Node::get_at_path
props C13 C10 C12
ensures
  r is Some == node_at(*self, path_comps(path@)) is Some, //@C13
  r is Some ==> *(r->0) == node_at(*self, path_comps(path@))->0, //@C13
at __vx_pre_0__
  let ghost mut k: int = 0;
  let ghost cs = path_comps(path@);
  proof { assert(cs.skip(0) =~= cs); }
at __vx_loop_0__
  invariant
    0 <= k <= cs.len(), vx_it1@ == cs.skip(k), cs == path_comps(path@), working_path@.len() >= 1,
    node_at(*self, cs) == node_at(*(working_path@.last()), cs.skip(k)),
  ensures k == cs.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof { assert(cs.skip(k)[0] == cs[k]); assert(cs.skip(k).skip(1) =~= cs.skip(k + 1)); k = k + 1; }
at __vx_pre_1__
  let ghost mut j: int = 0;
  proof { assert(refs(children@).skip(0) =~= refs(children@)); }
at __vx_loop_1__
  invariant_except_break
    vx_out1 is None, child(children@, name@) == child_from(children@, name@, j),
  invariant
    0 <= j <= children@.len(), vx_it5@ == refs(children@).skip(j),
  ensures vx_out1 is Some == (child(children@, name@) >= 0), vx_out1 is Some ==> vx_out1 == Some(refs(children@)[child(children@, name@)]),
  decreases vx_it5@.len()
at __vx_body_1__
  proof { assert(vx_x6 == refs(children@)[j]); assert(refs(children@).skip(j).skip(1) =~= refs(children@).skip(j + 1)); j = j + 1; }
end

fn core::parse::markdown::ParsedMarkdown::frontmatter_to_value
props C10 C16 C21 C22 C28
ensures
  r == Value::Object(vx_vec(fm_obj(self.frontmatter@))), //@C22
at __vx_pre_0__
  let ghost mut k: int = 0;
  let ghost fm = self.frontmatter@;
  proof { assert(refs(fm).skip(0) =~= refs(fm)); assert(fm.take(0) =~= Seq::empty()); assert(vx_out0@ =~= Seq::empty()); }
at __vx_loop_0__
  invariant
    0 <= k <= fm.len(), fm == self.frontmatter@, vx_it1@ == refs(fm).skip(k), vx_out0@ == fm_obj(fm.take(k)),
  ensures k == fm.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof {
    assert(vx_x2 == refs(fm)[k]); assert(refs(fm).skip(k).skip(1) =~= refs(fm).skip(k + 1));
    assert(fm.take(k + 1).drop_last() =~= fm.take(k)); assert(fm.take(k + 1).last() == fm[k]);
    k = k + 1;
  }
at __vx_post_0__
  proof { assert(fm.take(k) =~= fm); }
end
fn core::parse::markdown::ParsedMarkdown::to_value
props C10 C16 C28
ensures
  r == md_value(*self), //@C10 C28
end
