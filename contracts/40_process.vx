# ---- tokens, frames and variables
fn core::parse::LocatableToken#Deref::deref
props C06 C07
ensures
  *r == self.inner,
end
fn core::parse::LocatableToken::traceback
props C03 C05 C06
ensures
  eat(r) == tat(*self), r.kind == e, //@C03
end
fn core::parse::Token::as_function
props C06 C07
ensures
  r is Some == (*self is Function),
  r is Some ==> **(r->0) == **(self->Function_0),
end
fn core::process::iter::TokenIter::new
props C06 C07 C09 C16
ensures
  r.tokens@ == tokens@, r.index == 0,
end
fn core::process::iter::TokenIter::waypoint
props C09
ensures
  r.0 == self.index,
end
fn core::process::iter::TokenIter::rewind_to
props C09
ensures
  final(self).index == waypoint.0, final(self).tokens == old(self).tokens,
end
fn core::process::iter::TokenIter::current
props C03 C06 C07 C09
requires
  self.index <= self.tokens@.len(),
ensures
  r is Some == (self.index > 0),
  r is Some ==> *(r->0) == self.tokens@[self.index - 1], //@C03
end
fn core::process::iter::TokenIter#Iterator::next
props C05 C06 C07 C09 C16
ensures
  final(self).tokens == old(self).tokens,
  old(self).index < old(self).tokens@.len() ==> r is Some && *(r->0) == old(self).tokens@[old(self).index as int] && final(self).index == old(self).index + 1,
  old(self).index >= old(self).tokens@.len() ==> r is None && final(self).index == old(self).index,
end
fn core::process::stack::StackFrame::new
props C05 C06 C07 C09
ensures
  r == frame(name.sr()),
end
fn core::process::stack::StackFrame::add_variable
props C05 C09 C12
ensures
  *final(self) == frame_with(*old(self), name.sr(), value), //@C05 C09 C12
end
fn core::process::stack::StackFrame::with_variable
props C05 C16
ensures
  r == frame_with(self, name.sr(), value), //@C05 C16
end
fn core::process::stack::StackFrame::get_variable
props C05 C12
ensures
  r is Some == frame_var(*self, name@) is Some, //@C05 C12
  r is Some ==> *(r->0) == frame_var(*self, name@)->0, //@C05 C12
at __vx_pre_0__
  let ghost mut k: int = 0;
  let ghost vs = self.variables@;
  proof { assert(refs(vs).skip(0) =~= refs(vs)); }
at __vx_loop_0__
  invariant_except_break
    vx_out0 is None, obj_find(vs, name@) == obj_find_from(vs, name@, k),
  invariant
    0 <= k <= vs.len(), vx_it1@ == refs(vs).skip(k), vs == self.variables@,
  ensures vx_out0 is Some == (obj_find(vs, name@) >= 0), vx_out0 is Some ==> vx_out0 == Some(refs(vs)[obj_find(vs, name@)]),
  decreases vx_it1@.len()
at __vx_body_0__
  proof { assert(vx_x2 == refs(vs)[k]); assert(refs(vs).skip(k).skip(1) =~= refs(vs).skip(k + 1)); k = k + 1; }
end
fn core::process::stack::get_value
props C05 C09 C10
ensures
  r == value_at(str_seq(index@), *json), //@C05 C09 C10
at __vx_start__
  let ghost p = str_seq(index@); let ghost index0 = index@;
at __vx_pre_0__
  let ghost mut k: int = 0;
  proof { assert(p.skip(0) =~= p); assert(refs(index0).skip(0) =~= refs(index0)); }
at __vx_loop_0__
  invariant
    0 <= k <= index0.len(), vx_it1@ == refs(index0).skip(k), p == str_seq(index0), p.len() == index0.len(),
    value_at(p, *json) == value_at(p.skip(k), *current_json),
  ensures k == index0.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof {
    assert(vx_x2 == refs(index0)[k]); assert(refs(index0).skip(k).skip(1) =~= refs(index0).skip(k + 1));
    assert(p.skip(k).skip(1) =~= p.skip(k + 1)); assert(p.skip(k)[0] == index0[k]@);
    k = k + 1;
  }
end
fn core::process::Scope::get_variable
props C05 C08 C10 C14 C15
ensures
  r == var(st(*self).stack, name@), //@C05
at __vx_start__
  let ghost stk = st(*self).stack; let ghost p = split_char(name@, '.');
  proof { lemma_split_char_len(name@, '.'); }
at __vx_let_variable_indexes__
  proof { assert(variable_name@ == p[0]); assert(str_seq(variable_indexes@) =~= p.skip(1)); }
at __vx_pre_0__
  let ghost mut k: int = 0;
  proof { assert(stk.take(stk.len() as int) =~= stk); assert(refs(stk).reverse().skip(0) =~= refs(stk).reverse()); }
at __vx_loop_0__
  invariant_except_break
    variable is None, lookup(stk, variable_name@) == lookup(stk.take(stk.len() - k), variable_name@),
  invariant
    0 <= k <= stk.len(), vx_it1@ == refs(stk).reverse().skip(k), stk == st(*self).stack, str_seq(variable_indexes@) == p.skip(1),
  ensures
    variable is Some == lookup(stk, variable_name@) is Some,
    variable is Some ==> variable->0 == value_at(p.skip(1), lookup(stk, variable_name@)->0),
  decreases vx_it1@.len()
at __vx_body_0__
  proof {
    let m = stk.len() - k;
    assert(vx_x2 == refs(stk)[m - 1]);
    assert(refs(stk).reverse().skip(k).skip(1) =~= refs(stk).reverse().skip(k + 1));
    assert(stk.take(m).last() == stk[m - 1]); assert(stk.take(m).drop_last() =~= stk.take(m - 1));
    k = k + 1;
  }
end
fn core::process::Scope::output
props C06 C14 C15
ensures
  keeps(*old(self), *final(self)),
  r is Ok == (st(*old(self)).stack.len() > 0),
  r is Ok ==> st(*final(self)) == (St { stack: put(st(*old(self)).stack, output.br()), ..st(*old(self)) }),
end
fn core::process::Scope::skip_block
props C06 C07 C09
requires
  st(*old(self)).idx <= cx(*old(self)).toks.len(),
ensures
  keeps(*old(self), *final(self)),
  r is Some == skip_from(cx(*old(self)).toks, st(*old(self)).idx as int, 1) is Some,
  r is Some ==> st(*final(self)) == (St { idx: skip_from(cx(*old(self)).toks, st(*old(self)).idx as int, 1)->0, ..st(*old(self)) }),
  r is Some ==> st(*old(self)).idx < st(*final(self)).idx <= cx(*old(self)).toks.len(),
at __vx_loop_0__
  invariant
    keeps(*old(self), *self), self.tokens.index <= cx(*self).toks.len(), st(*self).stack == st(*old(self)).stack, st(*self).secs == st(*old(self)).secs,
    depth <= 1 + self.tokens.index, cx(*self).toks.len() <= isize::MAX, self.tokens.index >= st(*old(self)).idx, depth == 0 ==> self.tokens.index > st(*old(self)).idx,
    skip_from(cx(*self).toks, st(*old(self)).idx as int, 1) == skip_from(cx(*self).toks, self.tokens.index as int, depth as int),
  decreases cx(*self).toks.len() - self.tokens.index
end
