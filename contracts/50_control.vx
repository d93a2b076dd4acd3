fn core::process::LocatableToken::process
props C05 C01
requires
  scope_ok(*old(scope)), tok_ok(*self),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_tok(cx(*old(scope)), *self, st(*old(scope)))), //@C05 C01
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 2int
at __vx_let_variable_iter__
  let ghost stk = st(*old(scope)).stack; let ghost p = split_char(variable@, '.');
  proof { lemma_split_char_len(variable@, '.'); }
at __vx_let_variable_indexes__
  proof { assert(variable_name@ == p[0]); assert(str_seq(variable_indexes@) =~= p.skip(1)); }
at __vx_pre_0__
  let ghost mut k: int = 0;
  proof { assert(stk.take(stk.len() as int) =~= stk); assert(refs(stk).reverse().skip(0) =~= refs(stk).reverse()); }
at __vx_loop_0__
  invariant_except_break
    string is None, lookup(stk, variable_name@) == lookup(stk.take(stk.len() - k), variable_name@),
  invariant
    0 <= k <= stk.len(), vx_it1@ == refs(stk).reverse().skip(k), stk == st(*old(scope)).stack, str_seq(variable_indexes@) == p.skip(1),
  ensures
    string is Some ==> var(stk, variable@) == Some(Value::String(string->0)),
    string is None ==> var(stk, variable@) is None,
  decreases vx_it1@.len()
at __vx_body_0__
  proof {
    let m = stk.len() - k;
    assert(vx_x2 == refs(stk)[m - 1]);
    assert(refs(stk).reverse().skip(k).skip(1) =~= refs(stk).reverse().skip(k + 1));
    assert(stk.take(m).last() == stk[m - 1]); assert(stk.take(m).drop_last() =~= stk.take(m - 1));
    k = k + 1;
  }
at __vx_clo_0__
  |vx_c0_0: &str| -> (r: Result<(), ProcessError>) ensures r is Err
end
fn core::functions::parsers::begin::BeginFunction#Function::execute
props C06 C11 C16
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_begin(*self, st(*old(scope)))), //@C06 C11 C16
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
end
fn core::functions::parsers::end::EndFunction#Function::execute
props C06 C11 C16
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_end(cx(*old(scope)), *self, st(*old(scope)))), //@C06 C11 C16
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
end
fn core::functions::parsers::else::ElseFunction#Function::execute
props C06 C07
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_else(cx(*old(scope)), st(*old(scope)))), //@C06 C07
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
end
fn core::functions::parsers::insert::InsertFunction#Function::execute
props C11
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_insert(cx(*old(scope)), *self, st(*old(scope)))), //@C11
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_pre_0__
  let ghost mut k: int = 0;
  let ghost ss = scope.sections@;
  proof { assert(refs(ss).skip(0) =~= refs(ss)); }
at __vx_loop_0__
  invariant_except_break
    vx_out0 is None, sec_from(ss, self.label@, 0) == sec_from(ss, self.label@, k),
  invariant
    0 <= k <= ss.len(), vx_it1@ == refs(ss).skip(k), ss == st(*old(scope)).secs,
  ensures vx_out0 is Some == (sec_from(ss, self.label@, 0) >= 0), vx_out0 is Some ==> vx_out0 == Some(refs(ss)[sec_from(ss, self.label@, 0)]),
  decreases vx_it1@.len()
at __vx_body_0__
  proof { assert(vx_x2 == refs(ss)[k]); assert(refs(ss).skip(k).skip(1) =~= refs(ss).skip(k + 1)); k = k + 1; }
end
fn core::functions::parsers::import::ImportFunction#Function::execute
props C12
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_import(cx(*old(scope)), *self, st(*old(scope)))), //@C12
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
end
fn core::functions::parsers::excerpt::ExcerptFunction#Function::execute
props C14
requires
  scope_ok(*old(scope)), self.length <= i32::MAX,
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_excerpt(cx(*old(scope)), *self, st(*old(scope)))), //@C14
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_let_string__
  let ghost text = string@; let ghost n = self.length as int; let ghost mut k: int = 0;
  proof { assert(text.skip(0) =~= text); }
at __vx_loop_0__
  invariant_except_break
    excerpt_text(text, n) == excerpt_from(chars@, excerpt@, tag, n),
  invariant
    0 <= k <= text.len(), chars@ == text.skip(k), n == self.length,
  ensures
    excerpt_text(text, n) == (if chars@.len() > 0 { excerpt@ + "..."@ } else { excerpt@ }),
  decreases chars@.len()
at __vx_body_0__
  let ghost c0 = chars@;
  proof { if k < text.len() { assert(text.skip(k).skip(1) =~= text.skip(k + 1)); assert(text.skip(k)[0] == text[k]); } }
at __vx_blk_4__
  proof { k = k + 1; }
end
fn core::functions::parsers::timetoread::TimeToReadFunction#Function::execute
props C15
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_ttr(cx(*old(scope)), *self, st(*old(scope)))), //@C15
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
end
fn core::functions::parsers::dateformat::DateFormatFunction#Function::execute
props C05
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_date(cx(*old(scope)), *self, st(*old(scope)))), //@C05
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_start__
  proof { reveal(date_text); }
at __vx_clo_0__
  || -> (z: Result<String, ProcessError>)
    requires guarded()
    ensures date_is(z, string@, self.format@)
end
fn core::functions::parsers::ifdefined::IfDefinedFunction#Function::execute
props C07 C06 C02
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_ifdefined(cx(*old(scope)), *self, st(*old(scope)))), //@C07 C06 C02
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_aft_push_0__
  let ghost c = cx(*old(scope)); let ghost h = stack_height as int; let ghost at0 = here(c, st(*old(scope)));
  let ghost s0 = st(*scope); let ghost m = sem_branch(c, h, defined, at0, s0);
at __vx_loop_0__
  invariant
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, c == cx(*old(scope)),
    m == sem_ifdefined(c, *self, st(*old(scope))),
    m == sem_branch(c, h, defined, at0, st(*scope)), st(*scope).idx >= st(*old(scope)).idx,
    tat(self_token) == at0, h == stack_height,
  decreases gap(c, st(*scope).idx)
end
fn core::functions::parsers::ifeq::Function#Function::execute
props C07 C08 C06 C02
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_cond(cx(*old(scope)), Op::Eq, "ifeq"@, self.input_1, self.input_2, st(*old(scope)))), //@C07 C08 C06 C02
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_aft_push_0__
  let ghost c = cx(*old(scope)); let ghost h = stack_height as int; let ghost at0 = here(c, st(*old(scope)));
  let ghost s0 = st(*scope); let ghost m = sem_branch(c, h, condition, at0, s0);
at __vx_loop_0__
  invariant
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, c == cx(*old(scope)),
    m == sem_cond(c, Op::Eq, "ifeq"@, self.input_1, self.input_2, st(*old(scope))),
    m == sem_branch(c, h, condition, at0, st(*scope)), st(*scope).idx >= st(*old(scope)).idx,
    tat(self_token) == at0, h == stack_height,
  decreases gap(c, st(*scope).idx)
end
fn core::functions::parsers::ifne::Function#Function::execute
props C07 C08 C06 C02
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_cond(cx(*old(scope)), Op::Ne, "ifne"@, self.input_1, self.input_2, st(*old(scope)))), //@C07 C08 C06 C02
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_aft_push_0__
  let ghost c = cx(*old(scope)); let ghost h = stack_height as int; let ghost at0 = here(c, st(*old(scope)));
  let ghost s0 = st(*scope); let ghost m = sem_branch(c, h, condition, at0, s0);
at __vx_loop_0__
  invariant
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, c == cx(*old(scope)),
    m == sem_cond(c, Op::Ne, "ifne"@, self.input_1, self.input_2, st(*old(scope))),
    m == sem_branch(c, h, condition, at0, st(*scope)), st(*scope).idx >= st(*old(scope)).idx,
    tat(self_token) == at0, h == stack_height,
  decreases gap(c, st(*scope).idx)
end
fn core::functions::parsers::ifgt::Function#Function::execute
props C07 C08 C06 C02
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_cond(cx(*old(scope)), Op::Gt, "ifgt"@, self.input_1, self.input_2, st(*old(scope)))), //@C07 C08 C06 C02
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_aft_push_0__
  let ghost c = cx(*old(scope)); let ghost h = stack_height as int; let ghost at0 = here(c, st(*old(scope)));
  let ghost s0 = st(*scope); let ghost m = sem_branch(c, h, condition, at0, s0);
at __vx_loop_0__
  invariant
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, c == cx(*old(scope)),
    m == sem_cond(c, Op::Gt, "ifgt"@, self.input_1, self.input_2, st(*old(scope))),
    m == sem_branch(c, h, condition, at0, st(*scope)), st(*scope).idx >= st(*old(scope)).idx,
    tat(self_token) == at0, h == stack_height,
  decreases gap(c, st(*scope).idx)
end
fn core::functions::parsers::ifge::Function#Function::execute
props C07 C08 C06 C02
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_cond(cx(*old(scope)), Op::Ge, "ifge"@, self.input_1, self.input_2, st(*old(scope)))), //@C07 C08 C06 C02
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_aft_push_0__
  let ghost c = cx(*old(scope)); let ghost h = stack_height as int; let ghost at0 = here(c, st(*old(scope)));
  let ghost s0 = st(*scope); let ghost m = sem_branch(c, h, condition, at0, s0);
at __vx_loop_0__
  invariant
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, c == cx(*old(scope)),
    m == sem_cond(c, Op::Ge, "ifge"@, self.input_1, self.input_2, st(*old(scope))),
    m == sem_branch(c, h, condition, at0, st(*scope)), st(*scope).idx >= st(*old(scope)).idx,
    tat(self_token) == at0, h == stack_height,
  decreases gap(c, st(*scope).idx)
end
fn core::functions::parsers::iflt::Function#Function::execute
props C07 C08 C06 C02
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_cond(cx(*old(scope)), Op::Lt, "iflt"@, self.input_1, self.input_2, st(*old(scope)))), //@C07 C08 C06 C02
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_aft_push_0__
  let ghost c = cx(*old(scope)); let ghost h = stack_height as int; let ghost at0 = here(c, st(*old(scope)));
  let ghost s0 = st(*scope); let ghost m = sem_branch(c, h, condition, at0, s0);
at __vx_loop_0__
  invariant
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, c == cx(*old(scope)),
    m == sem_cond(c, Op::Lt, "iflt"@, self.input_1, self.input_2, st(*old(scope))),
    m == sem_branch(c, h, condition, at0, st(*scope)), st(*scope).idx >= st(*old(scope)).idx,
    tat(self_token) == at0, h == stack_height,
  decreases gap(c, st(*scope).idx)
end
fn core::functions::parsers::ifle::Function#Function::execute
props C07 C08 C06 C02
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_cond(cx(*old(scope)), Op::Le, "ifle"@, self.input_1, self.input_2, st(*old(scope)))), //@C07 C08 C06 C02
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_aft_push_0__
  let ghost c = cx(*old(scope)); let ghost h = stack_height as int; let ghost at0 = here(c, st(*old(scope)));
  let ghost s0 = st(*scope); let ghost m = sem_branch(c, h, condition, at0, s0);
at __vx_loop_0__
  invariant
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, c == cx(*old(scope)),
    m == sem_cond(c, Op::Le, "ifle"@, self.input_1, self.input_2, st(*old(scope))),
    m == sem_branch(c, h, condition, at0, st(*scope)), st(*scope).idx >= st(*old(scope)).idx,
    tat(self_token) == at0, h == stack_height,
  decreases gap(c, st(*scope).idx)
end
fn core::functions::parsers::for::ForFunction#Function::execute
attr rlimit(120)
props C09 C10 C06 C02
requires
  scope_ok(*old(scope)),
ensures
  keeps(*old(scope), *final(scope)),
  ran(*old(scope), *final(scope), r, sem_for(cx(*old(scope)), *self, st(*old(scope)))), //@C09 C10 C06 C02
  r is Ok ==> scope_ok(*final(scope)) && st(*final(scope)).idx >= st(*old(scope)).idx,
decreases gap(cx(*old(scope)), st(*old(scope)).idx), 0int
at __vx_start__
  let ghost c = cx(*old(scope)); let ghost w = st(*old(scope)).idx; let ghost s0 = st(*old(scope)); let ghost at0 = here(c, s0);
  let ghost m = sem_for(c, *self, s0); let ghost stk = s0.stack;
at __vx_pre_0__
  let ghost ch = directory->children@; let ghost mut k: int = 0;
  proof { assert(refs(ch).skip(0) =~= refs(ch)); assert(ch.take(0) =~= Seq::empty()); assert(vx_out0@ =~= Seq::empty()); }
at __vx_loop_0__
  invariant
    0 <= k <= ch.len(), vx_it1@ == refs(ch).skip(k), vx_out0@ == md_values(ch.take(k)),
  ensures k == ch.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof {
    assert(vx_x2 == refs(ch)[k]); assert(refs(ch).skip(k).skip(1) =~= refs(ch).skip(k + 1));
    assert(ch.take(k + 1).drop_last() =~= ch.take(k)); assert(ch.take(k + 1).last() == ch[k]);
    k = k + 1;
  }
at __vx_post_0__
  proof { assert(ch.take(k) =~= ch); }
at __vx_let_variable_iter__
  let ghost p = split_char(self.source@, '.');
  proof { lemma_split_char_len(self.source@, '.'); }
at __vx_let_variable_indexes__
  proof { assert(variable_name@ == p[0]); assert(str_seq(variable_indexes@) =~= p.skip(1)); }
at __vx_pre_1__
  let ghost mut k: int = 0;
  proof { assert(stk.take(stk.len() as int) =~= stk); assert(refs(stk).reverse().skip(0) =~= refs(stk).reverse()); }
at __vx_loop_1__
  invariant_except_break
    variable is None, lookup(stk, variable_name@) == lookup(stk.take(stk.len() - k), variable_name@),
  invariant
    0 <= k <= stk.len(), vx_it5@ == refs(stk).reverse().skip(k), stk == st(*old(scope)).stack, str_seq(variable_indexes@) == p.skip(1),
  ensures
    variable == var(stk, self.source@),
  decreases vx_it5@.len()
at __vx_body_1__
  proof {
    let m = stk.len() - k;
    assert(vx_x6 == refs(stk)[m - 1]);
    assert(refs(stk).reverse().skip(k).skip(1) =~= refs(stk).reverse().skip(k + 1));
    assert(stk.take(m).last() == stk[m - 1]); assert(stk.take(m).drop_last() =~= stk.take(m - 1));
    k = k + 1;
  }
at __vx_let_variables__
  let ghost v0 = variables@;
  proof { assert(for_source_values(c, *self, stk) is Some); assert(for_source_values(c, *self, stk)->0 =~= v0); }
at __vx_let_indexes__
  proof { assert(str_seq(indexes@) =~= split_char(key@, '.').skip(1)); lemma_split_char_len(key@, '.'); }
at __vx_clo_0__
  |vx_c0_0: &Value| -> (r: String) ensures r@ == sort_key(key@, *vx_c0_0)
at __vx_aft_sort_by_cached_key_0__
  proof {
    let ks = choose|ks: Seq<String>| texts(ks).len() == v0.len() && (forall|i: int| 0 <= i < v0.len() ==> texts(ks)[i] == sort_key(key@, v0[i])) && variables@ == sorted(v0, #[trigger] texts(ks)).0;
    assert(texts(ks) =~= v0.map(|_i: int, x: Value| sort_key(key@, x)));
  }
at __vx_pre_2__
  let ghost full = for_select(*self, v0);
  let ghost mut k: int = 0;
  proof { assert(vx_it10@ =~= full); assert(full.skip(0) =~= full); }
at __vx_loop_2__
  invariant
    0 <= k <= full.len(), vx_it10@ == full.skip(k), rendered == (k > 0),
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, st(*scope).idx >= w,
    k == 0 ==> st(*scope) == s0,
    full.len() > 0 ==> m == sem_each(c, *self, full.skip(k), w, at0, st(*scope)),
  ensures k == full.len(),
  decreases vx_it10@.len()
at __vx_body_2__
  proof { assert(full.skip(k).skip(1) =~= full.skip(k + 1)); assert(full.skip(k)[0] == full[k]); }
at __vx_aft_push_0__
  let ghost h = stack_height as int;
  proof { k = k + 1; }
at __vx_loop_3__
  invariant
    keeps(*old(scope), *scope), scope_ok(*scope), cx(*scope) == c, st(*scope).idx >= w, h == stack_height,
    m == (match sem_body(c, h, at0, st(*scope)) { Err(e) => Err(e), Ok(s2) => sem_each(c, *self, full.skip(k), w, at0, s2) }),
  decreases gap(c, st(*scope).idx)
end
fn core::functions::Input::evaluate_variable
props C08
requires
  scope_ok(*old(scope)),
ensures
  *final(scope) == *old(scope),
  r is Some == input_value(*self, st(*old(scope)).stack) is Some, //@C08
  r is Some ==> r->0 == input_value(*self, st(*old(scope)).stack)->0, //@C08
end
fn core::functions::Input#PartialEq::eq
props C08
ensures
  r == input_eq(*self, *other), //@C08
end
fn core::functions::Input#PartialOrd::partial_cmp
props C08
ensures
  r == input_cmp(*self, *other), //@C08
end
fn core::functions::Input#ToString::to_string
props C08
ensures
  r@ == input_text(*self),
end
fn core::parse::Token::as_raw
props C05
ensures
  r is Some == (*self is Raw), r is Some ==> (r->0)@ == self->Raw_0@,
end
fn core::parse::Token::as_variable
props C05
ensures
  r is Some == (*self is Variable), r is Some ==> (r->0)@ == self->Variable_0@,
end
