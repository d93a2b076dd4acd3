# values between templates and JavaScript (C31)
fn bin::plugins::js::json::json_to_js
props C31
ret r
decreases value->0
ensures
  match value { Some(v) => shows(final(scope).heap(), old(scope).heap().dom(), r.jv(), v), None => r.jv() is Undef }, //@C31
  heap_ext(old(scope).heap(), final(scope).heap()), //@C31
  final(scope).ctx() == old(scope).ctx() && final(scope).ctxs() == old(scope).ctxs(), //@C31
at __vx_start__
  let ghost h0 = scope.heap(); let ghost v0 = value;
at __vx_blk_1__
  let ghost a = array@;
  proof { ax_json_small(array); }
at __vx_let_v8_array__
  let ghost ra = v8_array.jv()->Obj_0; let ghost b1 = h0.dom().insert(ra);
  let ghost mut e = js_holes(a.len() as int);
at __vx_loop_0__
  invariant
    v0 == Some(Value::Array(array)), a == array@, a.len() < 0x8000_0000, vx_it1@ == Seq::new(a.len(), |i: int| (i as usize, a[i])).skip(a.len() - vx_it1@.len()), vx_it1@.len() <= a.len(),
    scope.ctx() == old(scope).ctx(), scope.ctxs() == old(scope).ctxs(), heap_ext(h0, scope.heap()), h0 == old(scope).heap(),
    v8_array.jv() == JVal::Obj(ra), !h0.contains_key(ra), scope.heap().contains_key(ra), scope.heap()[ra] == JObj::Arr(e), e.len() == a.len(), b1 == h0.dom().insert(ra),
    shows_upto(scope.heap(), b1, e, a, a.len() - vx_it1@.len()),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = a.len() - vx_it1@.len() - 1; let ghost h1 = scope.heap();
  proof { assert(vx_x2 == (k as usize, a[k])); assert(decreases_to!(v0->0 => a[k])); }
at __vx_let_v8_value__
  let ghost h2 = scope.heap(); let ghost e0 = e;
  proof { assert(h1.contains_key(ra)); e = arr_put(e0, k, v8_value.jv()); }
at __vx_bend_0__
  proof {
    let h3 = scope.heap();
    assert(h3 == h2.insert(ra, JObj::Arr(e)));
    assert(b1.subset_of(h1.dom()));
    lemma_upto_frame(h1, h3, b1, b1, e0, a, k);
    lemma_shows_frame(h2, h3, h1.dom(), b1, v8_value.jv(), a[k]);
    assert forall|i: int| #![trigger e[i]] #![trigger a[i]] 0 <= i < k + 1 implies shows(h3, b1, e[i], a[i]) by { if i < k { assert(e[i] == e0[i]); } }
  }
at __vx_post_0__
  proof { lemma_upto_frame(scope.heap(), scope.heap(), b1, h0.dom(), e, a, a.len() as int); }
at __vx_blk_3__
  let ghost o = object@;
at __vx_let_v8_object__
  let ghost ro = v8_object.jv()->Obj_0; let ghost b2 = h0.dom().insert(ro);
  let ghost mut m = IMap::<Seq<char>, JVal>::empty();
  proof { assert(o.take(0) =~= Seq::empty()); assert forall|k: Seq<char>| #[trigger] m.contains_key(k) == has_key(o.take(0), k) by { } }
at __vx_loop_1__
  invariant
    v0 == Some(Value::Object(object)), o == object@, vx_it3@ == o.skip(o.len() - vx_it3@.len()), vx_it3@.len() <= o.len(),
    scope.ctx() == old(scope).ctx(), scope.ctxs() == old(scope).ctxs(), heap_ext(h0, scope.heap()), h0 == old(scope).heap(),
    v8_object.jv() == JVal::Obj(ro), !h0.contains_key(ro), scope.heap().contains_key(ro), scope.heap()[ro] == JObj::Plain(m), b2 == h0.dom().insert(ro),
    has_members(scope.heap(), b2, m, o.take(o.len() - vx_it3@.len())),
  decreases vx_it3@.len()
at __vx_body_1__
  let ghost k = o.len() - vx_it3@.len() - 1; let ghost h1 = scope.heap();
  proof { assert(vx_x4 == o[k]); assert(decreases_to!(v0->0 => o[k].1)); }
at __vx_let_v8_value__#2
  let ghost h2 = scope.heap(); let ghost m0 = m;
  proof { assert(h1.contains_key(ro)); m = m0.insert(o[k].0@, v8_value.jv()); }
at __vx_bend_1__
  proof {
    let h3 = scope.heap();
    assert(h3 == h2.insert(ro, JObj::Plain(m)));
    assert(b2.subset_of(h1.dom()));
    lemma_members_frame(h1, h3, b2, b2, m0, o.take(k));
    lemma_shows_frame(h2, h3, h1.dom(), b2, v8_value.jv(), o[k].1);
    lemma_members_step(h3, b2, m0, o, k, v8_value.jv());
  }
at __vx_post_1__
  proof { assert(o.take(o.len() as int) =~= o); lemma_members_frame(scope.heap(), scope.heap(), b2, h0.dom(), m, o); }
end
fn bin::plugins::js::json::js_to_json
props C31
attr exec_allows_no_decreases_clause
ret r
ensures
  value.jv() is Undef ==> r is None && js_same(*old(scope), *final(scope)), //@C31
  shown(old(scope).heap(), value.jv()) ==> r is Some && shows(final(scope).heap(), ISet::empty(), value.jv(), r->0) && json_clean(r->0), //@C31
  shown(old(scope).heap(), value.jv()) ==> heap_ext(old(scope).heap(), final(scope).heap()) && final(scope).ctxs() == old(scope).ctxs(), //@C31
  js_any(*old(scope), *final(scope)), //@C31
at __vx_start__
  proof { assert forall|p: Seq<V8Local<'a, V8Object>>| p.len() == 0 implies #[trigger] js_trail(scope.heap(), p, value.jv()) by { } }
end
fn bin::plugins::js::json::js_to_json_within
props C31
attr exec_allows_no_decreases_clause
ret r
ensures
  value.jv() is Undef ==> r is None && js_same(*old(scope), *final(scope)), //@C31
  shown(old(scope).heap(), value.jv()) && js_trail(old(scope).heap(), parents@, value.jv()) ==> r is Some && shows(final(scope).heap(), ISet::empty(), value.jv(), r->0) && json_clean(r->0), //@C31
  shown(old(scope).heap(), value.jv()) && js_trail(old(scope).heap(), parents@, value.jv()) ==> heap_ext(old(scope).heap(), final(scope).heap()) && final(scope).ctxs() == old(scope).ctxs(), //@C31
  js_any(*old(scope), *final(scope)), //@C31
at __vx_start__
  let ghost h0 = scope.heap(); let ghost ok = shown(h0, value.jv()) && js_trail(h0, parents@, value.jv()); let ghost p0 = parents@; let ghost j0 = value.jv(); let ghost r0 = j0->Obj_0; let ghost el = ISet::<int>::empty();
  proof { ax_arrs(scope); value.ax_local(); if ok { lemma_not_within(h0, p0, j0); } }
at __vx_loop_0__
  invariant
    js_any(*old(scope), *scope), h0 == old(scope).heap(), ok == (shown(h0, j0) && js_trail(h0, p0, j0)), parents@ == p0.push(v8_array), j0 == JVal::Obj(r0), v8_array.jv() == j0, el == ISet::<int>::empty(),
    vx_it1@ == Seq::new(length as nat, |i: int| i as u32).skip(length - vx_it1@.len()), vx_it1@.len() <= length, array@.len() == length - vx_it1@.len(),
    ok ==> heap_ext(h0, scope.heap()) && scope.ctxs() == old(scope).ctxs() && h0.contains_key(r0) && h0[r0] is Arr && length == h0[r0]->Arr_0.len() && shows_upto(scope.heap(), el, h0[r0]->Arr_0, array@, length - vx_it1@.len()) && (forall|i: int| #![trigger array@[i]] 0 <= i < array@.len() ==> json_clean(array@[i])),
at __vx_blk_8__
  let ghost k = length - vx_it1@.len() - 1; let ghost h1 = scope.heap(); let ghost a0 = array@;
  proof { assert(i == k); if ok { lemma_shown_elem(h0, j0, r0, k); lemma_shown_frame(h0, h1, h0[r0]->Arr_0[k]); assert(js_child(h0, j0, h0[r0]->Arr_0[k])); lemma_trail_push(h0, h1, p0, v8_array, h0[r0]->Arr_0[k]); } }
at __vx_bend_0__
  proof {
    if ok {
      let e = h0[r0]->Arr_0; let h2 = scope.heap();
      lemma_upto_frame(h1, h2, el, el, e, a0, k);
      assert forall|i: int| #![trigger e[i]] #![trigger array@[i]] 0 <= i < k + 1 implies shows(h2, el, e[i], array@[i]) by { if i < k { assert(array@[i] == a0[i]); } }
    }
  }
at __vx_ret_6__
  proof { if ok { assert(scope.heap().contains_key(r0)); } }
at __vx_let_keys__
  let ghost kr = keys.jv()->Obj_0; let ghost names = keys.arr(scope.heap())->0; let ghost m = h0[r0]->Plain_0;
at __vx_loop_1__
  invariant
    js_any(*old(scope), *scope), h0 == old(scope).heap(), ok == (shown(h0, j0) && js_trail(h0, p0, j0)), parents@ == p0.push(v8_object), j0 == JVal::Obj(r0), v8_object.jv() == j0, el == ISet::<int>::empty(),
    keys.jv() == JVal::Obj(kr), native_only(kr), scope.heap().contains_key(kr), scope.heap()[kr] == JObj::Arr(names), names_list(names), length == names.len(),
    vx_it3@ == Seq::new(length as nat, |i: int| i as u32).skip(length - vx_it3@.len()), vx_it3@.len() <= length,
    ok ==> heap_ext(h0, scope.heap()) && scope.ctxs() == old(scope).ctxs() && h0.contains_key(r0) && h0[r0] == JObj::Plain(m) && names_of(names, m) && members_upto(scope.heap(), m, names, object@, length - vx_it3@.len()),
at __vx_blk_11__
  let ghost k = length - vx_it3@.len() - 1; let ghost h1 = scope.heap(); let ghost o0 = object@;
  proof { assert(i == k); assert(key_of(names[k]) is Some); if ok { let x = key_of(names[k])->0; assert(m.contains_key(x)); lemma_shown_member(h0, j0, r0, x); lemma_shown_frame(h0, h1, m[x]); assert(js_child(h0, j0, m[x])); lemma_trail_push(h0, h1, p0, v8_object, m[x]); } }
at __vx_bend_1__
  proof {
    if ok {
      let h2 = scope.heap();
      assert forall|i: int| #![trigger names[i]] #![trigger object@[i]] 0 <= i < k + 1 implies object@[i].0@ == key_of(names[i])->0 && shows(h2, el, m[object@[i].0@], object@[i].1) && json_clean(object@[i].1) by {
        if i < k { assert(object@[i] == o0[i]); lemma_shows_frame(h1, h2, el, el, m[o0[i].0@], o0[i].1); }
      }
    }
  }
at __vx_ret_8__
  proof { if ok { assert(scope.heap().contains_key(r0)); lemma_members_done(scope.heap(), m, names, object@); } }
end
fn bin::plugins::js::load_js_plugin
props C25 C31
ensures
  js_gives(path.pv(), match r { Ok(x) => Some(x), Err(_) => None }), //@C25 C31
at __vx_clo_0__
  |vx_c0_0: V8Local<'static, V8Context>, vx_c0_1: V8Local<'static, V8String>, vx_c0_2: V8Local<'static, V8FixedArray>, vx_c0_3: V8Local<'static, V8Module>| -> (r: Option<V8Local<'static, V8Module>>)
at __vx_let_isolate__
  let ghost before = isolate.ctxs();
at __vx_let_name_version_functions__
  let ghost c = global_context.jv()->Ctx_0;
at __vx_loop_0__
  invariant
    global_context.jv() is Ctx, !before.contains(global_context.jv()->Ctx_0), vx_it2@.len() <= length,
  decreases vx_it2@.len()
at __vx_loop_1__
  invariant
    global_context.jv() == JVal::Ctx(c),
    parsers_in(function_parsers, c),
  decreases vx_it4@.len()
end
fn bin::plugins::js::JSFunctionParser#FunctionParser::name
props C31
ensures
  r@ == self.name@, //@C31
end
fn bin::plugins::js::JSFunctionParser#FunctionParser::parse
props C31
ensures
  r is Ok, //@C31
  exists|f: JSFunction| *(r->Ok_0) == VxDynFunction::Plugin(js_function(f)) && f.name@ == self.name@ && f.context.jv() == self.context.jv() && f.args@ == raw.positional_args@, //@C31
end
fn bin::plugins::js::JSFunction#Function::name
props C31
ensures
  r@ == self.name@, //@C31
end
fn bin::plugins::js::JSFunction#Function::execute
props C31
requires
  scope_ok(*old(stuart_scope)), self.context.jv() is Ctx,
  forall|h: JHeap| #[trigger] js_member(h, glob(self.context.jv()->Ctx_0), "_stuart_"@ + self.name@) is Some && js_callable(js_member(h, glob(self.context.jv()->Ctx_0), "_stuart_"@ + self.name@)->0),
ensures
  keeps(*old(stuart_scope), *final(stuart_scope)), //@C31
  r is Err ==> st(*final(stuart_scope)) == st(*old(stuart_scope)) && exists|i: int| 0 <= i < self.args@.len() && js_arg_bad(#[trigger] self.args@[i], st(*old(stuart_scope)).stack), //@C31
  r is Ok ==> js_ran(*self, st(*old(stuart_scope)), st(*final(stuart_scope))), //@C31
at __vx_let_scope__
  let ghost g = glob(self.context.jv()->Ctx_0); let ghost b = ISet::<int>::empty().insert(g); let ghost s0 = st(*stuart_scope); let ghost c = self.context.jv()->Ctx_0; let ghost a = self.args@;
at __vx_loop_0__
  invariant
    vx_it1@ == refs(a).skip(a.len() - vx_it1@.len()), vx_it1@.len() <= a.len(), a == self.args@,
    st(*stuart_scope) == s0, *stuart_scope == *old(stuart_scope), scope.ctx() == c, scope.heap().contains_key(g), b == ISet::<int>::empty().insert(g),
    vx_err0 is None ==> vx_out0@.len() == a.len() - vx_it1@.len() && js_args_ok(scope.heap(), b, vx_out0@, a, s0.stack),
    vx_err0 is Some ==> exists|i: int| 0 <= i < a.len() && js_arg_bad(#[trigger] a[i], s0.stack),
  decreases vx_it1@.len()
at __vx_body_0__
  let ghost k = a.len() - vx_it1@.len() - 1; let ghost h1 = scope.heap(); let ghost l0 = vx_out0@;
  proof { assert(vx_x2 == a[k]); assert(vx_it1@ =~= refs(a).skip(k + 1)); }
at __vx_bend_0__
  proof { if vx_err0 is None {
    lemma_js_args_frame(h1, scope.heap(), b, l0, a, s0.stack);
    assert(vx_out0@.drop_last() =~= l0); assert(vx_out0@.len() == k + 1);
    assert(js_arg_ok(scope.heap(), b, vx_out0@[k].jv(), a[k], s0.stack)) by {
      if a[k] is Variable { let v = var(s0.stack, a[k]->Variable_0@)->0; lemma_shows_frame(scope.heap(), scope.heap(), h1.dom(), b, vx_out0@[k].jv(), v); } }
    assert forall|i: int| #![trigger vx_out0@[i]] #![trigger a[i]] 0 <= i < vx_out0@.len() implies js_arg_ok(scope.heap(), b, vx_out0@[i].jv(), a[i], s0.stack) by { if i < k { assert(vx_out0@[i] == l0[i]); assert(js_arg_ok(scope.heap(), b, l0[i].jv(), a[i], s0.stack)); } }
  } }
at __vx_let_function__
  let ghost h2 = scope.heap(); let ghost l2 = evaluated_args@;
at __vx_aft_set_stuart_context_0__
  let ghost v = *scope; let ghost x = st(*stuart_scope); let ghost args = jvs(l2); let ghost mut w = v; let ghost mut out: Option<JVal> = None;
  proof { lemma_js_args_frame2(h2, v.heap(), b, l2, a, s0.stack); }
at __vx_blk_2__
  proof { out = Some(result.jv()); w = *scope; }
at __vx_tail_1__
  proof { assert(js_ran_as(*self, s0, st(*stuart_scope), v, w, x, h2, args, out)); }
end
# STUART.set and STUART.get. The scope they work on is behind a raw pointer, so that what they do to it is asserted within.
fn bin::plugins::js::context::set_variable
props C31
at __vx_let_stuart_scope__
  let ghost s0 = st(*stuart_scope); let ghost h0 = scope.heap(); let ghost ok = args.arg(0) is Str && shown(h0, args.arg(1));
at __vx_ret_0__
  proof { assert(!ok && st(*stuart_scope) == s0); } //@C31
at __vx_aft_if_0__
  let ghost v = json_value->0; let ghost k = key@;
at __vx_aft_add_variable_0__
  proof { if ok { let s1 = st(*stuart_scope); assert(s1.stack.drop_last() =~= s0.stack.drop_last()); assert(k == args.arg(0)->Str_0); assert(s1.stack.last() == frame_with(s0.stack.last(), k, v)); assert(js_sets(s0, s1)); assert(js_defined(scope.heap(), s0, st(*stuart_scope), args.arg(0)->Str_0, args.arg(1))); } } //@C31
end
fn bin::plugins::js::context::get_variable
props C31
at __vx_let_stuart_scope__
  let ghost s0 = st(*stuart_scope); let ghost h0 = scope.heap();
at __vx_aft_set_0__
  proof { //@C31
    if args.arg(0) is Str { //@C31
      let v = var(s0.stack, args.arg(0)->Str_0); //@C31
      assert(match v { Some(x) => shows(scope.heap(), h0.dom(), ret.jv(), x), None => ret.jv() is Undef }); //@C31
      assert(heap_ext(h0, scope.heap()) && st(*stuart_scope) == s0); //@C31
    } //@C31
  } //@C31
end
