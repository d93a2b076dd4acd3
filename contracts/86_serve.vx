# the development server (C26)

fn bin::serve::serve_dir
props C26
ensures
  answer(located(state.path@, asked(request.uri@)), r), //@C26
at __vx_let_uri_without_route__
  proof { lemma_slash(request.uri@); assert(uri_without_route@ =~= asked(request.uri@)); }
at __vx_pre_0__
  let ghost ws = vx_it1@;
  proof { assert(slices(ws) == windows_of(buf@, 7)); assert(slices(ws).len() == ws.len()); }
at __vx_loop_0__
  invariant_except_break
    vx_pos0 <= ws.len(),
    vx_it1@ =~= ws.skip(vx_pos0 as int),
    body_end_from(buf@, 0) == body_end_from(buf@, vx_pos0 as int),
    vx_out0 is None,
  invariant
    slices(ws) == windows_of(buf@, 7),
    ws.len() == slices(ws).len(),
    ws.len() <= buf@.len(), ws.len() <= usize::MAX,
  ensures
    vx_out0 is Some == body_end_from(buf@, 0) is Some,
    vx_out0 is Some ==> vx_out0->0 == body_end_from(buf@, 0)->0 && vx_out0->0 <= buf@.len(),
  decreases vx_it1@.len(),
at __vx_body_0__
  proof { assert(vx_x2@ == slices(ws)[vx_pos0 as int]); assert(vx_x2@ == buf@.subrange(vx_pos0 as int, vx_pos0 + 7)); assert(vx_it1@ =~= ws.skip(vx_pos0 + 1)); }
end

fn bin::serve::error_handler
props C29 C30
end

# notifying the clients after a rebuild (C30): what holds of the list of clients whenever its mutex is held
fn bin::serve::build_watcher
props C30 C35
attr exec_allows_no_decreases_clause
requires
  forall|w: VxWorld| #[trigger] roots_ok(ctx, w), plugin_objects(),
  named(ctx.scripts.on_pre_build@), named(ctx.scripts.on_post_build@),
  forall|e: RawEvent| #[trigger] watched(e) ==> e.path is Some && path_strip(e.path->0@, path@) is Some,
ensures
  false, //@C30
at __vx_start__
  let ghost c0 = ctx;
at __vx_loop_0__
  invariant
    forall|w: VxWorld| #[trigger] roots_ok(ctx, w), plugin_objects(),
    named(ctx.scripts.on_pre_build@), named(ctx.scripts.on_post_build@),
    forall|e: RawEvent| #[trigger] watched(e) ==> e.path is Some && path_strip(e.path->0@, path@) is Some,
at __vx_let_p__
  let ghost gp = path_strip(e.path->0@, path@)->0;
at __vx_blk_3__
  proof { assert(no_source(gp)); } //@C30
at __vx_blk_4__
  proof { assert(no_source(gp)); } //@C30
at __vx_aft_if_1__
  let ghost mut answered = false;
  let ghost c1 = ctx;
  proof { assert(roots_ok(c1, *vx_w)); }
at __vx_aft_error_handler_0__
  proof { answered = true; }
at __vx_let_streams__
  let ghost s0 = streams@;
at __vx_loop_1__
  invariant
    vx_i1 <= streams@.len(), streams@.len() == s0.len(), streams@.len() <= usize::MAX,
    all_told(s0, streams@, vx_i1 as int), to_drop(streams@, vx_i1 as int, to_remove@),
  decreases streams@.len() - vx_i1
at __vx_body_1__
  let ghost s1 = streams@; let ghost d1 = to_remove@;
at __vx_bend_1__
  proof { lemma_told(s0, s1, streams@, d1, to_remove@, vx_i1 - 1); }
at __vx_aft_loop_0__
  let ghost mid = streams@; let ghost gone = to_remove@;
at __vx_pre_2__
  proof { assert(vx_it2@ =~= vx_it2@.take(vx_it2@.len() as int)); lemma_none_gone(mid, gone); }
at __vx_loop_2__
  invariant
    to_drop(mid, mid.len() as int, gone), vx_it2@.len() <= gone.len(), gone == to_remove@,
    vx_it2@ == refs(gone).reverse().skip(gone.len() - vx_it2@.len()),
    some_gone(mid, gone, vx_it2@.len() as int, streams@),
  decreases vx_it2@.len()
at __vx_body_2__
  let ghost s2 = streams@; let ghost k = vx_it2@.len() as int;
  proof { assert(*vx_x3 == gone[k]); lemma_one_gone(mid, gone, k, s2); }
at __vx_bend_2__
  proof { assert(vx_it2@ =~= refs(gone).reverse().skip(gone.len() - vx_it2@.len())); }
at __vx_post_2__
  proof { lemma_all_gone(mid, gone, streams@); assert(notified(s0, streams@)); answered = true; }
at __vx_aft_if_2__
  proof {
    assert(answered); //@C30
    assert forall|w: VxWorld| #[trigger] roots_ok(ctx, w) by { assert(roots_ok(c1, w)); }
  }
end
