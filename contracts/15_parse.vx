# ---- templates: variables, functions, the whole text

fn core::parse::parse_variable
props C02 C03 C04
requires
  fits2(ps(*old(parser)))
ensures
  final(parser).path == old(parser).path,
  r is Ok == lex_var(ps(*old(parser))) is Ok, //@C04
  r is Ok ==> r->Ok_0 == lex_var(ps(*old(parser)))->Ok_0, //@C04
  r is Ok ==> ps(*final(parser)) == lex_var(ps(*old(parser)))->Ok_1 && fits2(ps(*final(parser))) && ps(*final(parser)).rest.len() < ps(*old(parser)).rest.len(), //@C03
  r is Err ==> err_is(r->Err_0, lex_var(ps(*old(parser)))->Err_0) && r->Err_0.path == *old(parser).path, //@C03
at __vx_start__
  proof { reveal_strlit("$"); assert("$"@ =~= seq!['$']); lemma_expect_ps(ps(*parser), seq!['$'], 0); lemma_fits2(ps(*parser)); }
at __vx_aft_expect_0__
  proof { lemma_run_ps(ps(*parser), 2); lemma_fits2(ps(*parser)); }
at __vx_let_variable_name__
  proof { assert(variable_name@.len() == 0 ==> variable_name@ =~= Seq::<char>::empty()); }
end

fn core::parse::parse_function
props C02 C03 C04 C27
attr rlimit(40)
attr isolate
requires
  fits2(ps(*old(parser)))
ensures
  final(parser).path == old(parser).path,
  r is Ok == lex_fn(ps(*old(parser)), plugins) is Ok, //@C04
  r is Ok ==> r->Ok_0 == lex_fn(ps(*old(parser)), plugins)->Ok_0, //@C04
  r is Ok ==> ps(*final(parser)) == lex_fn(ps(*old(parser)), plugins)->Ok_1 && fits2(ps(*final(parser))) && ps(*final(parser)).rest.len() < ps(*old(parser)).rest.len(), //@C03
  r is Err ==> err_is(r->Err_0, lex_fn(ps(*old(parser)), plugins)->Err_0) && r->Err_0.path == *old(parser).path, //@C03
at __vx_start__
  let ghost p = ps(*parser); let ghost plugins0 = plugins;
  proof { reveal_strlit("("); assert("("@ =~= seq!['(']); lemma_run_ps(p, 1); lemma_fits2(p); }
at __vx_aft_if_0__
  proof { lemma_fits2(ps(*parser)); lemma_run_ps(ps(*parser), 0); }
at __vx_aft_ignore_while_0__
  proof { lemma_fits2(ps(*parser)); lemma_expect_ps(ps(*parser), seq!['('], 0); }
at __vx_let_named_args__
  let ghost q0 = ps(*parser);
  proof { assert(positional_args@ =~= Seq::empty()); assert(named_args@ =~= Seq::empty()); }
  let ghost whole = lex_args(q0, Seq::empty(), Seq::empty());
at __vx_loop_0__
  invariant_except_break
    lex_args(ps(*parser), positional_args@, named_args@) == whole,
  invariant
    parser.path == old(parser).path, p == ps(*old(parser)), fits2(p), line as int == p.loc.line, column as int == p.loc.col, function_name@ == run_text(p.rest, 1), function_name@.len() > 0,
    whole == lex_args(q0, Seq::empty(), Seq::empty()), expect_ps(run_ps(run_ps(p, 1), 0), seq!['('], 0) == Ok::<PS, LexErr>(q0),
    fits2(ps(*parser)), ps(*parser).rest.len() <= q0.rest.len() < p.rest.len(),
  ensures whole == ArgsRes::Ok(positional_args@, named_args@, ps(*parser)), fits2(ps(*parser)), ps(*parser).rest.len() <= q0.rest.len(),
  decreases ps(*parser).rest.len()
at __vx_body_0__
  let ghost b = ps(*parser); let ghost pos = positional_args@; let ghost nam = named_args@;
  proof { lemma_fits2(b); lemma_run_ps(b, 0); }
at __vx_let_open_quote__
  let ghost b1 = ps(*parser);
  proof { lemma_fits2(b1); lemma_arg_ps(b1, false); }
at __vx_let_arg__
  let ghost b2 = ps(*parser);
  proof {
    lemma_fits2(b2); lemma_occurs_char(arg@, '='); lemma_find_from_char('=', arg@, 0);
    assert(arg@ == trim(arg_text(b1.rest, false)));
  }
at __vx_let_parts__
  let ghost ei = index_of_char(arg@, '=');
  proof { reveal_with_fuel(splitn_pat, 3); assert(str_seq(parts@).len() == 2); assert(str_seq(parts@)[0] == arg@.take(ei)); assert(str_seq(parts@)[1] == arg@.skip(ei + 1)); }
at __vx_pre_1__
  let ghost mut k: int = 0;
at __vx_loop_1__
  invariant_except_break vx_out1,
  invariant
    0 <= k <= name@.len(), vx_it2@ == name@.skip(k),
    vx_out1 ==> (forall|i: int| 0 <= i < k ==> char_alnum(#[trigger] name@[i]) || name@[i] == '_'),
  ensures vx_out1 == arg_name_ok(name@),
  decreases vx_it2@.len()
at __vx_body_1__
  proof { assert(name@.skip(k).skip(1) =~= name@.skip(k + 1)); assert(vx_x3 == name@[k]); k = k + 1; }
at __vx_aft_if_3__
  proof {
    assert(whole == lex_args_sep(b, ps(*parser), positional_args@, named_args@));
    if ps(*parser).rest.len() > 0 { lemma_step(ps(*parser)); }
  }
at __vx_aft_loop_0__
  let ghost p3 = ps(*parser);
  proof { lemma_fits2(p3); lemma_run_ps(p3, 0); }
at __vx_let_raw_function__
  let ghost p4 = ps(*parser);
  let ghost raw0 = raw_function;
  let ghost t = parsers_table();
  proof {
    ax_table(); lemma_table_find(t, raw0.name@);
    assert(raw0 == mkraw(run_text(p.rest, 1), positional_args@, named_args@));
    assert(lex_fn(p, plugins) == resolve(raw0, plugins, p.loc, p4));
  }
at __vx_pre_2__
  let ghost mut k: int = 0;
at __vx_loop_2__
  invariant
    parser.path == old(parser).path, p == ps(*old(parser)), fits2(p), line as int == p.loc.line, column as int == p.loc.col, function_name@ == run_text(p.rest, 1), function_name@.len() > 0,
    fits2(p4), p4.rest.len() < p.rest.len(), lex_fn(p, plugins) == resolve(raw0, plugins, p.loc, p4), raw0.name@ == function_name@, t == parsers_table(), table_ok(t),
    builtin(raw0.name@) is None ==> (forall|k: int| 0 <= k < t.len() ==> fp_name(*#[trigger] t[k]) != raw0.name@),
    forall|k: int| 0 <= k < t.len() && fp_name(*#[trigger] t[k]) == raw0.name@ ==> builtin(raw0.name@) == Some(*t[k]),
    0 <= k <= t.len(), vx_it6@ == refs(t).skip(k), raw_function == raw0, ps(*parser) == p4, parser.path == old(parser).path,
    forall|i: int| 0 <= i < k ==> fp_name(*#[trigger] t[i]) != raw0.name@,
  ensures k == t.len(),
  decreases vx_it6@.len()
at __vx_body_2__
  proof { assert(*refs(t)[k] == t[k]); assert(refs(t).skip(k).skip(1) =~= refs(t).skip(k + 1)); k = k + 1; }
at __vx_aft_loop_1__
  proof { assert(builtin(raw0.name@) is None); }
at __vx_pre_3__
  let ghost mut k: int = 0;
  let ghost pl = plugins_seq(*plugins);
  let ghost found = plugin_fn_from(pl, raw0.name@);
  proof { assert(pl.skip(0) =~= pl); assert(refs(pl).skip(0) =~= refs(pl)); }
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
at __vx_loop_3__
  invariant
    parser.path == old(parser).path, p == ps(*old(parser)), fits2(p), line as int == p.loc.line, column as int == p.loc.col, function_name@ == run_text(p.rest, 1), function_name@.len() > 0,
    fits2(p4), p4.rest.len() < p.rest.len(), lex_fn(p, plugins0) == resolve(raw0, plugins0, p.loc, p4), raw0.name@ == function_name@, builtin(raw0.name@) is None, plugins0 == Some(plugins), pl == plugins_seq(*plugins), found == plugin_fn(plugins0, raw0.name@),
    0 <= k <= pl.len(), vx_it9@ == refs(pl).skip(k), raw_function == raw0, ps(*parser) == p4, parser.path == old(parser).path,
    plugin_fn_from(pl.skip(k), raw0.name@) == found,
  ensures found is None,
  decreases vx_it9@.len()
at __vx_body_3__
  let ghost k0 = k;
  proof { assert(*refs(pl)[k] == pl[k]); assert(refs(pl).skip(k).skip(1) =~= refs(pl).skip(k + 1)); assert(pl.skip(k).skip(1) =~= pl.skip(k + 1)); k = k + 1; }
at __vx_pre_4__
  let ghost mut j: int = 0;
  let ghost fs = plugin.functions@;
  proof { assert(fs.skip(0) =~= fs); assert(refs(fs).skip(0) =~= refs(fs)); }
  #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
at __vx_loop_4__
  invariant
    parser.path == old(parser).path, p == ps(*old(parser)), fits2(p), line as int == p.loc.line, column as int == p.loc.col, function_name@ == run_text(p.rest, 1), function_name@.len() > 0,
    fits2(p4), p4.rest.len() < p.rest.len(), lex_fn(p, plugins0) == resolve(raw0, plugins0, p.loc, p4), raw0.name@ == function_name@, builtin(raw0.name@) is None, plugins0 == Some(plugins), pl == plugins_seq(*plugins), found == plugin_fn(plugins0, raw0.name@),
    0 <= j <= fs.len(), vx_it11@ == refs(fs).skip(j), raw_function == raw0, ps(*parser) == p4, parser.path == old(parser).path,
    found == (match plugin_fn_in(plugin.name@, fs.skip(j), raw0.name@) { Some(f) => Some(f), None => plugin_fn_from(pl.skip(k), raw0.name@) }),
  ensures found == plugin_fn_from(pl.skip(k), raw0.name@),
  decreases vx_it11@.len()
at __vx_body_4__
  proof {
    assert(*refs(fs)[j] == fs[j]); assert(refs(fs).skip(j).skip(1) =~= refs(fs).skip(j + 1)); assert(fs.skip(j).skip(1) =~= fs.skip(j + 1)); j = j + 1;
    reveal_strlit("::"); assert("::"@ =~= colons());
  }
end

fn core::parse::parse_html
props C01 C02 C03 C04
attr isolate
attr rlimit(30)
requires
  text_ok(input@)
ensures
  r is Ok == lex_text(input@, *path, plugins) is Ok, //@C01
  r is Ok ==> (r->Ok_0)@ == lex_text(input@, *path, plugins)->Ok_0, //@C01
  r is Err ==> err_is(r->Err_0, lex_text(input@, *path, plugins)->Err_0) && r->Err_0.path == *path, //@C03
at __vx_start__
  let ghost whole = lex_text(input@, *path, plugins);
at __vx_let_tokens__
  proof {
    assert(tokens@ =~= Seq::<LocatableToken>::empty());
    reveal_strlit("{{"); assert("{{"@ =~= brace2()); reveal_strlit("}}"); assert("}}"@ =~= seq!['}', '}']);
    reveal_strlit("\\{{");
  }
at __vx_loop_0__
  invariant_except_break fits2(ps(parser)), lex(ps(parser), tokens@, line as int, column as int, *path, plugins) == whole,
  invariant
    whole == lex_text(input@, *path, plugins), "{{"@ == brace2(), "}}"@ == seq!['}', '}'],
    *parser.path == *path,
    line as int >= 0, column as int >= 0,
  ensures
    *parser.path == *path, fits(ps(parser)),
    whole == LexRes::Ok(push_raw(tokens@, replace(ps(parser).rest, "\\{{"@, "{{"@), *path, line as int, column as int)),
  decreases ps(parser).rest.len()
at __vx_body_0__
  let ghost p = ps(parser); let ghost acc = tokens@;
  proof { lemma_fits2(p); lemma_adv(p, p.rest.len() as int); if open_from(p.rest, 0) >= 0 { lemma_open_from_range(p.rest, 0); lemma_adv(p, open_from(p.rest, 0) + 2); } }
at __vx_blk_1__
  proof { lemma_fits2(ps(parser)); lemma_run_ps(ps(parser), 0); }
at __vx_aft_assign_0__
  let ghost p1 = ps(parser); let ghost acc1 = tokens@;
  proof { assert(acc1 == push_raw(acc, raw_before(p.rest, open_from(p.rest, 0)), *path, line0, column0)); }
at __vx_aft_if_0__
  let ghost line0 = line as int; let ghost column0 = column as int;
at __vx_let_token__
  proof { lemma_fits2(ps(parser)); lemma_run_ps(ps(parser), 0); }
at __vx_aft_ignore_while_1__
  proof { lemma_fits2(ps(parser)); lemma_expect_ps(ps(parser), seq!['}', '}'], 0); }
end
