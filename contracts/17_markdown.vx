# ---- front matter
fn core::parse::markdown::parse_markdown
props C22
attr rlimit(40)
requires
  text_ok(input@)
ensures
  r is Ok == md_parse(input@, *path, plugins) is Ok, //@C22
  r is Ok ==> r->Ok_0.frontmatter@ == md_parse(input@, *path, plugins)->Ok_0, //@C22
  r is Ok ==> r->Ok_0.markdown@ == md_parse(input@, *path, plugins)->Ok_1, //@C22
  r is Ok ==> r->Ok_0.markdown_string@ == md_parse(input@, *path, plugins)->Ok_2 && r->Ok_0.html is None, //@C22
  r is Err ==> err_is(r->Err_0, md_parse(input@, *path, plugins)->Err_0) && r->Err_0.path == *path, //@C22
at __vx_start__
  let ghost s = input@; let ghost ls = lines(s); let ghost whole = fm_of(s);
  proof { lemma_total_lines(s); }
at __vx_blk_1__
  proof { lemma_first_dashes(s); }
at __vx_let_frontmatter__
  proof { assert(frontmatter@ =~= Seq::<(String, String)>::empty()); }
at __vx_pre_0__
  let ghost all = vx_it1@;
at __vx_loop_0__
  invariant_except_break
    dashed_lines == 0 ==> vx_it1@.len() == all.len() && frontmatter@ == Seq::<(String, String)>::empty(),
    dashed_lines == 1 ==> fm_scan(ls, all.len() - vx_it1@.len(), frontmatter@) == whole,
    dashed_lines <= 1, 
  invariant
    s == input@, ls == lines(s), all.len() == ls.len(), ls.len() <= s.len(), text_ok(s), whole == fm_scan(ls, 1, Seq::empty()), ls.len() > 0, is_prefix("---"@, ls[0]),
    0 <= vx_it1@.len() <= all.len(), vx_it1@ == all.skip(all.len() - vx_it1@.len()),
    forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]).0 == k && all[k].1@ == ls[k],
  ensures
    dashed_lines == 2 ==> whole == Ok::<(int, Seq<(String, String)>), int>((lines_to_skip as int, frontmatter@)) && 0 <= lines_to_skip <= ls.len(),
    dashed_lines != 2 ==> whole == Err::<(int, Seq<(String, String)>), int>(ls.len() as int),
  decreases vx_it1@.len()
at __vx_clo_0__
  || -> (r: TracebackError<ParseError>) ensures r.path == *path, r.line == i + 1, r.column == 0
at __vx_body_0__
  let ghost j = all.len() - vx_it1@.len() - 1; let ghost fm0 = frontmatter@;
  proof { assert(vx_x2 == all[j]); assert(vx_it1@ =~= all.skip(j + 1)); }
at __vx_let_parts__
  let ghost l = ls[j];
  proof { lemma_fm_quoted(trim(l.skip(find_str(seq![':'], l) + 1))); lemma_splitn2(l); assert(str_seq(parts@) == splitn_pat(l, seq![':'], 2)); assert(line@ == l); }
at __vx_let_value__
  proof { assert(fm_entry(l) == Some((key, value))); }
at __vx_let_lines_to_skip_frontmatter__
  proof { assert(fm_of(s) == Ok::<(int, Seq<(String, String)>), int>((lines_to_skip as int, frontmatter@))); lemma_body_len(s, lines_to_skip as int); }
end
