# ---- the low-level parser

fn core::parse::parser::Parser::new
props C01 C02 C03
ensures
  ps(r) == start_ps(chars@), r.path == path, //@C03
end

fn core::parse::parser::Parser::traceback
props C02 C03
ensures
  r.path == *self.path && r.line == self.line && r.column == self.column, //@C03
  r.kind == e, //@C02
end

fn core::parse::parser::Parser::location
props C03
ensures
  r.0 == self.line && r.1 == self.column, //@C03
end

fn core::parse::parser::Parser::path
props C03
ensures
  *r == *self.path, //@C03
end

define PATHSAME
  final(self).path == old(self).path, //@C03

fn core::parse::parser::Parser::next
props C01 C02 C03
requires
  fits(ps(*old(self)))
ensures
  use PATHSAME
  ps(*old(self)).rest.len() == 0 ==> r is Err && ps(*final(self)) == ps(*old(self)),
  ps(*old(self)).rest.len() == 0 ==> err_is(r->Err_0, mkerr(ps(*old(self)), ParseError::UnexpectedEOF)) && r->Err_0.path == *old(self).path,
  ps(*old(self)).rest.len() > 0 ==> r is Ok && r->Ok_0 == ps(*old(self)).rest[0] && ps(*final(self)).rest == step(ps(*old(self))).rest,
  ps(*old(self)).rest.len() > 0 ==> ps(*final(self)).loc == step(ps(*old(self))).loc, //@C03
end

fn core::parse::parser::Parser::peek
props C01 C02
ensures
  use PATHSAME
  ps(*final(self)) == ps(*old(self)),
  ps(*old(self)).rest.len() == 0 ==> r is None,
  ps(*old(self)).rest.len() > 0 ==> r == Some(ps(*old(self)).rest[0]),
end

fn core::parse::parser::Parser::expect
props C01 C02 C03
requires
  fits(ps(*old(self)))
ensures
  use PATHSAME
  r is Ok == expect_ps(ps(*old(self)), s@, 0) is Ok, //@C02
  r is Ok ==> ps(*final(self)) == expect_ps(ps(*old(self)), s@, 0)->Ok_0,
  r is Err ==> r->Err_0.path == *old(self).path && err_is(r->Err_0, expect_ps(ps(*old(self)), s@, 0)->Err_0), //@C03
  r is Ok ==> fits(ps(*final(self))) && ps(*final(self)).rest.len() <= ps(*old(self)).rest.len(),
at __vx_pre_0__
  let ghost mut i: int = 0;
at __vx_loop_0__
  invariant
    self.path == old(self).path,
    0 <= i <= s@.len(), vx_it1@ == s@.skip(i), fits(ps(*self)), ps(*self).rest.len() <= ps(*old(self)).rest.len(),
    expect_ps(ps(*old(self)), s@, 0) == expect_ps(ps(*self), s@, i),
  ensures i == s@.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof { assert(s@[i] == vx_x2); if ps(*self).rest.len() > 0 { lemma_adv(ps(*self), 1); } i = i + 1; assert(vx_it1@ =~= s@.skip(i)); }
end

fn core::parse::parser::Parser::extract_until
props C01 C02 C03
requires
  s@ == brace2(), allow_escape,
  fits(ps(*old(self)))
ensures
  use PATHSAME
  r is Some == (open_from(ps(*old(self)).rest, 0) >= 0), //@C01
  r is Some ==> (r->0)@ == raw_before(ps(*old(self)).rest, open_from(ps(*old(self)).rest, 0)), //@C01
  r is Some ==> ps(*final(self)) == adv(ps(*old(self)), open_from(ps(*old(self)).rest, 0) + 2),
  r is Some ==> open_from(ps(*old(self)).rest, 0) + 2 <= ps(*old(self)).rest.len(),
  r is None ==> ps(*final(self)).rest == ps(*old(self)).rest, //@C01
  r is None ==> ps(*final(self)).loc == adv(ps(*old(self)), ps(*old(self)).rest.len() as int).loc,
at __vx_start__
  let ghost p0 = ps(*self);
  let ghost mut n: int = 0;
  proof { assert(p0.rest.take(0) =~= Seq::<char>::empty()); lemma_adv(p0, 0); lemma_utf8_brace(); }
at __vx_loop_0__
  invariant
    p0 == ps(*old(self)), fits(p0), s@ == brace2(), allow_escape, self.path == old(self).path, old_chars@ == p0.rest,
    0 <= n <= p0.rest.len(), ps(*self) == adv(p0, n),
    result@ == unesc(p0.rest.take(n)), utf8(s@).len() == 2,
    forall|k: int| 0 <= k < n - 1 ==> !#[trigger] opens(p0.rest, k),
  decreases p0.rest.len() - n
at __vx_body_0__
  let ghost res0 = result@;
  proof { lemma_adv(p0, n); }
at __vx_tail_2__
  let ghost res1 = result@;
  proof {
    lemma_adv(p0, n + 1);
    assert(res1 == res0.push(p0.rest[n]));
    lemma_until(p0.rest, n, res1);
    n = n + 1;
  }
at __vx_aft_remove_0__
  proof { assert(!opens(p0.rest, n - 2)); }
at __vx_aft_truncate_0__
  proof { assert(open_from(p0.rest, 0) == n - 2); }
at __vx_blk_5__
  proof { assert(n == p0.rest.len()); lemma_open_from(p0.rest, 0, if n >= 1 { n - 1 } else { 0 }); }
end

fn core::parse::parser::Parser::extract_remaining
props C01 C02
requires
  fits(ps(*old(self)))
ensures
  use PATHSAME
  allow_escape ==> r@ == replace(ps(*old(self)).rest, "\\{{"@, "{{"@), //@C01
  !allow_escape ==> r@ == ps(*old(self)).rest, //@C01
at __vx_loop_0__
  invariant
    self.path == old(self).path, fits(ps(*self)),
    result@ + ps(*self).rest == ps(*old(self)).rest,
  ensures ps(*self).rest.len() == 0,
  decreases ps(*self).rest.len()
at __vx_body_0__
  let ghost before = ps(*self); let ghost acc = result@;
at __vx_aft_push_0__
  proof { lemma_adv(before, 1); assert(result@ + ps(*self).rest =~= acc + before.rest); }
at __vx_aft_loop_0__
  proof { assert(result@ =~= ps(*old(self)).rest); }
end

define RUNREQ
  fits(ps(*old(self)))
define RUNENS
  use PATHSAME
  fits2(ps(*old(self))) ==> fits2(ps(*final(self))),
  fits(ps(*final(self))), ps(*final(self)).rest.len() <= ps(*old(self)).rest.len(),

fn core::parse::parser::Parser::ignore_while@*
props C01 C02 C03 C04
requires
  fits(ps(*old(self)))
ensures
  use PATHSAME
  fits2(ps(*old(self))) ==> fits2(ps(*final(self))),
  fits(ps(*final(self))), ps(*final(self)).rest.len() <= ps(*old(self)).rest.len(),
  ps(*final(self)).rest == run_ps(ps(*old(self)), 0).rest,
  ps(*final(self)).loc == run_ps(ps(*old(self)), 0).loc, //@C03
at __vx_start__
  proof { lemma_run_ps(ps(*self), 0); }
at __vx_loop_0__
  invariant
    self.path == old(self).path, fits(ps(*self)),
    run_ps(ps(*self), 0) == run_ps(ps(*old(self)), 0),
  ensures ps(*self) == run_ps(ps(*old(self)), 0),
  decreases ps(*self).rest.len()
at __vx_blk_2__
  let ghost before = ps(*self);
  proof { lemma_adv(before, 1); }
end

fn core::parse::parser::Parser::extract_while@parse::parse_function#0
props C02 C03 C04
requires
  fits(ps(*old(self)))
ensures
  use PATHSAME
  fits2(ps(*old(self))) ==> fits2(ps(*final(self))),
  fits(ps(*final(self))), ps(*final(self)).rest.len() <= ps(*old(self)).rest.len(),
  r@ == run_text(ps(*old(self)).rest, 1), //@C04
  ps(*final(self)) == run_ps(ps(*old(self)), 1),
at __vx_start__
  proof { lemma_run_ps(ps(*self), 1); }
at __vx_loop_0__
  invariant
    self.path == old(self).path, fits(ps(*self)),
    run_ps(ps(*self), 1) == run_ps(ps(*old(self)), 1),
    result@ + run_text(ps(*self).rest, 1) == run_text(ps(*old(self)).rest, 1),
  ensures ps(*self) == run_ps(ps(*old(self)), 1), result@ == run_text(ps(*old(self)).rest, 1),
  decreases ps(*self).rest.len()
at __vx_blk_2__
  let ghost before = ps(*self); let ghost acc = result@;
  proof { lemma_adv(before, 1); }
at __vx_aft_push_0__
  proof { assert(result@ + run_text(ps(*self).rest, 1) =~= acc + run_text(before.rest, 1)); }
at __vx_blk_3__
  proof { assert(result@ =~= result@ + run_text(ps(*self).rest, 1)); }
end

fn core::parse::parser::Parser::extract_while@parse::parse_variable#0
props C02 C03 C05
requires
  fits(ps(*old(self)))
ensures
  use PATHSAME
  fits2(ps(*old(self))) ==> fits2(ps(*final(self))),
  fits(ps(*final(self))), ps(*final(self)).rest.len() <= ps(*old(self)).rest.len(),
  r@ == run_text(ps(*old(self)).rest, 2), //@C04
  ps(*final(self)) == run_ps(ps(*old(self)), 2),
at __vx_start__
  proof { lemma_run_ps(ps(*self), 2); }
at __vx_loop_0__
  invariant
    self.path == old(self).path, fits(ps(*self)),
    run_ps(ps(*self), 2) == run_ps(ps(*old(self)), 2),
    result@ + run_text(ps(*self).rest, 2) == run_text(ps(*old(self)).rest, 2),
  ensures ps(*self) == run_ps(ps(*old(self)), 2), result@ == run_text(ps(*old(self)).rest, 2),
  decreases ps(*self).rest.len()
at __vx_blk_2__
  let ghost before = ps(*self); let ghost acc = result@;
  proof { lemma_adv(before, 1); }
at __vx_aft_push_0__
  proof { assert(result@ + run_text(ps(*self).rest, 2) =~= acc + run_text(before.rest, 2)); }
at __vx_blk_3__
  proof { assert(result@ =~= result@ + run_text(ps(*self).rest, 2)); }
end

fn core::parse::parser::Parser::extract_while@parse::parse_function#3
props C02 C03 C04
requires
  fits(ps(*old(self)))
ensures
  use PATHSAME
  fits2(ps(*old(self))) ==> fits2(ps(*final(self))),
  fits(ps(*final(self))), ps(*final(self)).rest.len() <= ps(*old(self)).rest.len(),
  r@ == arg_text(ps(*old(self)).rest, *old(open_quote)), //@C04
  ps(*final(self)) == arg_ps(ps(*old(self)), *old(open_quote)),
at __vx_start__
  proof { lemma_arg_ps(ps(*self), *open_quote); }
at __vx_loop_0__
  invariant
    self.path == old(self).path, fits(ps(*self)),
    arg_ps(ps(*self), *open_quote) == arg_ps(ps(*old(self)), *old(open_quote)),
    result@ + arg_text(ps(*self).rest, *open_quote) == arg_text(ps(*old(self)).rest, *old(open_quote)),
  ensures ps(*self) == arg_ps(ps(*old(self)), *old(open_quote)), result@ == arg_text(ps(*old(self)).rest, *old(open_quote)),
  decreases ps(*self).rest.len()
at __vx_body_0__
  let ghost q0 = *open_quote; let ghost before = ps(*self); let ghost acc = result@;
  proof { assert(result@ + Seq::<char>::empty() =~= result@); lemma_adv(before, if before.rest.len() > 0 { 1 } else { 0 }); }
at __vx_aft_push_0__
  proof { assert(result@ + arg_text(ps(*self).rest, *open_quote) =~= acc + arg_text(before.rest, q0)); }
end

fn core::functions::FunctionParser#trait::can_parse
impl VxDynFunctionParser
name can_parse__default
props C27
ensures
  r == (raw.name@ == fp_name(*self)), //@C27
end
