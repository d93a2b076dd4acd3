# ---- the built-in functions: names and arguments
fn core::functions::parsers::begin::BeginParser#FunctionParser::name
props C27 C04
ensures
  r@ == "begin"@, //@C27
end
fn core::functions::parsers::begin::BeginFunction#Function::name
props C27
ensures
  r@ == "begin"@, //@C27
end
fn core::functions::parsers::begin::BeginParser#FunctionParser::parse
props C04 C27 C06
ensures
  r is Ok == p_begin(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_begin(raw)->0, //@C04
end
fn core::functions::parsers::dateformat::DateFormatParser#FunctionParser::name
props C27 C04
ensures
  r@ == "dateformat"@, //@C27
end
fn core::functions::parsers::dateformat::DateFormatFunction#Function::name
props C27
ensures
  r@ == "dateformat"@, //@C27
end
fn core::functions::parsers::dateformat::DateFormatParser#FunctionParser::parse
props C04 C27 C15
ensures
  r is Ok == p_dateformat(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_dateformat(raw)->0, //@C04
end
fn core::functions::parsers::else::ElseParser#FunctionParser::name
props C27 C04
ensures
  r@ == "else"@, //@C27
end
fn core::functions::parsers::else::ElseFunction#Function::name
props C27
ensures
  r@ == "else"@, //@C27
end
fn core::functions::parsers::else::ElseParser#FunctionParser::parse
props C04 C27 C07
ensures
  r is Ok == p_else(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_else(raw)->0, //@C04
end
fn core::functions::parsers::end::EndParser#FunctionParser::name
props C27 C04
ensures
  r@ == "end"@, //@C27
end
fn core::functions::parsers::end::EndFunction#Function::name
props C27
ensures
  r@ == "end"@, //@C27
end
fn core::functions::parsers::end::EndParser#FunctionParser::parse
props C04 C27 C06
ensures
  r is Ok == p_end(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_end(raw)->0, //@C04
end
fn core::functions::parsers::excerpt::ExcerptParser#FunctionParser::name
props C27 C04
ensures
  r@ == "excerpt"@, //@C27
end
fn core::functions::parsers::excerpt::ExcerptFunction#Function::name
props C27
ensures
  r@ == "excerpt"@, //@C27
end
fn core::functions::parsers::excerpt::ExcerptParser#FunctionParser::parse
props C04 C27 C14
ensures
  r is Ok == p_excerpt(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_excerpt(raw)->0, //@C04
end
fn core::functions::parsers::for::ForParser#FunctionParser::name
props C27 C04
ensures
  r@ == "for"@, //@C27
end
fn core::functions::parsers::for::ForFunction#Function::name
props C27
ensures
  r@ == "for"@, //@C27
end
fn core::functions::parsers::for::ForParser#FunctionParser::parse
props C04 C27 C09 C10
ensures
  r is Ok == p_for(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_for(raw)->0, //@C04
at __vx_start__
  let ghost raw0 = raw;
at __vx_pre_0__
  let ghost mut k: int = 0;
  proof { assert(raw.named_args@.skip(0) =~= raw.named_args@); assert(refs(raw.named_args@).skip(0) =~= refs(raw.named_args@)); }
at __vx_loop_0__
  invariant
    0 <= k <= raw.named_args@.len(), vx_it1@ == refs(raw.named_args@).skip(k),
    for_opts(ForFunction { variable_name: vx_string(variable_name@), source, source_type, skip: None, limit: None, sort_variable: None, sort_order: SortOrder::Asc }, raw.named_args@)
      == for_opts(ForFunction { variable_name: vx_string(variable_name@), source, source_type, skip, limit, sort_variable, sort_order }, raw.named_args@.skip(k)),
  ensures k == raw.named_args@.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof {
    assert(raw.named_args@.skip(k)[0] == raw.named_args@[k]);
    assert(raw.named_args@.skip(k).skip(1) =~= raw.named_args@.skip(k + 1));
    assert(refs(raw.named_args@).skip(k).skip(1) =~= refs(raw.named_args@).skip(k + 1));
    k = k + 1;
  }
end
fn core::functions::parsers::ifdefined::IfDefinedParser#FunctionParser::name
props C27 C04
ensures
  r@ == "ifdefined"@, //@C27
end
fn core::functions::parsers::ifdefined::IfDefinedFunction#Function::name
props C27
ensures
  r@ == "ifdefined"@, //@C27
end
fn core::functions::parsers::ifdefined::IfDefinedParser#FunctionParser::parse
props C04 C27 C08
ensures
  r is Ok == p_ifdefined(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_ifdefined(raw)->0, //@C04
end
fn core::functions::parsers::import::ImportParser#FunctionParser::name
props C27 C04
ensures
  r@ == "import"@, //@C27
end
fn core::functions::parsers::import::ImportFunction#Function::name
props C27
ensures
  r@ == "import"@, //@C27
end
fn core::functions::parsers::import::ImportParser#FunctionParser::parse
props C04 C27 C13
ensures
  r is Ok == p_import(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_import(raw)->0, //@C04
end
fn core::functions::parsers::insert::InsertParser#FunctionParser::name
props C27 C04
ensures
  r@ == "insert"@, //@C27
end
fn core::functions::parsers::insert::InsertFunction#Function::name
props C27
ensures
  r@ == "insert"@, //@C27
end
fn core::functions::parsers::insert::InsertParser#FunctionParser::parse
props C04 C27 C06
ensures
  r is Ok == p_insert(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_insert(raw)->0, //@C04
end
fn core::functions::parsers::timetoread::TimeToReadParser#FunctionParser::name
props C27 C04
ensures
  r@ == "timetoread"@, //@C27
end
fn core::functions::parsers::timetoread::TimeToReadFunction#Function::name
props C27
ensures
  r@ == "timetoread"@, //@C27
end
fn core::functions::parsers::timetoread::TimeToReadParser#FunctionParser::parse
props C04 C27 C15
ensures
  r is Ok == p_timetoread(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_timetoread(raw)->0, //@C04
end
fn core::functions::parsers::ifeq::Parser#FunctionParser::name
props C27 C04
ensures
  r@ == "ifeq"@, //@C27
end
fn core::functions::parsers::ifeq::Function#Function::name
props C27
ensures
  r@ == "ifeq"@, //@C27
end
fn core::functions::parsers::ifeq::Parser#FunctionParser::parse
props C04 C27 C08
ensures
  r is Ok == p_ifeq(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_ifeq(raw)->0, //@C04
end
fn core::functions::parsers::ifne::Parser#FunctionParser::name
props C27 C04
ensures
  r@ == "ifne"@, //@C27
end
fn core::functions::parsers::ifne::Function#Function::name
props C27
ensures
  r@ == "ifne"@, //@C27
end
fn core::functions::parsers::ifne::Parser#FunctionParser::parse
props C04 C27 C08
ensures
  r is Ok == p_ifne(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_ifne(raw)->0, //@C04
end
fn core::functions::parsers::ifgt::Parser#FunctionParser::name
props C27 C04
ensures
  r@ == "ifgt"@, //@C27
end
fn core::functions::parsers::ifgt::Function#Function::name
props C27
ensures
  r@ == "ifgt"@, //@C27
end
fn core::functions::parsers::ifgt::Parser#FunctionParser::parse
props C04 C27 C08
ensures
  r is Ok == p_ifgt(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_ifgt(raw)->0, //@C04
end
fn core::functions::parsers::ifge::Parser#FunctionParser::name
props C27 C04
ensures
  r@ == "ifge"@, //@C27
end
fn core::functions::parsers::ifge::Function#Function::name
props C27
ensures
  r@ == "ifge"@, //@C27
end
fn core::functions::parsers::ifge::Parser#FunctionParser::parse
props C04 C27 C08
ensures
  r is Ok == p_ifge(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_ifge(raw)->0, //@C04
end
fn core::functions::parsers::iflt::Parser#FunctionParser::name
props C27 C04
ensures
  r@ == "iflt"@, //@C27
end
fn core::functions::parsers::iflt::Function#Function::name
props C27
ensures
  r@ == "iflt"@, //@C27
end
fn core::functions::parsers::iflt::Parser#FunctionParser::parse
props C04 C27 C08
ensures
  r is Ok == p_iflt(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_iflt(raw)->0, //@C04
end
fn core::functions::parsers::ifle::Parser#FunctionParser::name
props C27 C04
ensures
  r@ == "ifle"@, //@C27
end
fn core::functions::parsers::ifle::Function#Function::name
props C27
ensures
  r@ == "ifle"@, //@C27
end
fn core::functions::parsers::ifle::Parser#FunctionParser::parse
props C04 C27 C08
ensures
  r is Ok == p_ifle(raw) is Some, //@C04
  r is Ok ==> *(r->Ok_0) == p_ifle(raw)->0, //@C04
end

fn core::functions::is_ident
props C04 C27
ensures
  r == builtin(s@) is Some, //@C04
at __vx_start__
  let ghost mut k: int = 0;
  let ghost t = parsers_table();
at __vx_pre_0__
  let ghost fs = vx_it1@;
  proof { ax_table(); lemma_table_find(t, s@); }
at __vx_loop_0__
  invariant_except_break !vx_out0,
  invariant
    table_ok(t), fs == refs(t), 0 <= k <= fs.len(), vx_it1@ == fs.skip(k),
    !vx_out0 ==> forall|i: int| 0 <= i < k ==> fp_name(*#[trigger] t[i]) != s@,
  ensures vx_out0 ==> builtin(s@) is Some, !vx_out0 ==> k == fs.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof { assert(*fs[k] == t[k]); assert(fs.skip(k).skip(1) =~= fs.skip(k + 1)); assert(vx_x2 == fs[k]); k = k + 1; }
end

fn core::functions::is_block
props C07
ensures
  r == block_name(name@), //@C07
end

fn core::parse::function::RawArgument::as_ident
props C04
ensures
  r is Some == *self is Ident, r is Some ==> (r->0)@ == (self->Ident_0)@,
end
fn core::parse::function::RawArgument::as_string
props C04
ensures
  r is Some == *self is String, r is Some ==> (r->0)@ == (self->String_0)@,
end
fn core::parse::function::RawArgument::as_variable
props C04
ensures
  r is Some == *self is Variable, r is Some ==> (r->0)@ == (self->Variable_0)@,
end
fn core::parse::function::RawArgument::as_integer
props C04
ensures
  r is Some == *self is Integer, r is Some ==> r->0 == self->Integer_0,
end

fn core::parse::function::RawArgument::parse
props C02 C04
ensures
  raw_arg(arg@) == r, //@C04
at __vx_start__
  let ghost mut k: int = 0;
  proof { lemma_prefix_char(arg@, '$'); lemma_prefix_char(arg@, '"'); lemma_utf8_len(arg@); }
at __vx_let_variable_name__
  let ghost cs = variable_name@;
at __vx_loop_0__
  invariant_except_break vx_out0,
  invariant
    cs == arg@.skip(1), 0 <= k <= cs.len(), vx_it1@ == cs.skip(k), 
    vx_out0 ==> (forall|i: int| 0 <= i < k ==> cls(2, #[trigger] cs[i])),
  ensures !vx_out0 ==> k > 0 && !cls(2, cs[k - 1]), vx_out0 ==> k == cs.len(),
  decreases vx_it1@.len()
at __vx_body_0__
  proof { assert(cs.skip(k).skip(1) =~= cs.skip(k + 1)); assert(vx_x2 == cs[k]); k = k + 1; }
at __vx_blk_3__
  proof { lemma_quoted(arg@); }
at __vx_let_string__
  proof { lemma_occurs_char(string@, '"'); }
end
