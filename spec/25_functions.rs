// ================================================================= the built-in functions and what their calls mean

pub open spec fn fp_name(p: VxDynFunctionParser) -> Seq<char> {
    match p {
        VxDynFunctionParser::BeginParser(_) => "begin"@,
        VxDynFunctionParser::DateFormatParser(_) => "dateformat"@,
        VxDynFunctionParser::ElseParser(_) => "else"@,
        VxDynFunctionParser::EndParser(_) => "end"@,
        VxDynFunctionParser::ExcerptParser(_) => "excerpt"@,
        VxDynFunctionParser::ForParser(_) => "for"@,
        VxDynFunctionParser::IfDefinedParser(_) => "ifdefined"@,
        VxDynFunctionParser::ImportParser(_) => "import"@,
        VxDynFunctionParser::InsertParser(_) => "insert"@,
        VxDynFunctionParser::TimeToReadParser(_) => "timetoread"@,
        VxDynFunctionParser::IfeqParser(_) => "ifeq"@,
        VxDynFunctionParser::IfneParser(_) => "ifne"@,
        VxDynFunctionParser::IfgtParser(_) => "ifgt"@,
        VxDynFunctionParser::IfgeParser(_) => "ifge"@,
        VxDynFunctionParser::IfltParser(_) => "iflt"@,
        VxDynFunctionParser::IfleParser(_) => "ifle"@,
        VxDynFunctionParser::Plugin(p) => plugin_parser_name(p),
    }
}
pub open spec fn fn_name(f: VxDynFunction) -> Seq<char> {
    match f {
        VxDynFunction::BeginFunction(_) => "begin"@,
        VxDynFunction::DateFormatFunction(_) => "dateformat"@,
        VxDynFunction::ElseFunction(_) => "else"@,
        VxDynFunction::EndFunction(_) => "end"@,
        VxDynFunction::ExcerptFunction(_) => "excerpt"@,
        VxDynFunction::ForFunction(_) => "for"@,
        VxDynFunction::IfDefinedFunction(_) => "ifdefined"@,
        VxDynFunction::ImportFunction(_) => "import"@,
        VxDynFunction::InsertFunction(_) => "insert"@,
        VxDynFunction::TimeToReadFunction(_) => "timetoread"@,
        VxDynFunction::IfeqFunction(_) => "ifeq"@,
        VxDynFunction::IfneFunction(_) => "ifne"@,
        VxDynFunction::IfgtFunction(_) => "ifgt"@,
        VxDynFunction::IfgeFunction(_) => "ifge"@,
        VxDynFunction::IfltFunction(_) => "iflt"@,
        VxDynFunction::IfleFunction(_) => "ifle"@,
        VxDynFunction::Plugin(p) => plugin_function_name(p),
    }
}
/// the built-in function of a name
pub open spec fn builtin(n: Seq<char>) -> Option<VxDynFunctionParser> {
    if n == "begin"@ { Some(VxDynFunctionParser::BeginParser(BeginParser)) }
    else if n == "dateformat"@ { Some(VxDynFunctionParser::DateFormatParser(DateFormatParser)) }
    else if n == "else"@ { Some(VxDynFunctionParser::ElseParser(ElseParser)) }
    else if n == "end"@ { Some(VxDynFunctionParser::EndParser(EndParser)) }
    else if n == "excerpt"@ { Some(VxDynFunctionParser::ExcerptParser(ExcerptParser)) }
    else if n == "for"@ { Some(VxDynFunctionParser::ForParser(ForParser)) }
    else if n == "ifdefined"@ { Some(VxDynFunctionParser::IfDefinedParser(IfDefinedParser)) }
    else if n == "import"@ { Some(VxDynFunctionParser::ImportParser(ImportParser)) }
    else if n == "insert"@ { Some(VxDynFunctionParser::InsertParser(InsertParser)) }
    else if n == "timetoread"@ { Some(VxDynFunctionParser::TimeToReadParser(TimeToReadParser)) }
    else if n == "ifeq"@ { Some(VxDynFunctionParser::IfeqParser(IfeqParser)) }
    else if n == "ifne"@ { Some(VxDynFunctionParser::IfneParser(IfneParser)) }
    else if n == "ifgt"@ { Some(VxDynFunctionParser::IfgtParser(IfgtParser)) }
    else if n == "ifge"@ { Some(VxDynFunctionParser::IfgeParser(IfgeParser)) }
    else if n == "iflt"@ { Some(VxDynFunctionParser::IfltParser(IfltParser)) }
    else if n == "ifle"@ { Some(VxDynFunctionParser::IfleParser(IfleParser)) }
    else { None }
}
pub proof fn lemma_names()
    ensures
        "begin"@ == seq!['b','e','g','i','n'], "dateformat"@ == seq!['d','a','t','e','f','o','r','m','a','t'],
        "else"@ == seq!['e','l','s','e'], "end"@ == seq!['e','n','d'], "excerpt"@ == seq!['e','x','c','e','r','p','t'],
        "for"@ == seq!['f','o','r'], "ifdefined"@ == seq!['i','f','d','e','f','i','n','e','d'], "import"@ == seq!['i','m','p','o','r','t'],
        "insert"@ == seq!['i','n','s','e','r','t'], "timetoread"@ == seq!['t','i','m','e','t','o','r','e','a','d'],
        "ifeq"@ == seq!['i','f','e','q'], "ifne"@ == seq!['i','f','n','e'], "ifgt"@ == seq!['i','f','g','t'],
        "ifge"@ == seq!['i','f','g','e'], "iflt"@ == seq!['i','f','l','t'], "ifle"@ == seq!['i','f','l','e'],
{
    reveal_strlit("begin"); reveal_strlit("dateformat"); reveal_strlit("else"); reveal_strlit("end"); reveal_strlit("excerpt");
    reveal_strlit("for"); reveal_strlit("ifdefined"); reveal_strlit("import"); reveal_strlit("insert"); reveal_strlit("timetoread");
    reveal_strlit("ifeq"); reveal_strlit("ifne"); reveal_strlit("ifgt"); reveal_strlit("ifge"); reveal_strlit("iflt"); reveal_strlit("ifle");
    assert("begin"@ =~= seq!['b','e','g','i','n']); assert("dateformat"@ =~= seq!['d','a','t','e','f','o','r','m','a','t']);
    assert("else"@ =~= seq!['e','l','s','e']); assert("end"@ =~= seq!['e','n','d']); assert("excerpt"@ =~= seq!['e','x','c','e','r','p','t']);
    assert("for"@ =~= seq!['f','o','r']); assert("ifdefined"@ =~= seq!['i','f','d','e','f','i','n','e','d']); assert("import"@ =~= seq!['i','m','p','o','r','t']);
    assert("insert"@ =~= seq!['i','n','s','e','r','t']); assert("timetoread"@ =~= seq!['t','i','m','e','t','o','r','e','a','d']);
    assert("ifeq"@ =~= seq!['i','f','e','q']); assert("ifne"@ =~= seq!['i','f','n','e']); assert("ifgt"@ =~= seq!['i','f','g','t']);
    assert("ifge"@ =~= seq!['i','f','g','e']); assert("iflt"@ =~= seq!['i','f','l','t']); assert("ifle"@ =~= seq!['i','f','l','e']);
}
/// every built-in function is found under its own name
pub proof fn lemma_builtin_of_name(p: VxDynFunctionParser)
    requires !(p is Plugin)
    ensures builtin(fp_name(p)) == Some(p)
{
    lemma_names();
    let n = fp_name(p);
    assert(n.len() >= 3 && "begin"@[0] == 'b' && "dateformat"@[0] == 'd' && "else"@[1] == 'l' && "end"@[1] == 'n' && "excerpt"@[1] == 'x'
        && "for"@[0] == 'f' && "ifdefined"@[2] == 'd' && "import"@[1] == 'm' && "insert"@[1] == 'n' && "timetoread"@[0] == 't'
        && "ifeq"@[2] == 'e' && "ifne"@[2] == 'n' && "ifgt"@[3] == 't' && "ifge"@[3] == 'e' && "iflt"@[3] == 't' && "ifle"@[3] == 'e'
        && "ifgt"@[2] == 'g' && "ifge"@[2] == 'g' && "iflt"@[2] == 'l' && "ifle"@[2] == 'l' && "ifne"@[3] == 'e' && "ifeq"@[3] == 'q'
        && "ifeq"@[1] == 'f' && "ifne"@[1] == 'f' && "ifgt"@[1] == 'f' && "ifge"@[1] == 'f' && "iflt"@[1] == 'f' && "ifle"@[1] == 'f' && "ifdefined"@[1] == 'f');
}

/// the functions which open a block closed by `end`
pub open spec fn block_name(n: Seq<char>) -> bool {
    n == "begin"@ || n == "for"@ || n == "ifdefined"@ || n == "ifeq"@ || n == "ifne"@ || n == "ifgt"@ || n == "ifge"@ || n == "iflt"@ || n == "ifle"@
}

// ---- what each built-in function makes of its arguments (None: rejected)
pub open spec fn one_arg(raw: RawFunction) -> bool { raw.positional_args@.len() == 1 && raw.named_args@.len() == 0 }
pub open spec fn two_args(raw: RawFunction) -> bool { raw.positional_args@.len() == 2 && raw.named_args@.len() == 0 }
pub open spec fn arg0(raw: RawFunction) -> RawArgument { raw.positional_args@[0] }
pub open spec fn arg1(raw: RawFunction) -> RawArgument { raw.positional_args@[1] }
pub open spec fn p_begin(raw: RawFunction) -> Option<VxDynFunction> {
    if !one_arg(raw) { None } else { match arg0(raw) {
        RawArgument::String(l) => Some(VxDynFunction::BeginFunction(BeginFunction { label: l, custom: true })),
        RawArgument::Ident(l) => Some(VxDynFunction::BeginFunction(BeginFunction { label: l, custom: false })),
        _ => None } }
}
pub open spec fn p_end(raw: RawFunction) -> Option<VxDynFunction> {
    if !one_arg(raw) { None } else { match arg0(raw) {
        RawArgument::String(l) => Some(VxDynFunction::EndFunction(EndFunction { label: l, custom: true })),
        RawArgument::Ident(l) => Some(VxDynFunction::EndFunction(EndFunction { label: l, custom: false })),
        _ => None } }
}
pub open spec fn p_else(raw: RawFunction) -> Option<VxDynFunction> {
    if raw.positional_args@.len() == 0 && raw.named_args@.len() == 0 { Some(VxDynFunction::ElseFunction(ElseFunction)) } else { None }
}
pub open spec fn p_dateformat(raw: RawFunction) -> Option<VxDynFunction> {
    if two_args(raw) && arg0(raw) is Variable && arg1(raw) is String {
        Some(VxDynFunction::DateFormatFunction(DateFormatFunction { variable_name: arg0(raw)->Variable_0, format: arg1(raw)->String_0 }))
    } else { None }
}
pub open spec fn p_excerpt(raw: RawFunction) -> Option<VxDynFunction> {
    if two_args(raw) && arg0(raw) is Variable && arg1(raw) is Integer && arg1(raw)->Integer_0 >= 0 {
        Some(VxDynFunction::ExcerptFunction(ExcerptFunction { variable_name: arg0(raw)->Variable_0, length: arg1(raw)->Integer_0 as usize }))
    } else { None }
}
pub open spec fn p_ifdefined(raw: RawFunction) -> Option<VxDynFunction> {
    if one_arg(raw) && arg0(raw) is Variable { Some(VxDynFunction::IfDefinedFunction(IfDefinedFunction { variable_name: arg0(raw)->Variable_0 })) } else { None }
}
pub open spec fn p_timetoread(raw: RawFunction) -> Option<VxDynFunction> {
    if one_arg(raw) && arg0(raw) is Variable { Some(VxDynFunction::TimeToReadFunction(TimeToReadFunction { variable_name: arg0(raw)->Variable_0 })) } else { None }
}
pub open spec fn p_import(raw: RawFunction) -> Option<VxDynFunction> {
    if two_args(raw) && arg0(raw) is Variable && arg1(raw) is String {
        Some(VxDynFunction::ImportFunction(ImportFunction { variable_name: arg0(raw)->Variable_0, file_name: arg1(raw)->String_0 }))
    } else { None }
}
pub open spec fn p_insert(raw: RawFunction) -> Option<VxDynFunction> {
    if one_arg(raw) && arg0(raw) is String { Some(VxDynFunction::InsertFunction(InsertFunction { label: arg0(raw)->String_0 })) } else { None }
}
pub open spec fn input_of(a: RawArgument) -> Option<Input> {
    match a {
        RawArgument::Variable(v) => Some(Input::Variable(v)),
        RawArgument::String(v) => Some(Input::String(v)),
        RawArgument::Integer(v) => Some(Input::Integer(v)),
        _ => None,
    }
}
pub open spec fn two_inputs(raw: RawFunction) -> bool { two_args(raw) && input_of(arg0(raw)) is Some && input_of(arg1(raw)) is Some }
pub open spec fn p_ifeq(raw: RawFunction) -> Option<VxDynFunction> { if !two_inputs(raw) { None } else { Some(VxDynFunction::IfeqFunction(IfeqFunction { input_1: input_of(arg0(raw))->0, input_2: input_of(arg1(raw))->0 })) } }
pub open spec fn p_ifne(raw: RawFunction) -> Option<VxDynFunction> { if !two_inputs(raw) { None } else { Some(VxDynFunction::IfneFunction(IfneFunction { input_1: input_of(arg0(raw))->0, input_2: input_of(arg1(raw))->0 })) } }
pub open spec fn p_ifgt(raw: RawFunction) -> Option<VxDynFunction> { if !two_inputs(raw) { None } else { Some(VxDynFunction::IfgtFunction(IfgtFunction { input_1: input_of(arg0(raw))->0, input_2: input_of(arg1(raw))->0 })) } }
pub open spec fn p_ifge(raw: RawFunction) -> Option<VxDynFunction> { if !two_inputs(raw) { None } else { Some(VxDynFunction::IfgeFunction(IfgeFunction { input_1: input_of(arg0(raw))->0, input_2: input_of(arg1(raw))->0 })) } }
pub open spec fn p_iflt(raw: RawFunction) -> Option<VxDynFunction> { if !two_inputs(raw) { None } else { Some(VxDynFunction::IfltFunction(IfltFunction { input_1: input_of(arg0(raw))->0, input_2: input_of(arg1(raw))->0 })) } }
pub open spec fn p_ifle(raw: RawFunction) -> Option<VxDynFunction> { if !two_inputs(raw) { None } else { Some(VxDynFunction::IfleFunction(IfleFunction { input_1: input_of(arg0(raw))->0, input_2: input_of(arg1(raw))->0 })) } }

/// the options of a loop: each may be given once, in any order
pub open spec fn for_opts(f: ForFunction, named: Seq<(String, RawArgument)>) -> Option<ForFunction> decreases named.len() {
    if named.len() == 0 { Some(f) }
    else {
        let n = named[0].0@; let a = named[0].1; let rest = named.skip(1);
        if n == "skip"@ { if a is Integer && f.skip is None && a->Integer_0 >= 0 { for_opts(ForFunction { skip: Some(a->Integer_0 as usize), ..f }, rest) } else { None } }
        else if n == "limit"@ { if a is Integer && f.limit is None && a->Integer_0 >= 0 { for_opts(ForFunction { limit: Some(a->Integer_0 as usize), ..f }, rest) } else { None } }
        else if n == "sortby"@ { if a is Variable && f.sort_variable is None { for_opts(ForFunction { sort_variable: Some(a->Variable_0), ..f }, rest) } else { None } }
        else if n == "order"@ {
            if a is String && a->String_0@ == "asc"@ { for_opts(ForFunction { sort_order: SortOrder::Asc, ..f }, rest) }
            else if a is String && a->String_0@ == "desc"@ { for_opts(ForFunction { sort_order: SortOrder::Desc, ..f }, rest) }
            else { None } }
        else { None }
    }
}
pub open spec fn for_source(a: RawArgument) -> Option<(String, ForFunctionSourceType)> {
    match a {
        RawArgument::Variable(v) => Some((v, ForFunctionSourceType::JSONObject)),
        RawArgument::String(s) => if is_suffix(".json"@, s@) { Some((s, ForFunctionSourceType::JSONFile)) }
            else if is_suffix(seq!['/'], s@) { Some((s, ForFunctionSourceType::MarkdownDirectory)) } else { None },
        _ => None,
    }
}
pub open spec fn p_for(raw: RawFunction) -> Option<VxDynFunction> {
    if raw.positional_args@.len() != 2 || !(arg0(raw) is Variable) || for_source(arg1(raw)) is None { None }
    else {
        let src = for_source(arg1(raw))->0;
        match for_opts(ForFunction { variable_name: arg0(raw)->Variable_0, source: src.0, source_type: src.1, skip: None, limit: None,
                                     sort_variable: None, sort_order: SortOrder::Asc }, raw.named_args@) {
            Some(f) => Some(VxDynFunction::ForFunction(f)),
            None => None,
        }
    }
}
pub open spec fn fp_parse(p: VxDynFunctionParser, raw: RawFunction) -> Option<VxDynFunction> {
    match p {
        VxDynFunctionParser::BeginParser(_) => p_begin(raw),
        VxDynFunctionParser::DateFormatParser(_) => p_dateformat(raw),
        VxDynFunctionParser::ElseParser(_) => p_else(raw),
        VxDynFunctionParser::EndParser(_) => p_end(raw),
        VxDynFunctionParser::ExcerptParser(_) => p_excerpt(raw),
        VxDynFunctionParser::ForParser(_) => p_for(raw),
        VxDynFunctionParser::IfDefinedParser(_) => p_ifdefined(raw),
        VxDynFunctionParser::ImportParser(_) => p_import(raw),
        VxDynFunctionParser::InsertParser(_) => p_insert(raw),
        VxDynFunctionParser::TimeToReadParser(_) => p_timetoread(raw),
        VxDynFunctionParser::IfeqParser(_) => p_ifeq(raw),
        VxDynFunctionParser::IfneParser(_) => p_ifne(raw),
        VxDynFunctionParser::IfgtParser(_) => p_ifgt(raw),
        VxDynFunctionParser::IfgeParser(_) => p_ifge(raw),
        VxDynFunctionParser::IfltParser(_) => p_iflt(raw),
        VxDynFunctionParser::IfleParser(_) => p_ifle(raw),
        VxDynFunctionParser::Plugin(p) => plugin_parse(p, raw),
    }
}
/// every function parsed by a built-in parser reports the name it was called by
pub proof fn lemma_parsed_name(p: VxDynFunctionParser, raw: RawFunction)
    requires !(p is Plugin), fp_parse(p, raw) is Some
    ensures fn_name(fp_parse(p, raw)->0) == fp_name(p)
{ }

// ---- plugin functions
pub open spec fn colons() -> Seq<char> { seq![':', ':'] }
pub open spec fn plugin_named(pl: Seq<char>, f: VxDynFunctionParser, n: Seq<char>) -> bool { n == fp_name(f) || n == pl + colons() + fp_name(f) }
pub open spec fn plugin_fn_in(pl: Seq<char>, fs: Seq<Box<VxDynFunctionParser>>, n: Seq<char>) -> Option<VxDynFunctionParser> decreases fs.len() {
    if fs.len() == 0 { None } else if plugin_named(pl, *fs[0], n) { Some(*fs[0]) } else { plugin_fn_in(pl, fs.skip(1), n) }
}
pub open spec fn plugin_fn_from(ps: Seq<Plugin>, n: Seq<char>) -> Option<VxDynFunctionParser> decreases ps.len() {
    if ps.len() == 0 { None } else { match plugin_fn_in(ps[0].name@, ps[0].functions@, n) { Some(f) => Some(f), None => plugin_fn_from(ps.skip(1), n) } }
}
pub open spec fn plugin_fn(plugins: Option<&VxDynManager>, n: Seq<char>) -> Option<VxDynFunctionParser> {
    match plugins { None => None, Some(m) => plugin_fn_from(plugins_seq(*m), n) }
}

// ---- dispatch on the dynamic type
impl VxDynFunctionParser {
    pub fn name<'a>(&'a self) -> (r: &'a str) ensures r@ == fp_name(*self) { match self {
//%each FunctionParser
        VxDynFunctionParser::$T(x) => x.name(),
//%end
        VxDynFunctionParser::Plugin(x) => x.name(),
    } }
    pub fn parse(&self, raw: RawFunction) -> (r: Result<Box<VxDynFunction>, ParseError>)
        ensures r is Ok == fp_parse(*self, raw) is Some, r is Ok ==> *(r->Ok_0) == fp_parse(*self, raw)->0
    { match self {
//%each FunctionParser
        VxDynFunctionParser::$T(x) => x.parse(raw),
//%end
        VxDynFunctionParser::Plugin(x) => x.parse(raw),
    } }
    pub fn can_parse(&self, raw: &RawFunction) -> (r: bool) ensures r == (raw.name@ == fp_name(*self)) { match self {
//%each FunctionParser:can_parse
        VxDynFunctionParser::$T(x) => x.can_parse(raw),
//%end
        _ => self.can_parse__default(raw),
    } }
}
impl VxDynFunction {
    pub fn name<'a>(&'a self) -> (r: &'a str) ensures r@ == fn_name(*self) { match self {
//%each Function
        VxDynFunction::$T(x) => x.name(),
//%end
        VxDynFunction::Plugin(x) => x.name(),
    } }
}
/// a table which holds exactly the built-in functions
pub open spec fn table_ok(t: Seq<Box<VxDynFunctionParser>>) -> bool {
    &&& forall|k: int| 0 <= k < t.len() ==> builtin(fp_name(#[trigger] *t[k])) == Some(*t[k])
    &&& forall|n: Seq<char>| #[trigger] builtin(n) is Some ==> exists|k: int| 0 <= k < t.len() && *(#[trigger] t[k]) == builtin(n)->0
}
pub uninterp spec fn parsers_table() -> Seq<Box<VxDynFunctionParser>>;
/// the table is built once, on first use, by `vx_function_parsers_init`, and never changed (lazy_static)
#[verifier::external_body]
pub fn vx_function_parsers() -> (r: &'static Vec<Box<VxDynFunctionParser>>)
    ensures r@ == parsers_table()
{ unimplemented!() }
pub axiom fn ax_table() ensures table_ok(parsers_table());
/// the table of built-in functions, in the order the repository lists them
pub fn vx_function_parsers_init() -> (r: Vec<Box<VxDynFunctionParser>>)
    ensures table_ok(r@), //@C27
{
    let r: Vec<Box<VxDynFunctionParser>> = vec![
//%builtins
    ];
    proof {
        assert forall|k: int| 0 <= k < r@.len() implies builtin(fp_name(#[trigger] *r@[k])) == Some(*r@[k]) by { lemma_builtin_of_name(*r@[k]); }
        assert forall|n: Seq<char>| #[trigger] builtin(n) is Some implies exists|k: int| 0 <= k < r@.len() && *(#[trigger] r@[k]) == builtin(n)->0 by {
            let b = builtin(n)->0;
//%builtin_hints
        }
    }
    r
}
/// in a table of the built-in functions, a name is found exactly when it is a built-in's
pub proof fn lemma_table_find(t: Seq<Box<VxDynFunctionParser>>, n: Seq<char>)
    requires table_ok(t)
    ensures builtin(n) is None ==> (forall|k: int| 0 <= k < t.len() ==> fp_name(*#[trigger] t[k]) != n),
        builtin(n) is Some ==> (exists|k: int| 0 <= k < t.len() && fp_name(*#[trigger] t[k]) == n),
        forall|k: int| 0 <= k < t.len() && fp_name(*#[trigger] t[k]) == n ==> builtin(n) == Some(*t[k]),
{
    assert(builtin(n) is Some ==> fp_name(builtin(n)->0) == n);
}
