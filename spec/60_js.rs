// ================================================================= JavaScript plugins
pub open spec fn last_named(o: Seq<(String, Value)>, i: int) -> bool { forall|k: int| i < k < o.len() ==> (#[trigger] o[k]).0@ != o[i].0@ }
pub open spec fn has_key(o: Seq<(String, Value)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0@ == k }
/// the JavaScript value `j` is the JSON value `v`, and made of objects outside `b`. Of members with the same name, the last counts.
pub open spec fn shows(h: JHeap, b: ISet<int>, j: JVal, v: Value) -> bool decreases v {
    match v {
        Value::Null => j is Null,
        Value::Bool(x) => j == JVal::Bool(x),
        Value::Number(x) => j == JVal::Num(x),
        Value::String(s) => j == JVal::Str(s@),
        Value::Array(a) => match j {
            JVal::Obj(r) => !b.contains(r) && h.contains_key(r) && match h[r] {
                JObj::Arr(e) => e.len() == a@.len() && forall|i: int| #![trigger e[i]] #![trigger a@[i]] 0 <= i < a@.len() ==> shows(h, b, e[i], a@[i]),
                _ => false,
            },
            _ => false,
        },
        Value::Object(o) => match j {
            JVal::Obj(r) => !b.contains(r) && h.contains_key(r) && match h[r] {
                JObj::Plain(m) => (forall|k: Seq<char>| #[trigger] m.contains_key(k) == has_key(o@, k)) && forall|i: int| #![trigger o@[i]] 0 <= i < o@.len() && last_named(o@, i) ==> shows(h, b, m[o@[i].0@], o@[i].1),
                _ => false,
            },
            _ => false,
        },
    }
}
/// the same objects, apart from those in `b`
pub open spec fn heap_keeps(h1: JHeap, h2: JHeap, b: ISet<int>) -> bool { forall|r: int| !b.contains(r) && #[trigger] h1.contains_key(r) ==> h2.contains_key(r) && h2[r] == h1[r] }
pub open spec fn heap_ext(h1: JHeap, h2: JHeap) -> bool { forall|r: int| #[trigger] h1.contains_key(r) ==> h2.contains_key(r) && h2[r] == h1[r] }
pub proof fn lemma_shows_frame(h1: JHeap, h2: JHeap, b1: ISet<int>, b2: ISet<int>, j: JVal, v: Value)
    requires shows(h1, b1, j, v), heap_keeps(h1, h2, b1), b2.subset_of(b1)
    ensures shows(h2, b2, j, v)
    decreases v
{
    match v {
        Value::Array(a) => {
            let r = j->Obj_0; let e = h1[r]->Arr_0;
            assert(h1.contains_key(r));
            assert forall|i: int| #![trigger e[i]] #![trigger a@[i]] 0 <= i < a@.len() implies shows(h2, b2, e[i], a@[i]) by { assert(shows(h1, b1, e[i], a@[i])); lemma_shows_frame(h1, h2, b1, b2, e[i], a@[i]); }
        }
        Value::Object(o) => {
            let r = j->Obj_0; let m = h1[r]->Plain_0;
            assert(h1.contains_key(r));
            assert forall|i: int| #![trigger o@[i]] 0 <= i < o@.len() && last_named(o@, i) implies shows(h2, b2, m[o@[i].0@], o@[i].1) by { lemma_shows_frame(h1, h2, b1, b2, m[o@[i].0@], o@[i].1); }
        }
        _ => {}
    }
}
/// arrays do not have 2^31 elements
#[verifier::external_body] pub proof fn ax_json_small(a: Vec<Value>) ensures a@.len() < 0x8000_0000 { }
/// the first k elements are shown, and none of it is made of the objects in `b`
pub open spec fn shows_upto(h: JHeap, b: ISet<int>, e: Seq<JVal>, a: Seq<Value>, k: int) -> bool { forall|i: int| #![trigger e[i]] #![trigger a[i]] 0 <= i < k ==> shows(h, b, e[i], a[i]) }
pub proof fn lemma_upto_frame(h1: JHeap, h2: JHeap, b1: ISet<int>, b2: ISet<int>, e: Seq<JVal>, a: Seq<Value>, k: int)
    requires shows_upto(h1, b1, e, a, k), heap_keeps(h1, h2, b1), b2.subset_of(b1)
    ensures shows_upto(h2, b2, e, a, k)
{
    assert forall|i: int| #![trigger e[i]] #![trigger a[i]] 0 <= i < k implies shows(h2, b2, e[i], a[i]) by { assert(shows(h1, b1, e[i], a[i])); lemma_shows_frame(h1, h2, b1, b2, e[i], a[i]); }
}
/// the members of the first k names
pub open spec fn has_members(h: JHeap, b: ISet<int>, m: IMap<Seq<char>, JVal>, o: Seq<(String, Value)>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) == has_key(o, k)
    &&& forall|i: int| #![trigger o[i]] 0 <= i < o.len() && last_named(o, i) ==> shows(h, b, m[o[i].0@], o[i].1)
}
pub proof fn lemma_members_frame(h1: JHeap, h2: JHeap, b1: ISet<int>, b2: ISet<int>, m: IMap<Seq<char>, JVal>, o: Seq<(String, Value)>)
    requires has_members(h1, b1, m, o), heap_keeps(h1, h2, b1), b2.subset_of(b1)
    ensures has_members(h2, b2, m, o)
{
    assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() && last_named(o, i) implies shows(h2, b2, m[o[i].0@], o[i].1) by { lemma_shows_frame(h1, h2, b1, b2, m[o[i].0@], o[i].1); }
}
/// one more member
pub proof fn lemma_members_step(h: JHeap, b: ISet<int>, m: IMap<Seq<char>, JVal>, o: Seq<(String, Value)>, k: int, j: JVal)
    requires 0 <= k < o.len(), has_members(h, b, m, o.take(k)), shows(h, b, j, o[k].1)
    ensures has_members(h, b, m.insert(o[k].0@, j), o.take(k + 1))
{
    let p = o.take(k); let q = o.take(k + 1); let n = m.insert(o[k].0@, j);
    assert(q[k] == o[k]);
    assert forall|x: Seq<char>| #[trigger] n.contains_key(x) == has_key(q, x) by {
        assert(m.contains_key(x) == has_key(p, x));
        if has_key(p, x) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0@ == x; assert(q[i] == p[i]); }
        if has_key(q, x) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0@ == x; if i < k { assert(p[i] == q[i]); } }
    }
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() && last_named(q, i) implies shows(h, b, n[q[i].0@], q[i].1) by {
        if i < k {
            assert(p[i] == q[i]);
            assert(q[k].0@ != q[i].0@);
            assert(last_named(p, i)) by { assert forall|l: int| i < l < p.len() implies (#[trigger] p[l]).0@ != p[i].0@ by { assert(q[l] == p[l]); } }
        }
    }
}
/// `j` is a JSON value
pub open spec fn shown(h: JHeap, j: JVal) -> bool { exists|v: Value| #[trigger] shows(h, ISet::empty(), j, v) }
pub proof fn lemma_shown_elem(h: JHeap, j: JVal, r: int, i: int)
    requires shown(h, j), j == JVal::Obj(r), h[r] is Arr, 0 <= i < h[r]->Arr_0.len()
    ensures shown(h, h[r]->Arr_0[i]), !(h[r]->Arr_0[i] is Hole)
{
    let v = choose|v: Value| #[trigger] shows(h, ISet::empty(), j, v);
    assert(v is Array);
    let a = v->Array_0@;
    assert(shows(h, ISet::empty(), h[r]->Arr_0[i], a[i]));
}
pub proof fn lemma_last_named(o: Seq<(String, Value)>, k: Seq<char>) -> (i: int)
    requires has_key(o, k)
    ensures 0 <= i < o.len(), o[i].0@ == k, last_named(o, i)
    decreases o.len()
{
    let n = o.len() - 1;
    if o[n].0@ == k { n } else {
        let p = o.take(n);
        let x = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0@ == k;
        assert(p[x] == o[x]);
        let i = lemma_last_named(p, k);
        assert(o[i] == p[i]);
        assert forall|l: int| i < l < o.len() implies (#[trigger] o[l]).0@ != o[i].0@ by { if l < n { assert(p[l] == o[l]); } }
        i
    }
}
pub proof fn lemma_shown_member(h: JHeap, j: JVal, r: int, k: Seq<char>)
    requires shown(h, j), j == JVal::Obj(r), h[r] is Plain, h[r]->Plain_0.contains_key(k)
    ensures shown(h, h[r]->Plain_0[k]), !(h[r]->Plain_0[k] is Hole)
{
    let v = choose|v: Value| #[trigger] shows(h, ISet::empty(), j, v);
    assert(v is Object);
    let o = v->Object_0@;
    let i = lemma_last_named(o, k);
    assert(shows(h, ISet::empty(), h[r]->Plain_0[o[i].0@], o[i].1));
}
pub proof fn lemma_shown_frame(h1: JHeap, h2: JHeap, j: JVal)
    requires shown(h1, j), heap_ext(h1, h2)
    ensures shown(h2, j)
{
    let v = choose|v: Value| #[trigger] shows(h1, ISet::empty(), j, v);
    lemma_shows_frame(h1, h2, ISet::empty(), ISet::empty(), j, v);
}
/// `c` is an element or a member of `a`; `b` is reached from `a` in n steps of that kind; each of the objects has `j` within it
pub open spec fn js_child(h: JHeap, a: JVal, c: JVal) -> bool {
    match a {
        JVal::Obj(r) => h.contains_key(r) && match h[r] {
            JObj::Arr(e) => exists|i: int| 0 <= i < e.len() && #[trigger] e[i] == c,
            JObj::Plain(m) => exists|k: Seq<char>| m.contains_key(k) && #[trigger] m[k] == c,
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn js_path(h: JHeap, a: JVal, b: JVal, n: nat) -> bool decreases n {
    if n == 0 { a == b } else { exists|c: JVal| #[trigger] js_child(h, a, c) && js_path(h, c, b, (n - 1) as nat) }
}
pub open spec fn js_trail<'a>(h: JHeap, p: Seq<V8Local<'a, V8Object>>, j: JVal) -> bool { forall|i: int| 0 <= i < p.len() ==> exists|n: nat| n > 0 && #[trigger] js_path(h, #[trigger] p[i].jv(), j, n) }
pub proof fn lemma_path_push(h: JHeap, a: JVal, b: JVal, c: JVal, n: nat)
    requires js_path(h, a, b, n), js_child(h, b, c)
    ensures js_path(h, a, c, n + 1)
    decreases n
{
    if n == 0 { assert(js_path(h, c, c, 0)); assert(js_child(h, a, c)); } else {
        let d = choose|d: JVal| #[trigger] js_child(h, a, d) && js_path(h, d, b, (n - 1) as nat);
        lemma_path_push(h, d, b, c, (n - 1) as nat);
        assert(js_child(h, a, d) && js_path(h, d, c, n));
    }
}
pub proof fn lemma_path_frame(h1: JHeap, h2: JHeap, a: JVal, b: JVal, n: nat)
    requires js_path(h1, a, b, n), heap_ext(h1, h2)
    ensures js_path(h2, a, b, n)
    decreases n
{
    if n > 0 {
        let d = choose|d: JVal| #[trigger] js_child(h1, a, d) && js_path(h1, d, b, (n - 1) as nat);
        lemma_path_frame(h1, h2, d, b, (n - 1) as nat);
        assert(h1.contains_key(a->Obj_0));
        assert(js_child(h2, a, d));
    }
}
/// a JSON value is not within itself
pub proof fn lemma_no_cycle(h: JHeap, j: JVal, v: Value, n: nat)
    requires shows(h, ISet::empty(), j, v), js_path(h, j, j, n), n > 0
    ensures false
    decreases v
{
    let c = choose|c: JVal| #[trigger] js_child(h, j, c) && js_path(h, c, j, (n - 1) as nat);
    lemma_path_push(h, c, j, c, (n - 1) as nat);
    let r = j->Obj_0;
    match v {
        Value::Array(a) => {
            let e = h[r]->Arr_0;
            let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == c;
            assert(shows(h, ISet::empty(), e[i], a@[i]));
            assert(decreases_to!(v => a@[i]));
            lemma_no_cycle(h, c, a@[i], n);
        }
        Value::Object(o) => {
            let m = h[r]->Plain_0;
            let k = choose|k: Seq<char>| m.contains_key(k) && #[trigger] m[k] == c;
            let i = lemma_last_named(o@, k);
            assert(shows(h, ISet::empty(), m[o@[i].0@], o@[i].1));
            assert(decreases_to!(v => o@[i].1));
            lemma_no_cycle(h, c, o@[i].1, n);
        }
        _ => {}
    }
}
pub proof fn lemma_not_within<'a>(h: JHeap, p: Seq<V8Local<'a, V8Object>>, j: JVal)
    requires shown(h, j), js_trail(h, p, j)
    ensures forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i].jv() != j
{
    let v = choose|v: Value| #[trigger] shows(h, ISet::empty(), j, v);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i].jv() != j by {
        if p[i].jv() == j { let n = choose|n: nat| n > 0 && #[trigger] js_path(h, p[i].jv(), j, n); lemma_no_cycle(h, j, v, n); }
    }
}
pub proof fn lemma_trail_push<'a>(h1: JHeap, h2: JHeap, p: Seq<V8Local<'a, V8Object>>, x: V8Local<'a, V8Object>, c: JVal)
    requires js_trail(h1, p, x.jv()), heap_ext(h1, h2), js_child(h1, x.jv(), c)
    ensures js_trail(h2, p.push(x), c)
{
    let q = p.push(x);
    assert forall|i: int| 0 <= i < q.len() implies exists|n: nat| n > 0 && #[trigger] js_path(h2, #[trigger] q[i].jv(), c, n) by {
        let n = if i < p.len() { assert(q[i] == p[i]); choose|n: nat| n > 0 && #[trigger] js_path(h1, p[i].jv(), x.jv(), n) } else { 0nat };
        if i == p.len() { assert(js_path(h1, x.jv(), x.jv(), 0)); }
        lemma_path_push(h1, q[i].jv(), x.jv(), c, n);
        lemma_path_frame(h1, h2, q[i].jv(), c, n + 1);
    }
}
pub open spec fn members_upto(h: JHeap, m: IMap<Seq<char>, JVal>, names: Seq<JVal>, o: Seq<(String, Value)>, k: int) -> bool {
    o.len() == k && forall|i: int| #![trigger names[i]] #![trigger o[i]] 0 <= i < k ==> o[i].0@ == key_of(names[i])->0 && shows(h, ISet::empty(), m[o[i].0@], o[i].1) && json_clean(o[i].1)
}
pub proof fn lemma_members_done(h: JHeap, m: IMap<Seq<char>, JVal>, names: Seq<JVal>, o: Seq<(String, Value)>)
    requires members_upto(h, m, names, o, names.len() as int), names_of(names, m), names_list(names)
    ensures has_members(h, ISet::empty(), m, o), keys_once(o)
{
    assert forall|i: int, k: int| 0 <= i < o.len() && 0 <= k < o.len() && i != k implies (#[trigger] o[i]).0@ != (#[trigger] o[k]).0@ by { assert(key_of(names[i]) != key_of(names[k])); }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) == has_key(o, k) by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < names.len() && key_of(#[trigger] names[i]) == Some(k); assert(o[i].0@ == k); }
        if has_key(o, k) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0@ == k; assert(m.contains_key(key_of(names[i])->0)); }
    }
}
/// no object has two members with the same name
pub open spec fn keys_once(o: Seq<(String, Value)>) -> bool { forall|i: int, k: int| 0 <= i < o.len() && 0 <= k < o.len() && i != k ==> (#[trigger] o[i]).0@ != (#[trigger] o[k]).0@ }
pub open spec fn json_clean(v: Value) -> bool decreases v {
    match v {
        Value::Array(a) => forall|i: int| #![trigger a@[i]] 0 <= i < a@.len() ==> json_clean(a@[i]),
        Value::Object(o) => keys_once(o@) && forall|i: int| #![trigger o@[i]] 0 <= i < o@.len() ==> json_clean(o@[i].1),
        _ => true,
    }
}
/// the same JSON value: the order of the members of an object does not matter
pub open spec fn same_json(v: Value, w: Value) -> bool decreases v {
    match (v, w) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => x == y,
        (Value::String(x), Value::String(y)) => x@ == y@,
        (Value::Array(x), Value::Array(y)) => x@.len() == y@.len() && forall|i: int| #![trigger x@[i]] 0 <= i < x@.len() ==> same_json(x@[i], y@[i]),
        (Value::Object(x), Value::Object(y)) => (forall|k: Seq<char>| has_key(x@, k) == has_key(y@, k))
            && forall|i: int, k: int| #![trigger x@[i], y@[k]] 0 <= i < x@.len() && 0 <= k < y@.len() && x@[i].0@ == y@[k].0@ ==> same_json(x@[i].1, y@[k].1),
        _ => false,
    }
}
/// what goes to JavaScript and comes back is the same value
pub proof fn thm_js_round_trip(h: JHeap, b: ISet<int>, j: JVal, v: Value, w: Value)
    requires shows(h, b, j, v), json_clean(v), shows(h, ISet::empty(), j, w), json_clean(w)
    ensures same_json(v, w)
    decreases v
{
    match (v, w) {
        (Value::Array(x), Value::Array(y)) => {
            let e = h[j->Obj_0]->Arr_0;
            assert forall|i: int| #![trigger x@[i]] 0 <= i < x@.len() implies same_json(x@[i], y@[i]) by { assert(shows(h, b, e[i], x@[i])); assert(shows(h, ISet::empty(), e[i], y@[i])); thm_js_round_trip(h, b, e[i], x@[i], y@[i]); }
        }
        (Value::Object(x), Value::Object(y)) => {
            let m = h[j->Obj_0]->Plain_0;
            assert forall|k: Seq<char>| has_key(x@, k) == has_key(y@, k) by { assert(m.contains_key(k) == has_key(x@, k)); }
            assert forall|i: int, k: int| #![trigger x@[i], y@[k]] 0 <= i < x@.len() && 0 <= k < y@.len() && x@[i].0@ == y@[k].0@ implies same_json(x@[i].1, y@[k].1) by {
                assert(last_named(x@, i)); assert(last_named(y@, k));
                thm_js_round_trip(h, b, m[x@[i].0@], x@[i].1, y@[k].1);
            }
        }
        _ => {}
    }
}

// ---- the functions of JavaScript plugins
pub uninterp spec fn js_function(f: JSFunction) -> VxPluginFunction;
pub uninterp spec fn js_parser(f: JSFunctionParser) -> VxPluginFunctionParser;
impl VxIntoDynFunction for JSFunction { open spec fn dynv(self) -> VxDynFunction { VxDynFunction::Plugin(js_function(self)) } #[verifier::external_body] fn vx_dyn_(self) -> (r: VxDynFunction) { unimplemented!() } }
pub trait VxAsBoxParser: Sized { spec fn asp(self) -> VxDynFunctionParser; fn vx_as_Box___VxDynFunctionParser__(self) -> (r: Box<VxDynFunctionParser>) ensures *r == self.asp(); }
impl VxAsBoxParser for Box<JSFunctionParser> { open spec fn asp(self) -> VxDynFunctionParser { VxDynFunctionParser::Plugin(js_parser(*self)) } #[verifier::external_body] fn vx_as_Box___VxDynFunctionParser__(self) -> (r: Box<VxDynFunctionParser>) { unimplemented!() } }
/// a parser of functions which run in the context c
pub open spec fn parses_in(p: VxDynFunctionParser, c: int) -> bool { exists|f: JSFunctionParser| p == VxDynFunctionParser::Plugin(#[trigger] js_parser(f)) && f.context.jv() == JVal::Ctx(c) }
pub open spec fn parsers_in(l: Vec<Box<VxDynFunctionParser>>, c: int) -> bool { forall|k: int| 0 <= k < l@.len() ==> parses_in(*(#[trigger] l@[k]), c) }
/// all functions of the plugin run in one context, which did not exist before the plugin was loaded
pub open spec fn own_context(p: Plugin) -> bool {
    exists|before: ISet<int>, c: int| #[trigger] vx_entered(before) && !(#[trigger] before.contains(c)) && parsers_in(p.functions, c)
}
/// an argument of a function, as the script sees it
pub open spec fn js_arg_ok(h: JHeap, b: ISet<int>, j: JVal, a: RawArgument, stack: Seq<StackFrame>) -> bool {
    match a {
        RawArgument::Variable(n) => var(stack, n@) is Some && shows(h, b, j, var(stack, n@)->0),
        RawArgument::String(s) => j == JVal::Str(s@),
        RawArgument::Integer(i) => j == JVal::Num(num_of(i as int)),
        _ => false,
    }
}
/// an argument there is no value for
pub open spec fn js_arg_bad(a: RawArgument, stack: Seq<StackFrame>) -> bool {
    match a { RawArgument::Variable(n) => var(stack, n@) is None, RawArgument::String(_) => false, RawArgument::Integer(_) => false, _ => true }
}
pub open spec fn js_args_ok<'a>(h: JHeap, b: ISet<int>, l: Seq<V8Local<'a, V8Value>>, a: Seq<RawArgument>, stack: Seq<StackFrame>) -> bool {
    forall|i: int| #![trigger l[i]] #![trigger a[i]] 0 <= i < l.len() ==> js_arg_ok(h, b, l[i].jv(), a[i], stack)
}
pub proof fn lemma_js_args_frame<'a>(h1: JHeap, h2: JHeap, b: ISet<int>, l: Seq<V8Local<'a, V8Value>>, a: Seq<RawArgument>, stack: Seq<StackFrame>)
    requires js_args_ok(h1, b, l, a, stack), heap_ext(h1, h2), l.len() <= a.len()
    ensures js_args_ok(h2, b, l, a, stack)
{
    assert forall|i: int| #![trigger l[i]] #![trigger a[i]] 0 <= i < l.len() implies js_arg_ok(h2, b, l[i].jv(), a[i], stack) by {
        assert(js_arg_ok(h1, b, l[i].jv(), a[i], stack));
        if a[i] is Variable { lemma_shows_frame(h1, h2, b, b, l[i].jv(), var(stack, a[i]->Variable_0@)->0); }
    }
}
pub proof fn lemma_js_args_frame2<'a>(h1: JHeap, h2: JHeap, b: ISet<int>, l: Seq<V8Local<'a, V8Value>>, a: Seq<RawArgument>, stack: Seq<StackFrame>)
    requires js_args_ok(h1, b, l, a, stack), heap_keeps(h1, h2, b), l.len() <= a.len()
    ensures js_args_ok(h2, ISet::empty(), l, a, stack)
{
    assert forall|i: int| #![trigger l[i]] #![trigger a[i]] 0 <= i < l.len() implies js_arg_ok(h2, ISet::empty(), l[i].jv(), a[i], stack) by {
        assert(js_arg_ok(h1, b, l[i].jv(), a[i], stack));
        if a[i] is Variable { lemma_shows_frame(h1, h2, b, ISet::empty(), l[i].jv(), var(stack, a[i]->Variable_0@)->0); }
    }
}
/// STUART.set gives the innermost frame variables and does nothing else
pub open spec fn js_sets(s0: St, s1: St) -> bool {
    &&& s1 == (St { stack: s1.stack, ..s0 }) && s1.stack.len() == s0.stack.len()
    &&& s0.stack.len() > 0 ==> s1.stack.drop_last() == s0.stack.drop_last() && s1.stack.last().name == s0.stack.last().name && s1.stack.last().output == s0.stack.last().output
}
/// only the object g is another
pub open spec fn js_same_but<'a>(s0: V8HandleScope<'a>, s1: V8HandleScope<'a>, g: int) -> bool {
    s1.ctx() == s0.ctx() && s1.ctxs() == s0.ctxs() && heap_keeps(s0.heap(), s1.heap(), ISet::empty().insert(g))
}
/// the function of the plugin was called, in the plugin's own context, with the arguments, and what it returned was put out
pub open spec fn js_ran(f: JSFunction, s0: St, s1: St) -> bool {
    exists|v: V8HandleScope<'static>, w: V8HandleScope<'static>, x: St, h: JHeap, args: Seq<JVal>, out: Option<JVal>| #[trigger] js_ran_as(f, s0, s1, v, w, x, h, args, out)
}
pub open spec fn js_ran_as<'a>(f: JSFunction, s0: St, s1: St, v: V8HandleScope<'a>, w: V8HandleScope<'a>, x: St, h: JHeap, args: Seq<JVal>, out: Option<JVal>) -> bool {
    let c = f.context.jv()->Ctx_0; let fun = js_member(h, glob(c), "_stuart_"@ + f.name@)->0;
    &&& v.ctx() == c && args.len() == f.args@.len()
    &&& forall|i: int| 0 <= i < args.len() ==> js_arg_ok(v.heap(), ISet::empty(), #[trigger] args[i], f.args@[i], s0.stack)
    &&& js_called(v, fun, fun, args, out) && js_sets(s0, x)
    &&& s1 == match out { Some(o) => if o is Undef { x } else { St { stack: put(x.stack, utf8(js_text(o, w))), ..x } }, None => x }
}
/// raw pointers; what the functions of the script do through STUART.set is attributed to it
#[verifier::external_body] pub fn set_stuart_context(scope: &mut V8HandleScope, context: &mut Scope)
    ensures keeps(*old(context), *final(context)), js_sets(st(*old(context)), st(*final(context))), js_same_but(*old(scope), *final(scope), glob(old(scope).ctx())) { unimplemented!() }

/// a raw pointer: the scope which was given to `set_stuart_context`
#[verifier::external_body] pub fn get_stuart_context<'a, 's, 'o>(scope: &mut V8HandleScope<'a>, obj: V8Local<'o, V8Object>) -> (r: &'s mut Scope<'s>)
    ensures scope_ok(*r), js_same(*old(scope), *final(scope)) { unimplemented!() }
/// STUART.set(key, j): the value is defined, under that name, in the innermost frame
pub open spec fn js_defined(h: JHeap, s0: St, s1: St, key: Seq<char>, j: JVal) -> bool {
    exists|v: Value| shows(h, ISet::empty(), j, v) && json_clean(v) && #[trigger] frame_with(s0.stack.last(), key, v) == s1.stack.last() && js_sets(s0, s1)
}
