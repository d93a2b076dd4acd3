// V8 (the v8 crate), as the program uses it: JavaScript values, and the objects of the isolate.

/// a JavaScript value. Odd: a symbol, a text which is not Unicode, a big integer. Hole: an array element or member which is
/// not a plain value (absent, or computed by an accessor), and is never what a Local holds.
pub enum JVal { Undef, Null, Bool(bool), Num(f64), Str(Seq<char>), Odd(int), Hole(int), Obj(int), Ctx(int) }
/// an object: a true array, an ordinary object with plain data members of its own (by the name), or anything else
pub enum JObj { Arr(Seq<JVal>), Plain(IMap<Seq<char>, JVal>), Exotic(int) }
pub type JHeap = IMap<int, JObj>;

/// the double for a whole number, and the name under which a number is a property key
pub uninterp spec fn num_of(i: int) -> f64;
pub uninterp spec fn num_str(f: f64) -> Seq<char>;
pub open spec fn key_of(j: JVal) -> Option<Seq<char>> { match j { JVal::Str(s) => Some(s), JVal::Num(f) => Some(num_str(f)), _ => None } }
/// an object no script can reach
pub uninterp spec fn native_only(r: int) -> bool;
/// the global object of a context
pub uninterp spec fn glob(c: int) -> int;

pub struct V8Value { x: u8 }
pub struct V8Name { x: u8 }
pub struct V8String { x: u8 }
pub struct V8Number { x: u8 }
pub struct V8Integer { x: u8 }
pub struct V8Boolean { x: u8 }
pub struct V8Primitive { x: u8 }
pub struct V8Array { x: u8 }
pub struct V8Object { x: u8 }
pub struct V8Function { x: u8 }
pub struct V8Context { x: u8 }
pub struct V8Module { x: u8 }
pub struct V8GetPropertyNamesArgs { x: u8 }
impl V8GetPropertyNamesArgs { #[verifier::external_body] pub fn default() -> (r: V8GetPropertyNamesArgs) { unimplemented!() } }

#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct V8Local<'a, T> { p: std::marker::PhantomData<&'a T> }
impl<'a, T> Copy for V8Local<'a, T> {}
impl<'a, T> Clone for V8Local<'a, T> { #[verifier::external_body] fn clone(&self) -> (r: V8Local<'a, T>) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct V8HandleScope<'a> { p: std::marker::PhantomData<&'a u8> }
impl<'a> V8HandleScope<'a> {
    pub uninterp spec fn heap(&self) -> JHeap;
    /// the context which is entered, and those there are
    pub uninterp spec fn ctx(&self) -> int;
    pub uninterp spec fn ctxs(&self) -> ISet<int>;
}

/// nothing happened but that the heap is now `h`
pub open spec fn js_now<'a>(s0: V8HandleScope<'a>, s1: V8HandleScope<'a>, h: JHeap) -> bool { s1.heap() == h && s1.ctx() == s0.ctx() && s1.ctxs() == s0.ctxs() }
/// scripts may have run
pub open spec fn js_any<'a>(s0: V8HandleScope<'a>, s1: V8HandleScope<'a>) -> bool {
    &&& s1.ctx() == s0.ctx() && s0.ctxs().subset_of(s1.ctxs())
    &&& forall|r: int| #[trigger] native_only(r) && s0.heap().contains_key(r) ==> s1.heap().contains_key(r) && s1.heap()[r] == s0.heap()[r]
}

impl<'a, T> V8Local<'a, T> {
    pub uninterp spec fn jv(&self) -> JVal;
    /// a Local holds no hole
    #[verifier::external_body] pub proof fn ax_local(&self) ensures !(self.jv() is Hole) { }
    pub open spec fn arr(&self, h: JHeap) -> Option<Seq<JVal>> { match self.jv() { JVal::Obj(r) => if h.contains_key(r) { match h[r] { JObj::Arr(e) => Some(e), _ => None } } else { None }, _ => None } }
    pub open spec fn plain(&self, h: JHeap) -> Option<IMap<Seq<char>, JVal>> { match self.jv() { JVal::Obj(r) => if h.contains_key(r) { match h[r] { JObj::Plain(m) => Some(m), _ => None } } else { None }, _ => None } }

    #[verifier::external_body] pub fn is_undefined(&self) -> (r: bool) ensures r == (self.jv() is Undef) { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self.jv() is Null) { unimplemented!() }
    #[verifier::external_body] pub fn is_null_or_undefined(&self) -> (r: bool) ensures r == (self.jv() is Null || self.jv() is Undef) { unimplemented!() }
    #[verifier::external_body] pub fn is_boolean(&self) -> (r: bool) ensures r == (self.jv() is Bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_true(&self) -> (r: bool) ensures r == (self.jv() == JVal::Bool(true)) { unimplemented!() }
    #[verifier::external_body] pub fn is_number(&self) -> (r: bool) ensures r == (self.jv() is Num) { unimplemented!() }
    /// a text which is not Unicode is a string too
    #[verifier::external_body] pub fn is_string(&self) -> (r: bool) ensures self.jv() is Str ==> r, r ==> self.jv() is Str || self.jv() is Odd { unimplemented!() }
    #[verifier::external_body] pub fn is_object(&self) -> (r: bool) ensures r == (self.jv() is Obj) { unimplemented!() }
    #[verifier::external_body] pub fn is_array(&self) -> (r: bool) ensures r == js_arr(self.jv()), r ==> self.jv() is Obj { unimplemented!() }
    #[verifier::external_body] pub fn boolean_value<'s>(&self, scope: &mut V8HandleScope<'s>) -> (r: bool)
        ensures self.jv() is Bool ==> r == self.jv()->Bool_0, js_now(*old(scope), *final(scope), old(scope).heap()) { unimplemented!() }
    #[verifier::external_body] pub fn number_value<'s>(&self, scope: &mut V8HandleScope<'s>) -> (r: Option<f64>)
        ensures self.jv() is Num ==> r == Some(self.jv()->Num_0) && js_now(*old(scope), *final(scope), old(scope).heap()), js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn uint32_value<'s>(&self, scope: &mut V8HandleScope<'s>) -> (r: Option<u32>)
        ensures self.jv() is Num ==> r is Some && js_now(*old(scope), *final(scope), old(scope).heap()),
            forall|i: int| 0 <= i <= u32::MAX && self.jv() == JVal::Num(#[trigger] num_of(i)) ==> r == Some(i as u32),
            js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn to_rust_string_lossy<'s>(&self, scope: &mut V8HandleScope<'s>) -> (r: String)
        ensures key_of(self.jv()) is Some ==> r@ == key_of(self.jv())->0 && js_now(*old(scope), *final(scope), old(scope).heap()),
            r@ == js_text(self.jv(), *old(scope)), js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn to_object<'s>(&self, scope: &mut V8HandleScope<'s>) -> (r: Option<V8Local<'s, V8Object>>)
        ensures self.jv() is Obj ==> r is Some && r->0.jv() == self.jv() && js_now(*old(scope), *final(scope), old(scope).heap()), r is Some ==> r->0.jv() is Obj, js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn get<'s>(&self, scope: &mut V8HandleScope<'s>, key: V8Local<'_, V8Value>) -> (r: Option<V8Local<'s, V8Value>>)
        ensures
            self.jv() is Obj && key.jv() is Str && js_member(old(scope).heap(), self.jv()->Obj_0, key.jv()->Str_0) is Some ==>
                r is Some && r->0.jv() == js_member(old(scope).heap(), self.jv()->Obj_0, key.jv()->Str_0)->0 && js_now(*old(scope), *final(scope), old(scope).heap()),
            key_of(key.jv()) is Some && self.plain(old(scope).heap()) is Some && self.plain(old(scope).heap())->0.contains_key(key_of(key.jv())->0) && !(self.plain(old(scope).heap())->0[key_of(key.jv())->0] is Hole) ==>
                r is Some && r->0.jv() == self.plain(old(scope).heap())->0[key_of(key.jv())->0] && js_now(*old(scope), *final(scope), old(scope).heap()),
            js_arr(self.jv()) && key.jv() == JVal::Str("length"@) ==>
                r is Some && (exists|n: int| 0 <= n <= u32::MAX && r->0.jv() == JVal::Num(#[trigger] num_of(n)) && (self.arr(old(scope).heap()) is Some ==> n == self.arr(old(scope).heap())->0.len())) && js_now(*old(scope), *final(scope), old(scope).heap()),
            js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn get_index<'s>(&self, scope: &mut V8HandleScope<'s>, i: u32) -> (r: Option<V8Local<'s, V8Value>>)
        ensures
            self.arr(old(scope).heap()) is Some && i < self.arr(old(scope).heap())->0.len() && !(self.arr(old(scope).heap())->0[i as int] is Hole) ==>
                r is Some && r->0.jv() == self.arr(old(scope).heap())->0[i as int] && js_now(*old(scope), *final(scope), old(scope).heap()),
            js_any(*old(scope), *final(scope)) { unimplemented!() }
    /// the names of an object's own enumerable members, in a list of its own
    #[verifier::external_body] pub fn get_own_property_names<'s>(&self, scope: &mut V8HandleScope<'s>, a: V8GetPropertyNamesArgs) -> (r: Option<V8Local<'s, V8Array>>)
        ensures
            r is Some ==> r->0.jv() is Obj && native_only(r->0.jv()->Obj_0) && r->0.arr(final(scope).heap()) is Some && names_list(r->0.arr(final(scope).heap())->0) && js_len(r->0) == r->0.arr(final(scope).heap())->0.len(),
            r is Some && self.plain(old(scope).heap()) is Some ==> !old(scope).heap().contains_key(r->0.jv()->Obj_0)
                && js_now(*old(scope), *final(scope), old(scope).heap().insert(r->0.jv()->Obj_0, JObj::Arr(r->0.arr(final(scope).heap())->0)))
                && names_of(r->0.arr(final(scope).heap())->0, self.plain(old(scope).heap())->0),
            self.plain(old(scope).heap()) is Some ==> r is Some,
            js_any(*old(scope), *final(scope)) { unimplemented!() }
    /// `set` runs setters, and those of the prototypes count: `__proto__` is one
    #[verifier::external_body] pub fn set<'s>(&self, scope: &mut V8HandleScope<'s>, key: V8Local<'_, V8Value>, v: V8Local<'_, V8Value>) -> (r: Option<bool>)
        ensures
            self.plain(old(scope).heap()) is Some && key.jv() is Str && key.jv()->Str_0 != "__proto__"@ ==>
                js_now(*old(scope), *final(scope), old(scope).heap().insert(self.jv()->Obj_0, JObj::Plain(self.plain(old(scope).heap())->0.insert(key.jv()->Str_0, v.jv())))),
            js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn create_data_property<'s>(&self, scope: &mut V8HandleScope<'s>, key: V8Local<'_, V8Name>, v: V8Local<'_, V8Value>) -> (r: Option<bool>)
        ensures
            self.plain(old(scope).heap()) is Some && key.jv() is Str ==> r == Some(true) &&
                js_now(*old(scope), *final(scope), old(scope).heap().insert(self.jv()->Obj_0, JObj::Plain(self.plain(old(scope).heap())->0.insert(key.jv()->Str_0, v.jv())))),
            js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn set_index<'s>(&self, scope: &mut V8HandleScope<'s>, i: u32, v: V8Local<'_, V8Value>) -> (r: Option<bool>)
        ensures
            self.arr(old(scope).heap()) is Some && i <= self.arr(old(scope).heap())->0.len() ==>
                js_now(*old(scope), *final(scope), old(scope).heap().insert(self.jv()->Obj_0, JObj::Arr(arr_put(self.arr(old(scope).heap())->0, i as int, v.jv())))),
            js_any(*old(scope), *final(scope)) { unimplemented!() }
}
/// objects are equal when they are the same object
pub trait VxObjects { spec fn has_object(&self, j: JVal) -> bool; fn vx_contains<'b>(&self, x: &V8Local<'b, V8Object>) -> (r: bool) ensures r == self.has_object(x.jv()); }
impl<'a> VxObjects for [V8Local<'a, V8Object>] {
    open spec fn has_object(&self, j: JVal) -> bool { exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i].jv() == j }
    #[verifier::external_body] fn vx_contains<'b>(&self, x: &V8Local<'b, V8Object>) -> (r: bool) { unimplemented!() }
}
/// whether a value is a true array does not change
pub uninterp spec fn js_arr(j: JVal) -> bool;
/// what a value is as a text
pub uninterp spec fn js_text<'a>(j: JVal, s: V8HandleScope<'a>) -> Seq<char>;
pub open spec fn arr_put(e: Seq<JVal>, i: int, v: JVal) -> Seq<JVal> { if i < e.len() { e.update(i, v) } else { e.push(v) } }
pub open spec fn names_list(e: Seq<JVal>) -> bool { e.len() <= u32::MAX && forall|i: int| 0 <= i < e.len() ==> key_of(#[trigger] e[i]) is Some }
pub open spec fn names_of(e: Seq<JVal>, m: IMap<Seq<char>, JVal>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key(key_of(#[trigger] e[i])->0)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && key_of(#[trigger] e[i]) == Some(k)
    &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> key_of(#[trigger] e[i]) != key_of(#[trigger] e[j])
}
/// true arrays are told from other objects
pub open spec fn arrs_ok(h: JHeap) -> bool { forall|r: int| #[trigger] h.contains_key(r) ==> js_arr(JVal::Obj(r)) == (h[r] is Arr) }
#[verifier::external_body] pub proof fn ax_arrs<'a>(s: &V8HandleScope<'a>) ensures arrs_ok(s.heap()) { }
/// the length of a list no script can reach
pub uninterp spec fn js_len<'a>(a: V8Local<'a, V8Array>) -> int;
impl<'a> V8Local<'a, V8Array> {
    #[verifier::external_body] pub fn length(&self) -> (r: u32) ensures r == js_len(*self) { unimplemented!() }
}
pub uninterp spec fn up<'a, T, U>(x: V8Local<'a, T>) -> V8Local<'a, U>;
#[verifier::external_body] pub broadcast proof fn ax_up<'a, T, U>(x: V8Local<'a, T>) ensures (#[trigger] up::<T, U>(x)).jv() == x.jv() { }
impl<'a, T> VxIntoT<V8Local<'a, V8Value>> for V8Local<'a, T> { open spec fn intov(self) -> V8Local<'a, V8Value> { up(self) } #[verifier::external_body] fn vx_into(self) -> (r: V8Local<'a, V8Value>) { unimplemented!() } }
impl<'a> VxIntoT<V8Local<'a, V8Name>> for V8Local<'a, V8String> { open spec fn intov(self) -> V8Local<'a, V8Name> { up(self) } #[verifier::external_body] fn vx_into(self) -> (r: V8Local<'a, V8Name>) { unimplemented!() } }

pub open spec fn js_same<'a>(s0: V8HandleScope<'a>, s1: V8HandleScope<'a>) -> bool { js_now(s0, s1, s0.heap()) }
/// a new object
pub open spec fn js_new<'a>(s0: V8HandleScope<'a>, s1: V8HandleScope<'a>, j: JVal, o: JObj) -> bool {
    j is Obj && !s0.heap().contains_key(j->Obj_0) && js_now(s0, s1, s0.heap().insert(j->Obj_0, o))
}
#[verifier::external_body] pub fn v8_null<'s>(scope: &mut V8HandleScope<'s>) -> (r: V8Local<'s, V8Primitive>) ensures r.jv() is Null, js_same(*old(scope), *final(scope)) { unimplemented!() }
#[verifier::external_body] pub fn v8_undefined<'s>(scope: &mut V8HandleScope<'s>) -> (r: V8Local<'s, V8Primitive>) ensures r.jv() is Undef, js_same(*old(scope), *final(scope)) { unimplemented!() }
impl V8Boolean { #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>, b: bool) -> (r: V8Local<'s, V8Boolean>) ensures r.jv() == JVal::Bool(b), js_same(*old(scope), *final(scope)) { unimplemented!() } }
impl V8Number { #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>, x: f64) -> (r: V8Local<'s, V8Number>) ensures r.jv() == JVal::Num(x), js_same(*old(scope), *final(scope)) { unimplemented!() } }
impl V8Integer {
    #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>, x: i32) -> (r: V8Local<'s, V8Integer>) ensures r.jv() == JVal::Num(num_of(x as int)), js_same(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn new_from_unsigned<'s>(scope: &mut V8HandleScope<'s>, x: u32) -> (r: V8Local<'s, V8Integer>) ensures r.jv() == JVal::Num(num_of(x as int)), js_same(*old(scope), *final(scope)) { unimplemented!() }
}
/// there is a text unless it is longer than V8's limit (about 2^29 characters)
impl V8String { #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>, s: &str) -> (r: Option<V8Local<'s, V8String>>) ensures r is Some, r->0.jv() == JVal::Str(s@), js_same(*old(scope), *final(scope)) { unimplemented!() } }
impl V8Array {
    #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>, n: i32) -> (r: V8Local<'s, V8Array>) ensures js_new(*old(scope), *final(scope), r.jv(), JObj::Arr(js_holes(if n < 0 { 0 } else { n as int }))) { unimplemented!() }
    #[verifier::external_body] pub fn new_with_elements<'s>(scope: &mut V8HandleScope<'s>, l: &[V8Local<'_, V8Value>]) -> (r: V8Local<'s, V8Array>)
        ensures js_new(*old(scope), *final(scope), r.jv(), JObj::Arr(Seq::new(l@.len(), |i: int| l@[i].jv()))) { unimplemented!() }
}
impl V8Object { #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>) -> (r: V8Local<'s, V8Object>) ensures js_new(*old(scope), *final(scope), r.jv(), JObj::Plain(IMap::empty())) { unimplemented!() } }
pub open spec fn js_holes(n: int) -> Seq<JVal> { Seq::new(n as nat, |i: int| JVal::Hole(0)) }

// ---- the isolate, its contexts and modules
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct V8Global<T> { p: std::marker::PhantomData<T> }
#[verifier::external_body]
pub struct V8Isolate { x: u8 }
#[verifier::external_body]
pub struct V8IsolateCell { x: u8 }
impl V8Isolate {
    pub uninterp spec fn heap(&self) -> JHeap;
    pub uninterp spec fn ctxs(&self) -> ISet<int>;
}
/// at some time the program entered the isolate of its thread, and these were its contexts
pub uninterp spec fn vx_entered(ctxs: ISet<int>) -> bool;
#[verifier::external_body] pub fn vx_thread_local_ISOLATE() -> (r: V8IsolateCell) { unimplemented!() }
impl V8IsolateCell { #[verifier::external_body] pub fn borrow_mut(&self) -> (r: &'static mut V8Isolate) ensures vx_entered(r.ctxs()) { unimplemented!() } }
impl<T> V8Global<T> {
    pub uninterp spec fn jv(&self) -> JVal;
    #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>, l: V8Local<'_, T>) -> (r: V8Global<T>) ensures r.jv() == l.jv(), js_same(*old(scope), *final(scope)) { unimplemented!() }
}
impl<'s, T> V8Local<'s, T> { #[verifier::external_body] pub fn new(scope: &mut V8HandleScope<'s>, g: &V8Global<T>) -> (r: V8Local<'s, T>) ensures r.jv() == g.jv(), js_same(*old(scope), *final(scope)) { unimplemented!() } }
impl<'s> V8HandleScope<'s> {
    #[verifier::external_body] pub fn new(isolate: &'s mut V8Isolate) -> (r: V8HandleScope<'s>) ensures r.heap() == old(isolate).heap(), r.ctxs() == old(isolate).ctxs() { unimplemented!() }
}
impl V8Context {
    #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>) -> (r: V8Local<'s, V8Context>)
        ensures r.jv() is Ctx, !old(scope).ctxs().contains(r.jv()->Ctx_0), final(scope).ctxs() == old(scope).ctxs().insert(r.jv()->Ctx_0), final(scope).ctx() == old(scope).ctx(),
            forall|x: int| #[trigger] old(scope).heap().contains_key(x) ==> final(scope).heap().contains_key(x) && final(scope).heap()[x] == old(scope).heap()[x] { unimplemented!() }
}
pub struct V8ContextScope { x: u8 }
impl V8ContextScope {
    #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>, c: V8Local<'s, V8Context>) -> (r: V8HandleScope<'s>)
        ensures r.heap() == old(scope).heap(), r.ctxs() == old(scope).ctxs(), c.jv() is Ctx ==> r.ctx() == c.jv()->Ctx_0 && r.heap().contains_key(glob(c.jv()->Ctx_0)) { unimplemented!() }
}
impl<'a> V8Local<'a, V8Context> {
    #[verifier::external_body] pub fn global<'s>(&self, scope: &mut V8HandleScope<'s>) -> (r: V8Local<'s, V8Object>) ensures self.jv() is Ctx ==> r.jv() == JVal::Obj(glob(self.jv()->Ctx_0)), js_same(*old(scope), *final(scope)) { unimplemented!() }
}
pub struct V8ScriptOrigin { x: u8 }
impl V8ScriptOrigin { #[verifier::external_body] pub fn new<'s>(scope: &mut V8HandleScope<'s>, name: V8Local<'_, V8Value>, a: i32, b: i32, c: bool, d: i32, e: V8Local<'_, V8Value>, f: bool, g: bool, h: bool) -> (r: V8ScriptOrigin) ensures js_same(*old(scope), *final(scope)) { unimplemented!() } }
pub struct V8Source { x: u8 }
impl V8Source { #[verifier::external_body] pub fn new(s: V8Local<'_, V8String>, o: Option<&V8ScriptOrigin>) -> (r: V8Source) { unimplemented!() } }
#[verifier::external_body] pub fn v8_compile_module<'s>(scope: &mut V8HandleScope<'s>, s: V8Source) -> (r: Option<V8Local<'s, V8Module>>) ensures js_any(*old(scope), *final(scope)) { unimplemented!() }
impl<'a> V8Local<'a, V8Module> {
    #[verifier::external_body] pub fn instantiate_module<'s, F>(&self, scope: &mut V8HandleScope<'s>, f: F) -> (r: Option<bool>) ensures js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn evaluate<'s>(&self, scope: &mut V8HandleScope<'s>) -> (r: Option<V8Local<'s, V8Value>>) ensures js_any(*old(scope), *final(scope)) { unimplemented!() }
    #[verifier::external_body] pub fn get_module_namespace(&self) -> (r: V8Local<'a, V8Value>) ensures r.jv() is Obj { unimplemented!() }
}
pub struct V8FixedArray { x: u8 }
/// calling a function: what it is given and what comes back
pub uninterp spec fn js_called<'a>(s: V8HandleScope<'a>, f: JVal, this: JVal, args: Seq<JVal>, r: Option<JVal>) -> bool;
pub open spec fn jvs<'a>(l: Seq<V8Local<'a, V8Value>>) -> Seq<JVal> { Seq::new(l.len(), |i: int| l[i].jv()) }
pub uninterp spec fn js_callable(j: JVal) -> bool;
/// the member of an object which is read without running a script
pub uninterp spec fn js_member(h: JHeap, r: int, k: Seq<char>) -> Option<JVal>;
#[derive(Debug)] pub struct V8DataError { x: u8 }
impl<'a> V8Local<'a, V8Function> {
    #[verifier::external_body] pub fn try_from(x: V8Local<'a, V8Value>) -> (r: Result<V8Local<'a, V8Function>, V8DataError>) ensures r is Ok == js_callable(x.jv()), r is Ok ==> r->Ok_0.jv() == x.jv() { unimplemented!() }
    #[verifier::external_body] pub fn call<'s>(&self, scope: &mut V8HandleScope<'s>, this: V8Local<'_, V8Value>, args: &[V8Local<'_, V8Value>]) -> (r: Option<V8Local<'s, V8Value>>)
        ensures js_any(*old(scope), *final(scope)), js_called(*old(scope), self.jv(), this.jv(), jvs(args@), match r { Some(x) => Some(x.jv()), None => None }) { unimplemented!() }
}

// ---- what a function of the program is called with by a script, and what it gives back
#[verifier::external_body]
pub struct V8FunctionCallbackArguments<'s> { p: std::marker::PhantomData<&'s u8> }
impl<'s> V8FunctionCallbackArguments<'s> {
    pub uninterp spec fn arg(&self, i: int) -> JVal;
    #[verifier::external_body] pub fn this(&self) -> (r: V8Local<'s, V8Object>) ensures r.jv() is Obj { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: i32) -> (r: V8Local<'s, V8Value>) ensures r.jv() == self.arg(i as int) { unimplemented!() }
}
#[verifier::external_body]
pub struct V8ReturnValue { x: u8 }
impl V8ReturnValue {
    pub uninterp spec fn jv(&self) -> JVal;
    #[verifier::external_body] pub fn set<'s>(&mut self, v: V8Local<'s, V8Value>) ensures final(self).jv() == v.jv() { unimplemented!() }
}
