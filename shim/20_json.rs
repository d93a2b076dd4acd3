// humphrey_json's Value (the same shape as the crate's) and the contracts of its operations, from its source.

pub enum Value { Null, Bool(bool), Number(f64), String(String), Array(Vec<Value>), Object(Vec<(String, Value)>) }

/// position of the first entry with the given key, or -1
pub open spec fn obj_find_from(o: Seq<(String, Value)>, k: Seq<char>, i: int) -> int decreases o.len() - i {
    if i < 0 || i >= o.len() { -1 } else if o[i].0@ == k { i } else { obj_find_from(o, k, i + 1) }
}
pub open spec fn obj_find(o: Seq<(String, Value)>, k: Seq<char>) -> int { obj_find_from(o, k, 0) }
pub open spec fn json_key(v: Value, k: Seq<char>) -> Option<Value> {
    match v { Value::Object(o) => if obj_find(o@, k) >= 0 { Some(o@[obj_find(o@, k)].1) } else { None }, _ => None }
}
pub open spec fn json_idx(v: Value, i: int) -> Option<Value> {
    match v { Value::Array(a) => if 0 <= i < a@.len() { Some(a@[i]) } else { None }, _ => None }
}
pub open spec fn obj_set(o: Seq<(String, Value)>, k: Seq<char>, x: Value) -> Seq<(String, Value)> {
    if obj_find(o, k) >= 0 { o.update(obj_find(o, k), (o[obj_find(o, k)].0, x)) } else { o.push((vx_string(k), x)) }
}
pub trait VxJsonIndex { spec fn jget(self, v: Value) -> Option<Value>; }
impl VxJsonIndex for &str { open spec fn jget(self, v: Value) -> Option<Value> { json_key(v, self@) } }
impl VxJsonIndex for &String { open spec fn jget(self, v: Value) -> Option<Value> { json_key(v, self@) } }
impl VxJsonIndex for usize { open spec fn jget(self, v: Value) -> Option<Value> { json_idx(v, self as int) } }
impl Value {
    #[verifier::external_body]
    pub fn get<'a, I: VxJsonIndex>(&'a self, index: I) -> (r: Option<&'a Value>)
        ensures r is Some == index.jget(*self) is Some, r is Some ==> *(r->0) == index.jget(*self)->0
    { unimplemented!() }
    pub fn as_str<'a>(&'a self) -> (r: Option<&'a str>)
        ensures r is Some == (*self is String), r is Some ==> (r->0)@ == self->String_0@
    { match self { Value::String(s) => Some(s.as_str()), _ => None } }
    pub fn as_array<'a>(&'a self) -> (r: Option<&'a Vec<Value>>)
        ensures r is Some == (*self is Array), r is Some ==> *(r->0) == self->Array_0
    { match self { Value::Array(a) => Some(a), _ => None } }
    pub fn as_object<'a>(&'a self) -> (r: Option<&'a Vec<(String, Value)>>)
        ensures r is Some == (*self is Object), r is Some ==> *(r->0) == self->Object_0
    { match self { Value::Object(a) => Some(a), _ => None } }
    pub fn as_bool(&self) -> (r: Option<bool>)
        ensures r is Some == (*self is Bool), r is Some ==> (r->0) == self->Bool_0
    { match self { Value::Bool(b) => Some(*b), _ => None } }
    #[verifier::external_body]
    pub fn serialize(&self) -> (r: String) ensures r@ == json_text(*self) { unimplemented!() }
}
pub uninterp spec fn json_text(v: Value) -> Seq<char>;
pub uninterp spec fn json_parse(s: Seq<char>) -> Option<Value>;
#[verifier::external_body]
pub fn vx_json_parse(s: &str) -> (r: Result<Value, VxParseError>)
    ensures r is Ok == json_parse(s@) is Some, r is Ok ==> r->Ok_0 == json_parse(s@)->0
{ unimplemented!() }
pub fn from_str(s: &str) -> (r: Result<Value, VxParseError>)
    ensures r is Ok == json_parse(s@) is Some, r is Ok ==> r->Ok_0 == json_parse(s@)->0
{ vx_json_parse(s) }
/// `base[key] = value`: panics unless base is an object
#[verifier::external_body]
pub fn vx_json_set(base: &mut Value, key: &str, x: Value)
    requires *old(base) is Object
    ensures *final(base) is Object, (*final(base))->Object_0@ == obj_set((*old(base))->Object_0@, key@, x)
{ unimplemented!() }
pub trait VxToJson { spec fn tj(&self) -> Value; fn vx_to_json(&self) -> (r: Value) ensures r == self.tj(); }
impl VxToJson for str { open spec fn tj(&self) -> Value { Value::String(vx_string(self@)) } #[verifier::external_body] fn vx_to_json(&self) -> (r: Value) { unimplemented!() } }
impl VxToJson for String { open spec fn tj(&self) -> Value { Value::String(*self) } #[verifier::external_body] fn vx_to_json(&self) -> (r: Value) { unimplemented!() } }
impl VxToJson for Option<String> { open spec fn tj(&self) -> Value { match *self { Some(s) => Value::String(s), None => Value::Null } } #[verifier::external_body] fn vx_to_json(&self) -> (r: Value) { unimplemented!() } }
impl VxToJson for Value { open spec fn tj(&self) -> Value { *self } #[verifier::external_body] fn vx_to_json(&self) -> (r: Value) { unimplemented!() } }
impl VxToJson for bool { open spec fn tj(&self) -> Value { Value::Bool(*self) } #[verifier::external_body] fn vx_to_json(&self) -> (r: Value) { unimplemented!() } }
