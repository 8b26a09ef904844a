// ---- serde_json::Value (assumed contracts of the dependency): a finite tree; equal values are interchangeable ----
pub enum Value { Null, Bool(bool), Number(Number), String(Text), Array(Vec<Value>), Object(Obj) }
#[verifier::external_body]
pub struct Number { x: u64 }
impl Number {
    /// the number itself (machine arithmetic treated as mathematical)
    pub uninterp spec fn val(&self) -> real;
    pub uninterp spec fn int(&self) -> Option<u64>;
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>) ensures r == self.int(), r matches Some(n) ==> self.val() == n as real { unimplemented!() }
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<F>) ensures r is Some, r->0@ == self.val() { unimplemented!() }
}
/// JSON text of a number or a boolean
pub uninterp spec fn number_text(n: Number) -> Seq<char>;
impl Shown for Number { open spec fn shown(&self) -> Seq<char> { number_text(*self) } #[verifier::external_body] fn vx_show(&self) -> (r: Text) { unimplemented!() } }
impl Shown for bool { open spec fn shown(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } #[verifier::external_body] fn vx_show(&self) -> (r: Text) { unimplemented!() } }
/// an object: distinct keys in a fixed order and their values
#[verifier::external_body]
pub struct Obj { x: u64 }
impl Obj {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, Value>;
    pub uninterp spec fn keys(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Obj) ensures r.map() == Map::<Seq<char>, Value>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Text) -> (r: Option<&Value>)
        ensures match r { Some(v) => self.map().contains_key(k@) && *v == self.map()[k@], None => !self.map().contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: Value) -> (r: Option<Value>) ensures final(self).map() == old(self).map().insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.keys().len() { unimplemented!() }
}
pub broadcast axiom fn obj_keys(o: Obj)
    ensures (#[trigger] o.keys()).no_duplicates(), forall|k: Seq<char>| #[trigger] o.map().contains_key(k) <==> o.keys().contains(k);
pub broadcast axiom fn obj_ext(a: Obj, b: Obj) requires #[trigger] a.map() == #[trigger] b.map() ensures a == b;
/// the i-th entry, to be changed
#[verifier::external_body]
pub fn vx_entry_mut<'a>(o: &'a mut Obj, i: usize) -> (r: (&'a Text, &'a mut Value))
    requires i < old(o).keys().len(),
    ensures
        (r.0)@ == old(o).keys()[i as int], *(r.1) == old(o).map()[(r.0)@],
        final(o).map() == old(o).map().insert((r.0)@, *final(r.1)), final(o).keys() == old(o).keys(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_entry<'a>(o: &'a Obj, i: usize) -> (r: (&'a Text, &'a Value))
    requires i < o.keys().len(),
    ensures (r.0)@ == o.keys()[i as int], *(r.1) == o.map()[(r.0)@],
{ unimplemented!() }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
impl PartialEq for Value { #[verifier::external_body] fn eq(&self, o: &Value) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<Value> for Value {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Value) -> bool { *self == *o }
}
// a JSON value is finite
pub uninterp spec fn size_of(v: Value) -> nat;
pub broadcast axiom fn size_array(a: Vec<Value>, i: int)
    requires 0 <= i < a@.len(), ensures #[trigger] size_of(a@[i]) < (#[trigger] size_of(Value::Array(a)));
pub broadcast axiom fn size_object(o: Obj, k: Seq<char>)
    requires o.map().contains_key(k), ensures #[trigger] size_of(o.map()[k]) < (#[trigger] size_of(Value::Object(o)));
pub broadcast axiom fn size_null(o: Obj) ensures size_of(Value::Null) == 0, 0 < (#[trigger] size_of(Value::Object(o)));
impl Value {
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (self is Null) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_array(&self) -> (r: bool) ensures r == (self is Array) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_object(&self) -> (r: bool) ensures r == (self is Object) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures match r { Some(a) => *self == Value::Array(*a), None => !(self is Array) } { unimplemented!() }
}
