use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C01 (and C02, C21): the structure of the model, defined by the places that a template reads
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@include json.inc
//@type Map<String, Value> => Obj
//@item src/view_model.rs Schema
impl Value {
    #[verifier::external_body]
    pub fn as_array_mut(&mut self) -> (r: Option<&mut Vec<Value>>)
        ensures match r { Some(v) => *old(self) == Value::Array(*v) && *final(self) == Value::Array(*final(v)), None => !(*old(self) is Array) && *final(self) == *old(self) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_object_mut(&mut self) -> (r: Option<&mut Obj>)
        ensures match r { Some(v) => *old(self) == Value::Object(*v) && *final(self) == Value::Object(*final(v)), None => !(*old(self) is Object) && *final(self) == *old(self) }
    { unimplemented!() }
}
impl Obj {
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Text) -> (r: bool) ensures r == self.map().contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Text) -> (r: Option<&mut Value>)
        ensures match r {
            Some(v) => old(self).map().contains_key(k@) && *v == old(self).map()[k@] && final(self).map() == old(self).map().insert(k@, *final(v)),
            None => !old(self).map().contains_key(k@) && final(self).map() == old(self).map(),
        }
    { unimplemented!() }
}
/// json!([null]), json!({})
#[verifier::external_body]
pub fn vx_list() -> (r: Value) ensures r is Array, r->Array_0@ =~= seq![Value::Null] { unimplemented!() }
#[verifier::external_body]
pub fn vx_object() -> (r: Value) ensures r is Object, r->Object_0.map() == Map::<Seq<char>, Value>::empty() { unimplemented!() }
pub open spec fn plain(k: Seq<char>) -> bool { forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] != '/' }
/// the words of a pointer, between its slashes
pub uninterp spec fn words(p: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn vx_words<'a>(p: &'a Text) -> (r: Vec<&'a Text>)
    ensures r@.len() == words(p@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == words(p@)[i] && plain(r@[i]@)
{ unimplemented!() }
/// a word that is a number is a position in a list
pub uninterp spec fn position(w: Seq<char>) -> Option<usize>;
#[verifier::external_body]
pub fn vx_position(w: &Text) -> (r: Result<usize, ()>) ensures match r { Ok(n) => position(w@) == Some(n), Err(_) => position(w@) is None } { unimplemented!() }
// ---- the properties ----
/// every list describes its items with one, nothing has a value
pub open spec fn tidy(m: Value) -> bool
    decreases size_of(m) via tidy_dec
{
    match m {
        Value::Array(items) => items@.len() == 1 && tidy(items@[0]),
        Value::Object(o) => forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> plain(k) && tidy(o.map()[k]),
        _ => m is Null,
    }
}
#[via_fn]
proof fn tidy_dec(m: Value) { broadcast use {size_array, size_object}; }
/// what the structure says of a word of a path
pub open spec fn below(m: Value, w: Seq<char>) -> Option<Value> {
    match m {
        Value::Array(items) => if position(w) is Some && items@.len() > 0 { Some(items@[0]) } else { None },
        Value::Object(o) => if position(w) is None && o.map().contains_key(w) { Some(o.map()[w]) } else { None },
        _ => None,
    }
}
/// the structure has the place at the end of the path
pub open spec fn has(m: Value, w: Seq<Seq<char>>) -> bool
    decreases w.len()
{
    w.len() == 0 || (below(m, w[0]) matches Some(x) && has(x, w.drop_first()))
}
/// no place is a list for one path and has fields for the other
pub open spec fn agrees(w: Seq<Seq<char>>, v: Seq<Seq<char>>) -> bool
    decreases w.len()
{
    w.len() == 0 || v.len() == 0 || ((position(w[0]) is Some) == (position(v[0]) is Some) && ((position(w[0]) is Some || w[0] == v[0]) ==> agrees(w.drop_first(), v.drop_first())))
}
/// the places that the structure had, it has
pub open spec fn keeps(a: Value, b: Value, v: Seq<Seq<char>>) -> bool { forall|w: Seq<Seq<char>>| #[trigger] has(a, w) && agrees(w, v) ==> has(b, w) }
pub open spec fn places(v: Seq<Seq<char>>, i: int) -> Seq<Seq<char>> { v.subrange(i, v.len() as int) }
proof fn empty_tidy() ensures tidy(Value::Null) {}
/// one word further
proof fn step(p0: Value, p1: Value, c0: Value, c1: Value, v: Seq<Seq<char>>)
    requires
        v.len() > 0, plain(v[0]), tidy(p0),
        match below(p0, v[0]) { Some(x) => c0 == x, None => c0 is Null },
        below(p1, v[0]) == Some(c1),
        match p1 {
            Value::Array(b) => position(v[0]) is Some && b@.len() == 1,
            Value::Object(o) => position(v[0]) is None && (forall|k: Seq<char>| k != v[0] ==> (#[trigger] o.map().contains_key(k) == (p0 is Object && p0->Object_0.map().contains_key(k))) && (o.map().contains_key(k) ==> o.map()[k] == p0->Object_0.map()[k])),
            _ => false,
        },
    ensures
        has(c1, v.drop_first()) ==> has(p1, v),
        tidy(c1) ==> tidy(p1),
        keeps(c0, c1, v.drop_first()) ==> keeps(p0, p1, v),
{
    broadcast use {size_array, size_object};
    if keeps(c0, c1, v.drop_first()) {
        assert forall|w: Seq<Seq<char>>| #[trigger] has(p0, w) && agrees(w, v) implies has(p1, w) by {
            if w.len() > 0 {
                if position(w[0]) is Some || w[0] == v[0] {
                    assert(below(p0, w[0]) == below(p0, v[0]));
                    assert(has(c0, w.drop_first()) && agrees(w.drop_first(), v.drop_first()));
                    assert(below(p1, w[0]) == below(p1, v[0]));
                } else {
                    assert(p0 is Object);
                    assert(below(p1, w[0]) == below(p0, w[0]));
                }
            }
        }
    }
    if tidy(c1) {
        match p1 {
            Value::Array(b) => { assert(p1->Array_0 == b); }
            Value::Object(o) => {
                assert(p1->Object_0 == o);
                assert forall|k: Seq<char>| #[trigger] o.map().contains_key(k) implies plain(k) && tidy(o.map()[k]) by { if k != v[0] { assert(p0->Object_0.map().contains_key(k)); } }
            }
            _ => {}
        }
    }
}
impl Schema {
//@const src/view_model.rs Schema::THIS vx_this &'static Text
    ensures r@ == "/this"@
//@end
//@fn src/view_model.rs Schema::define_value
//@rewrite json!([null]) => vx_list()
//@rewrite json!({}) => vx_object()
//@rewrite pointer.split('/').skip(1) => vx_words(pointer)
//@rewrite token.parse::<usize>() => vx_position(token)
//@rewrite Schema::THIS => Schema::vx_this()
    requires tidy(*old(target)),
    ensures
        tidy(*final(target)),
        pointer@ != "/this"@ ==> has(*final(target), words(pointer@)),
        keeps(*old(target), *final(target), words(pointer@)),
//@start
    let ghost m0 = *target;
    let ghost m1 = *final(target);
    let ghost v = words(pointer@);
//@loop 0 before
    proof { assert(places(v, 0) =~= v); }
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] __vx_c0@[i])@ == v[i] && plain(v[i]),
        tidy(*target),
        tidy(*final(target)) ==> tidy(m1),
        has(*final(target), places(v, __vx_i0 as int)) ==> has(m1, v),
        keeps(*target, *final(target), places(v, __vx_i0 as int)) ==> keeps(m0, m1, v),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    let ghost p0 = *target;
    let ghost p1 = *final(target);
    let ghost rest = places(v, __vx_i0 as int);
    proof { broadcast use {size_array, size_object}; assert(rest[0] == v[__vx_i0 as int]); assert(rest.drop_first() =~= places(v, __vx_i0 + 1)); }
//@loop 0 end
    proof { step(p0, p1, *target, *final(target), rest); }
//@end
}
}
fn main() {}
