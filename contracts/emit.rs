use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C08: the message of a delivered event
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@include json.inc
//@include reacts.inc
//@type Map<String, Value> => Obj
//@type HashMap<String, Handler> => Dict<Handler>
//@item src/element.rs HandlerArgument
//@item src/element.rs Handler
//@item src/element.rs Element keep node,listeners
//@item src/output.rs Output keep messages
//@item src/view_model.rs ViewModel keep model,transformers,output
use Obj as Map_;
/// the data at a JSON pointer (RFC 6901)
pub uninterp spec fn data_at(v: Value, path: Seq<char>) -> Option<Value>;
/// an event as JSON, none when it cannot be serialized
pub trait Serialize { spec fn json(&self) -> Option<Value>; }
#[verifier::external_body]
pub fn vx_json<T: Serialize>(e: &T) -> (r: Result<Value, ()>) ensures match r { Ok(v) => e.json() == Some(v), Err(_) => e.json() is None } { unimplemented!() }
pub struct Found<'a> { pub v: Option<&'a Value> }
impl Value {
    #[verifier::external_body]
    pub fn pointer(&self, path: &Text) -> (r: Found<'_>) ensures match r.v { Some(v) => data_at(*self, path@) == Some(*v), None => data_at(*self, path@) is None } { unimplemented!() }
//@fn src/value.rs ValueExtensions for Value::eval_string
//@option shown
//@ret r
    ensures r@ == text_of(*self),
//@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
}
impl<'a> Found<'a> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Option<Value>) ensures match self.v { Some(v) => r == Some(*v), None => r is None } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_first<T>(v: Vec<T>) -> (r: T) requires v@.len() > 0 ensures r == v@[0] { unimplemented!() }
// ---- the property ----
/// what an argument of a handler stands for
pub open spec fn argument(a: HandlerArgument, event: Option<Value>, model: Value, t: Map<Seq<char>, Func>) -> Option<Value> {
    match a {
        HandlerArgument::Keyword(k) => Some(Value::String(k)),
        HandlerArgument::Event => event,
        HandlerArgument::Binder { path, pipe } => match data_at(model, path@) { Some(v) => Some(piped(v, pipe@, pipe@.len() as int, t)), None => None },
    }
}
/// the arguments after the first that stand for data, in order
pub open spec fn others(a: Seq<HandlerArgument>, n: int, event: Option<Value>, model: Value, t: Map<Seq<char>, Func>) -> Seq<Value>
    decreases n
{
    if n <= 1 || n > a.len() { Seq::empty() } else {
        let s = others(a, n - 1, event, model, t);
        match argument(a[n - 1], event, model, t) { Some(v) => s.push(v), None => s }
    }
}
pub open spec fn name_of(a: Seq<HandlerArgument>, event: Option<Value>, model: Value, t: Map<Seq<char>, Func>) -> Seq<char> {
    if a.len() == 0 { "Undefined"@ } else { match argument(a[0], event, model, t) { Some(v) => text_of(v), None => "Undefined"@ } }
}
pub open spec fn message_of(name: Seq<char>, rest: Seq<Value>, m: Value) -> bool {
    if rest.len() == 0 { match m { Value::String(s) => s@ == name, _ => false } }
    else { match m {
        Value::Object(o) => {
            &&& forall|k: Seq<char>| #[trigger] o.map().contains_key(k) <==> k == name
            &&& if rest.len() == 1 { o.map()[name] == rest[0] } else { match o.map()[name] { Value::Array(a) => a@ == rest, _ => false } }
        },
        _ => false,
    } }
}
impl ViewModel {
//@fn src/view_model.rs ViewModel::emit
//@generics <T: Serialize>
//@option ref pipe
//@rewrite transform(value) => transform.vx_call(value)
//@rewrite serde_json::to_value(&event) => vx_json(&event)
//@rewrite Map::new() => Obj::new()
//@rewrite arguments.into_iter().next().expect("one argument") => vx_first(arguments)
    ensures
        final(self).model == old(self).model, final(self).transformers == old(self).transformers,
        ({
            let l = element.listeners.map();
            let m0 = old(self).output.messages@;
            let m1 = final(self).output.messages@;
            if l.contains_key(handler@) {
                let a = l[handler@].arguments@;
                &&& m1.len() == m0.len() + 1 && m1.subrange(0, m0.len() as int) == m0
                &&& message_of(name_of(a, event.json(), old(self).model, old(self).transformers.map()), others(a, a.len() as int, event.json(), old(self).model, old(self).transformers.map()), m1.last())
            } else { m1 == m0 }
        }),
//@start
    let ghost m0 = self.output.messages@;
    let ghost t = self.transformers.map();
    let ghost md = self.model;
    let ghost ev = event.json();
//@loop 0
    invariant
        0 <= __vx_i0 <= __vx_c0@.len(), t == self.transformers.map(), md == self.model, ev == event.json(), self.output.messages@ == m0,
        arguments@ == others(__vx_c0@, __vx_i0 as int, ev, md, t),
        __vx_i0 == 0 ==> key@ == "Undefined"@,
        __vx_i0 > 0 ==> key@ == name_of(__vx_c0@, ev, md, t),
    decreases __vx_c0@.len() - __vx_i0,
//@loop 1
    invariant 0 <= __vx_i1 <= __vx_c1@.len(), t == self.transformers.map(), md == self.model, ev == event.json(), data_at(md, path@) is Some,
        pipe == __vx_c1,
        value == piped(data_at(md, path@)->0, __vx_c1@, __vx_i1 as int, t),
    decreases __vx_c1@.len() - __vx_i1,
//@end
}
}
fn main() {}
