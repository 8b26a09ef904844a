// ---- bindings, values as text/truth/count, reactions ----
//@type Transformer => Func
//@type Bindings => Dict<Vec<Binding>>
//@type HashMap<String, Transformer> => Dict<Func>
//@item src/view_model.rs Reaction
//@item src/view_model.rs BindingParams
//@item src/view_model.rs Binding
/// a registered transformer: a function of its argument
#[verifier::external_body]
pub struct Func { x: u64 }
impl Func {
    pub uninterp spec fn call(&self, v: Value) -> Value;
    #[verifier::external_body]
    pub fn vx_call(&self, v: Value) -> (r: Value) ensures r == self.call(v) { unimplemented!() }
}
impl Clone for BindingParams { #[verifier::external_body] fn clone(&self) -> (r: BindingParams) ensures r == *self { unimplemented!() } }
impl F { #[verifier::external_body] pub fn vx_to_u64(self) -> (r: u64) ensures r == cut(self@, u64::MAX as int) { unimplemented!() } }
/// `str::parse::<u64>`: Some for decimal digits in range
pub uninterp spec fn decimal(s: Seq<char>) -> Option<u64>;
impl Text {
    /// length in bytes
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures (r == 0) == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: FromText>(&self) -> (r: Result<T, ()>) ensures T::parsed(self@, r) { unimplemented!() }
}
pub trait FromText: Sized { spec fn parsed(s: Seq<char>, r: Result<Self, ()>) -> bool; }
impl FromText for u64 { open spec fn parsed(s: Seq<char>, r: Result<u64, ()>) -> bool { match decimal(s) { Some(n) => r == Ok::<u64, ()>(n), None => r is Err } } }
global size_of usize == 8;
// ---- the property ----
pub open spec fn truth(v: Value) -> bool {
    match v {
        Value::Null => false,
        Value::Bool(b) => b,
        Value::Number(n) => n.val() != 0.0real,
        Value::String(s) => s@.len() > 0,
        Value::Array(a) => a@.len() > 0,
        Value::Object(_) => true,
    }
}
pub open spec fn text_of(v: Value) -> Seq<char> {
    match v {
        Value::Null => Seq::<char>::empty(),
        Value::Bool(b) => b.shown(),
        Value::Number(n) => n.shown(),
        Value::String(s) => s@,
        Value::Array(_) => "[array]"@,
        Value::Object(_) => "{object}"@,
    }
}
pub open spec fn count_of(v: Value) -> int {
    match v {
        Value::Bool(b) => if b { 1 } else { 0 },
        Value::Number(n) => cut(n.val(), u64::MAX as int),
        Value::String(s) => match decimal(s@) { Some(n) => n as int, None => 0 },
        _ => 0,
    }
}
pub open spec fn items_of(v: Value) -> int { match v { Value::Array(a) => a@.len() as int, _ => 0 } }
/// the reaction that makes the binding show the value
pub open spec fn reacts(p: BindingParams, v: Value, r: Reaction) -> bool {
    match p {
        BindingParams::Text(n, i) => match r { Reaction::Type { node, span, text } => node == n && span == i && text@ == text_of(v), _ => false },
        BindingParams::Visibility(p0, n, polarity) => r == (Reaction::Reattach { parent: p0, node: n, visible: truth(v) == polarity }),
        BindingParams::Attribute(n, k, i) => match r { Reaction::Bind { node, key, span, text } => node == n && key == k && span == i && text@ == text_of(v), _ => false },
        BindingParams::Tag(n, k) => r == (Reaction::Tag { node: n, key: k, tag: truth(v) }),
        BindingParams::Repeat(p0, s, size) => match r {
            Reaction::Repeat { parent, start, cursor, end } => parent == p0 && start == s && end == s + size && cursor == s + if items_of(v) < size { items_of(v) } else { size as int },
            _ => false,
        },
    }
}
pub open spec fn fits(b: Binding) -> bool {
    match b.params { BindingParams::Repeat(_, start, size) => start + size + 3 <= usize::MAX, _ => true }
}
pub open spec fn all_fit(b: Map<Seq<char>, Vec<Binding>>) -> bool { forall|p: Seq<char>, i: int| 0 <= i < bound(b, p).len() ==> fits(#[trigger] bound(b, p)[i]) }
/// a value through the first n transformers of a pipe; an unknown one changes nothing
pub open spec fn piped(v: Value, pipe: Seq<Text>, n: int, t: Map<Seq<char>, Func>) -> Value
    decreases n
{
    if n <= 0 || n > pipe.len() { v } else {
        let w = piped(v, pipe, n - 1, t);
        if t.contains_key(pipe[n - 1]@) { t[pipe[n - 1]@].call(w) } else { w }
    }
}
pub open spec fn shows(b: Binding, v: Value, t: Map<Seq<char>, Func>, r: Reaction) -> bool { reacts(b.params, piped(v, b.pipe@, b.pipe@.len() as int, t), r) }
pub open spec fn bound(bindings: Map<Seq<char>, Vec<Binding>>, path: Seq<char>) -> Seq<Binding> { if bindings.contains_key(path) { bindings[path]@ } else { Seq::empty() } }
