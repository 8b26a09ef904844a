// ---- String and str as sequences of characters (assumed contracts of std) ----
#[verifier::external_body]
pub struct Text { x: String }
impl vstd::prelude::View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub broadcast axiom fn text_ext(a: Text, b: Text) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub uninterp spec fn text_with(s: Seq<char>) -> Text;
pub broadcast axiom fn text_with_view(s: Seq<char>) ensures (#[trigger] text_with(s))@ == s;
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn contains_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn space(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
/// s[i..j] is a word: a longest piece without white space
pub open spec fn word_at(s: Seq<char>, w: Seq<char>, i: int, j: int) -> bool {
    &&& 0 <= i < j <= s.len() && s.subrange(i, j) == w
    &&& (i == 0 || space(s[i - 1])) && (j == s.len() || space(s[j]))
    &&& forall|k: int| i <= k < j ==> !space(#[trigger] s[k])
}
pub open spec fn is_word(s: Seq<char>, w: Seq<char>) -> bool { exists|i: int, j: int| word_at(s, w, i, j) }
pub trait Shown { spec fn shown(&self) -> Seq<char>; fn vx_show(&self) -> (r: Text) ensures r@ == self.shown(); }
impl Shown for Text { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show(&self) -> (r: Text) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_cat(a: Text, b: Text) -> (r: Text) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_text(s: &'static str) -> (r: &'static Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_is(s: &Text, l: &'static str) -> (r: bool) ensures r == (s@ == l@) { unimplemented!() }
impl Text {
    #[verifier::external_body]
    pub fn new() -> (r: Text) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &Text) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Text) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Text) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, p: &Text) -> (r: bool) ensures r == begins(self@, p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with(&self, p: &Text) -> (r: bool) ensures r == ends(self@, p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, p: &Text) -> (r: bool) ensures r == exists|i: int| contains_at(self@, p@, i) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_ascii_whitespace(&self) -> (r: Vec<&Text>)
        ensures forall|w: Seq<char>| is_word(self@, w) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == w
    { unimplemented!() }
}
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Text) ensures r == *self { unimplemented!() } }
impl PartialEq for Text { #[verifier::external_body] fn eq(&self, o: &Text) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<Text> for Text {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Text) -> bool { self@ == o@ }
}
impl PartialEq<&Text> for Text { #[verifier::external_body] fn eq(&self, o: &&Text) -> bool { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a Text> for Text {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a Text) -> bool { self@ == o@ }
}
// ---- HashMap<String, V>, HashSet<String> (assumed contracts of std) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Dict<V> { x: core::marker::PhantomData<V> }
impl<V> Dict<V> {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Dict<V>) ensures r.map() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Text) -> (r: Option<&V>)
        ensures match r { Some(v) => self.map().contains_key(k@) && *v == self.map()[k@], None => !self.map().contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Text) -> (r: bool) ensures r == self.map().contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Text) -> (r: Option<V>) ensures final(self).map() == old(self).map().remove(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or(&mut self, k: Text, v: V) -> (r: &mut V)
        ensures *r == (if old(self).map().contains_key(k@) { old(self).map()[k@] } else { v }), final(self).map() == old(self).map().insert(k@, *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Text) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self).map().contains_key(k@) && *v == old(self).map()[k@] && final(self).map() == old(self).map().insert(k@, *final(v)),
            None => !old(self).map().contains_key(k@) && final(self).map() == old(self).map(),
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Names { x: u64 }
impl Names {
    pub uninterp spec fn set(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Names) ensures r.set() == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &Text) -> (r: bool) ensures r == self.set().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: Seq<char>| !self.set().contains(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text) -> (r: bool) ensures final(self).set() == old(self).set().insert(k@), r == !old(self).set().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Text) -> (r: bool) ensures final(self).set() == old(self).set().remove(k@), r == old(self).set().contains(k@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_union(a: &Names, b: &Names) -> (r: Names) ensures r.set() == a.set().union(b.set()) { unimplemented!() }
impl Clone for Names { #[verifier::external_body] fn clone(&self) -> (r: Names) ensures r == *self { unimplemented!() } }
//@type HashSet<String> => Names
