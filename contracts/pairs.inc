// ---- the pairs that the generated parser yields (pest; assumed) ----
/// a pair: the rule it was made by, the text it stands for and the pairs within it, in the order of the text
pub struct P { pub rule: Rule, pub text: Seq<char>, pub inner: Seq<P> }
#[verifier::external_body]
pub struct Pair { x: u64 }
impl vstd::prelude::View for Pair { type V = P; uninterp spec fn view(&self) -> P; }
impl Pair {
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: Rule) ensures r == self@.rule { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'static Text) ensures r@ == self@.text { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Vec<Pair>) ensures r@.len() == self@.inner.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@.inner[i] { unimplemented!() }
}
/// an iterator is the list of what is still to come
pub trait Queue<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(p) => old(self).items().len() > 0 && p == old(self).items()[0] && final(self).items() == old(self).items().skip(1),
            None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
        };
    fn collect(self) -> (r: Vec<T>) ensures r@ == self.items();
}
impl<T> Queue<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn next(&mut self) -> Option<T> { unimplemented!() }
    #[verifier::external_body]
    fn collect(self) -> Vec<T> { unimplemented!() }
}
//@type Pair<Rule> => Pair
pub open spec fn rules(s: Seq<P>, from: int, f: spec_fn(Rule) -> bool) -> bool { forall|i: int| from <= i < s.len() ==> f((#[trigger] s[i]).rule) }
// ---- more of std's str (assumed) ----
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed_start(s: Seq<char>) -> Seq<char>;
/// the pieces of a text between the occurrences of a separator
pub uninterp spec fn pieces(s: Seq<char>, sep: Seq<char>) -> Seq<Seq<char>>;
pub struct ParseError { pub x: u64 }
/// FromStr: the value that a text stands for, none if it is not one
pub trait FromText: Sized { spec fn from_text(s: Seq<char>) -> Option<Self>; }
pub uninterp spec fn count_of(s: Seq<char>) -> Option<usize>;
pub uninterp spec fn byte_of(s: Seq<char>) -> Option<u8>;
impl FromText for usize { open spec fn from_text(s: Seq<char>) -> Option<usize> { count_of(s) } }
impl FromText for u8 { open spec fn from_text(s: Seq<char>) -> Option<u8> { byte_of(s) } }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 }
/// a piece of a text of ASCII characters
#[verifier::external_body]
pub fn vx_slice(s: &Text, a: usize, b: usize) -> (r: &'static Text) requires ascii(s@), a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
/// `u8::from_str_radix(s, 16)`
pub uninterp spec fn hex(s: Seq<char>) -> Option<u8>;
pub axiom fn one_digit(s: Seq<char>) requires s.len() == 1 ensures hex(s) matches Some(v) ==> v < 16;
pub axiom fn no_digit(s: Seq<char>) requires s.len() == 0 ensures hex(s) is None;
#[verifier::external_body]
pub fn vx_u8_radix(s: &Text, radix: u32) -> (r: Result<u8, ParseError>) requires radix == 16 ensures match r { Ok(n) => hex(s@) == Some(n), Err(_) => hex(s@) is None } { unimplemented!() }
impl Text {
    #[verifier::external_body]
    pub fn parse<T: FromText>(&self) -> (r: Result<T, ParseError>) ensures match r { Ok(n) => T::from_text(self@) == Some(n), Err(_) => T::from_text(self@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures ascii(self@) ==> r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn trim(&self) -> (r: &Text) ensures r@ == trimmed(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_start(&self) -> (r: &Text) ensures r@ == trimmed_start(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&self, sep: &Text) -> (r: Vec<&Text>) ensures r@.len() == pieces(self@, sep@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(self@, sep@)[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &Text) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub enum ReaderError { Parsing, EmptyDocument, EmptyStyleSheet }
/// what the generated parser makes of a text, none if it rejects it
pub uninterp spec fn parsed(rule: Rule, s: Seq<char>) -> Option<Seq<P>>;
#[verifier::external_body]
pub fn vx_parse(rule: Rule, s: &Text) -> (r: Result<Vec<Pair>, ReaderError>)
    ensures match r {
        Ok(v) => parsed(rule, s@) matches Some(q) && v@.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] v@[i])@ == q[i],
        Err(e) => parsed(rule, s@) is None && e is Parsing,
    }
{ unimplemented!() }
