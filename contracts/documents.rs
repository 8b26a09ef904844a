use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C24, C25 (and C21, C22): documents are read without loss, from the pairs that the generated parser yields
//@texts
//@include prelude.inc
//@include texts.inc
//@grammar src/html/html.pest
Document = _{ SOI ~ Content+ ~ EOI }
Content = _{ Script | Void | Text | Element }
Element = { "<" ~ Tag ~ Attributes ~ ">" ~ Children ~ "<" ~ "/" ~ Tag ~ ">" }
Script = { "<script>" ~ (!"</script>" ~ ANY)* ~ "</script>" }
Children = { Content* }
Void = { "<" ~ VoidTag ~ Attributes ~ ("/")? ~ ">" }
Tag = @{ TChar+ }
Text = ${ (Binder | String)+ }
String = @{ SChar+ }
Attributes = { Attribute* }
Attribute = _{ RepeatBinding | AliasBinding | TagBinding | AttributeBinding | CallbackBinding | VisibilityBinding | DoubleQuoted | Unquoted | Empty }
AliasBinding = { "+" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
TagBinding = { "#" ~ Key ~ "=" ~ "\"" ~ Binder ~ "\"" }
AttributeBinding = ${ "@" ~ Key ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ (Binder | DoubleQuotedAttributeString)+ ~ "\"" }
DoubleQuotedAttributeString = @{ DoubleQuotedAttributeChar+ }
CallbackBinding = { "^" ~ Key ~ "=" ~ "\"" ~ (Event | Binder | Key)* ~ "\"" }
Event = { "$event" }
VisibilityBinding = { Visible ~ "=" ~ "\"" ~ Binder ~ "\"" }
Visible = { "?" | "!" }
RepeatBinding = { "*" ~ Key ~ "=" ~ "\"" ~ Count ~ Binder ~ "\"" }
DoubleQuoted = ${ Name ~ WHITESPACE* ~ "=" ~ WHITESPACE* ~ "\"" ~ Value ~ "\"" }
Unquoted = { Name ~ "=" ~ UnquotedValue }
Empty = { Name }
Name = @{ NChar+ }
Binder = !{ "{" ~ Getter ~ ("|" ~ Transformer)* ~ "}" }
Getter = { Key ~ ("." ~ Key)* }
Transformer = { Key ~ (":" ~ Getter)* }
Key = @{ KChar+ }
Value = @{ VChar* }
UnquotedValue = @{ UChar+ }
//@end
//@include pairs.inc
/// what the grammar says about the pairs within a pair
pub open spec fn shaped(p: P) -> bool {
    let s = p.inner;
    match p.rule {
        Rule::Element => s.len() == 4 && s[0].rule == Rule::Tag && s[1].rule == Rule::Attributes && s[2].rule == Rule::Children && s[3].rule == Rule::Tag,
        Rule::Void => s.len() == 2 && s[0].rule == Rule::VoidTag && s[1].rule == Rule::Attributes,
        Rule::Children => rules(s, 0, |r: Rule| is_content(r)),
        Rule::Attributes => rules(s, 0, |r: Rule| is_attribute(r)),
        Rule::Text => rules(s, 0, |r: Rule| r == Rule::Binder || r == Rule::String) && s.len() > 0,
        Rule::RepeatBinding => s.len() == 3 && s[0].rule == Rule::Key && s[1].rule == Rule::Count && s[2].rule == Rule::Binder,
        Rule::AliasBinding | Rule::TagBinding => s.len() == 2 && s[0].rule == Rule::Key && s[1].rule == Rule::Binder,
        Rule::AttributeBinding => s.len() > 1 && s[0].rule == Rule::Key && rules(s, 1, |r: Rule| r == Rule::Binder || r == Rule::DoubleQuotedAttributeString),
        Rule::CallbackBinding => s.len() > 0 && s[0].rule == Rule::Key && rules(s, 1, |r: Rule| r == Rule::Binder || r == Rule::Event || r == Rule::Key),
        Rule::VisibilityBinding => s.len() == 2 && s[0].rule == Rule::Visible && s[1].rule == Rule::Binder && (s[0].text == "?"@ || s[0].text == "!"@),
        Rule::DoubleQuoted => s.len() == 2 && s[0].rule == Rule::Name && s[1].rule == Rule::Value,
        Rule::Unquoted => s.len() == 2 && s[0].rule == Rule::Name && s[1].rule == Rule::UnquotedValue,
        Rule::Empty => s.len() == 1 && s[0].rule == Rule::Name,
        Rule::Binder => s.len() > 0 && s[0].rule == Rule::Getter && rules(s, 1, |r: Rule| r == Rule::Transformer),
        Rule::Getter => s.len() > 0 && rules(s, 0, |r: Rule| r == Rule::Key),
        _ => true,
    }
}
pub open spec fn is_content(r: Rule) -> bool { r == Rule::Script || r == Rule::Void || r == Rule::Text || r == Rule::Element }
pub open spec fn is_attribute(r: Rule) -> bool {
    r == Rule::RepeatBinding || r == Rule::AliasBinding || r == Rule::TagBinding || r == Rule::AttributeBinding || r == Rule::CallbackBinding || r == Rule::VisibilityBinding
        || r == Rule::DoubleQuoted || r == Rule::Unquoted || r == Rule::Empty
}
/// a pair and all within it are as the grammar says
pub open spec fn conforms(p: P) -> bool decreases p { shaped(p) && forall|i: int| 0 <= i < p.inner.len() ==> conforms(#[trigger] p.inner[i]) }
pub proof fn within(p: P, i: int) requires conforms(p), 0 <= i < p.inner.len() ensures conforms(p.inner[i]), shaped(p.inner[i]), shaped(p), decreases_to!(p => p.inner[i]) {}
//@item src/view_model.rs Binder
//@item src/html/reader.rs CallbackArgument
//@item src/html/reader.rs TextSpan
//@item src/html/reader.rs TextBinding
//@item src/html/reader.rs ElementBinding
//@item src/html/reader.rs Html
impl Clone for TextSpan { #[verifier::external_body] fn clone(&self) -> (r: TextSpan) ensures r == *self { unimplemented!() } }

// ---- what the pairs mean ----
pub open spec fn texts_are(v: Vec<Text>, s: Seq<P>, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v@[i])@ == s[i].text }
pub open spec fn trims_are(v: Vec<Text>, s: Seq<P>, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v@[i])@ == trimmed(s[i].text) }
pub open spec fn binder_is(b: Binder, p: P) -> bool {
    texts_are(b.path, p.inner[0].inner, p.inner[0].inner.len() as int) && trims_are(b.pipe, p.inner.skip(1), p.inner.len() - 1)
}
/// a part of a bound attribute
pub open spec fn span_is(s: TextSpan, p: P) -> bool {
    match s { TextSpan::String(t) => p.rule == Rule::DoubleQuotedAttributeString && t@ == p.text, TextSpan::Binder(b) => p.rule == Rule::Binder && binder_is(b, p) }
}
pub open spec fn argument_is(a: CallbackArgument, p: P) -> bool {
    match a { CallbackArgument::Keyword(t) => p.rule == Rule::Key && t@ == p.text, CallbackArgument::Event => p.rule == Rule::Event, CallbackArgument::Binder(b) => p.rule == Rule::Binder && binder_is(b, p) }
}
pub open spec fn spans_are_to(v: Vec<TextSpan>, q: P, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> span_is(#[trigger] v@[i], q.inner[i + 1]) }
pub open spec fn arguments_are_to(v: Vec<CallbackArgument>, q: P, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> argument_is(#[trigger] v@[i], q.inner[i + 1]) }
pub open spec fn binding_is(b: ElementBinding, p: P) -> bool {
    let s = p.inner;
    match p.rule {
        Rule::RepeatBinding => b matches ElementBinding::Repeat(name, count, x) && name@ == s[0].text && count == (match count_of(s[1].text) { Some(n) => n, None => 0 }) && binder_is(x, s[2]),
        Rule::AliasBinding => b matches ElementBinding::Alias(name, x) && name@ == s[0].text && binder_is(x, s[1]),
        Rule::TagBinding => b matches ElementBinding::Tag(name, x) && name@ == s[0].text && binder_is(x, s[1]),
        Rule::AttributeBinding => b matches ElementBinding::Attribute(name, x) && name@ == s[0].text && x.spans@.len() == s.len() - 1
            && forall|i: int| 0 <= i < s.len() - 1 ==> span_is(#[trigger] x.spans@[i], s[i + 1]),
        Rule::CallbackBinding => b matches ElementBinding::Callback(name, x) && name@ == s[0].text && x@.len() == s.len() - 1
            && forall|i: int| 0 <= i < s.len() - 1 ==> argument_is(#[trigger] x@[i], s[i + 1]),
        Rule::VisibilityBinding => b matches ElementBinding::Visibility(visible, x) && visible == (s[0].text == "?"@) && binder_is(x, s[1]),
        Rule::Empty => b matches ElementBinding::None(name, value) && name@ == s[0].text && value@.len() == 0,
        _ => b matches ElementBinding::None(name, value) && name@ == s[0].text && value@ == s[1].text,
    }
}
pub open spec fn bindings_are_to(b: Vec<ElementBinding>, p: P, n: int) -> bool { b@.len() == n && forall|i: int| 0 <= i < n ==> binding_is(#[trigger] b@[i], p.inner[i]) }
pub open spec fn bindings_are(b: Seq<ElementBinding>, p: P) -> bool { b.len() == p.inner.len() && forall|i: int| 0 <= i < b.len() ==> binding_is(#[trigger] b[i], p.inner[i]) }
/// the lines of a text as one: a line break and the white space after it are one space, none at the very end
pub open spec fn as_one(lines: Seq<Seq<char>>, n: int, ends: bool) -> Seq<char> decreases n {
    if n <= 0 || n > lines.len() { Seq::empty() }
    else if n == 1 { lines[0] }
    else {
        let line = trimmed_start(lines[n - 1]);
        if line.len() == 0 && ends { as_one(lines, n - 1, ends) } else { as_one(lines, n - 1, ends).push(' ') + line }
    }
}
pub open spec fn read_text(p: P, ends: bool) -> Seq<char> { let lines = pieces(p.text, "\n"@); as_one(lines, lines.len() as int, ends) }
pub ghost enum Span { Words(Seq<char>), Data(P) }
/// the parts of a text in order, those without any character left out
pub open spec fn parts(s: Seq<P>, n: int, last: bool) -> Seq<Span> decreases n {
    if n <= 0 || n > s.len() { Seq::empty() }
    else {
        let (before, p) = (parts(s, n - 1, last), s[n - 1]);
        if p.rule == Rule::Binder { before.push(Span::Data(p)) }
        else { let t = read_text(p, last && n == s.len()); if t.len() == 0 { before } else { before.push(Span::Words(t)) } }
    }
}
/// the part of a text that a pair is, before its lines are joined
pub open spec fn whole(s: TextSpan, p: P) -> bool { match s { TextSpan::String(t) => p.rule == Rule::String && t@ == p.text, TextSpan::Binder(b) => p.rule == Rule::Binder && binder_is(b, p) } }
pub open spec fn part_is(s: TextSpan, p: Span) -> bool { match (s, p) { (TextSpan::String(t), Span::Words(w)) => t@ == w, (TextSpan::Binder(b), Span::Data(d)) => binder_is(b, d), _ => false } }
pub open spec fn text_is(t: TextBinding, p: P, last: bool) -> bool {
    parts_are(t.spans, parts(p.inner, p.inner.len() as int, last))
}
pub open spec fn wholes_to(v: Vec<TextSpan>, p: P, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> whole(#[trigger] v@[i], p.inner[i]) }
pub open spec fn parts_are(v: Vec<TextSpan>, s: Seq<Span>) -> bool { v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> part_is(#[trigger] v@[i], s[i]) }
pub open spec fn children_are_to(v: Vec<Html>, s: Seq<P>, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> html_is(#[trigger] v@[i], s[i], i + 1 == s.len()) }
/// the element or text that a pair stands for; `last`: nothing follows it in its element
pub open spec fn html_is(h: Html, p: P, last: bool) -> bool decreases p {
    match p.rule {
        Rule::Element => {
            &&& h.tag@ == p.inner[0].text && h.text is None && bindings_are(h.bindings@, p.inner[1])
            &&& h.children@.len() == p.inner[2].inner.len()
            &&& forall|i: int| #![trigger h.children@[i]] 0 <= i < h.children@.len() && p.inner.len() == 4 ==> html_is(h.children@[i], p.inner[2].inner[i], i + 1 == h.children@.len())
        }
        Rule::Text => h.tag@.len() == 0 && h.bindings@.len() == 0 && h.children@.len() == 0 && (h.text matches Some(t) && text_is(t, p, last)),
        Rule::Void => h.tag@ == p.inner[0].text && h.text is None && h.children@.len() == 0 && bindings_are(h.bindings@, p.inner[1]),
        _ => h.tag@ == "script"@ && h.text is None && h.children@.len() == 0 && h.bindings@.len() == 0,
    }
}
/// the parser begins with the content of the document
pub axiom fn document(s: Seq<char>) ensures parsed(Rule::Document, s) matches Some(q) ==> q.len() > 0 && is_content(q[0].rule) && conforms(q[0]);
//@fn src/html/reader.rs parse_binder
//@ret r
    requires conforms(pair@), pair@.rule == Rule::Binder,
    ensures binder_is(r, pair@),
//@start
    let ghost p = pair@;
    proof { assert(shaped(p)); }
//@loop 0
    invariant
        p == pair@, conforms(p), p.rule == Rule::Binder, shaped(p), 0 <= __vx_i0 <= __vx_c0@.len(), __vx_c0@.len() == p.inner.len(),
        forall|i: int| 0 <= i < p.inner.len() ==> (#[trigger] __vx_c0@[i])@ == p.inner[i],
        __vx_i0 > 0 ==> texts_are(path, p.inner[0].inner, p.inner[0].inner.len() as int),
        __vx_i0 == 0 ==> trims_are(pipe, p.inner.skip(1), 0), __vx_i0 > 0 ==> trims_are(pipe, p.inner.skip(1), __vx_i0 - 1),
    decreases __vx_c0@.len() - __vx_i0,
//@loop 0 start
    let ghost q = __vx_c0@[__vx_i0 as int]@;
    proof { within(p, __vx_i0 as int); }
//@loop 1
    invariant
        0 <= __vx_i1 <= __vx_c1@.len(), __vx_c1@.len() == q.inner.len(), forall|i: int| 0 <= i < q.inner.len() ==> (#[trigger] __vx_c1@[i])@ == q.inner[i],
        texts_are(__vx_r1, q.inner, __vx_i1 as int),
    decreases __vx_c1@.len() - __vx_i1,
//@end
//@fn src/html/reader.rs parse_element_bindings
//@ret r
    requires conforms(pair@), pair@.rule == Rule::Attributes,
    ensures bindings_are(r@, pair@),
//@start
    let ghost p = pair@;
    proof { assert(shaped(p)); reveal_strlit("?"); reveal_strlit("!"); assert("?"@[0] != "!"@[0]); }
//@loop 0
    invariant
        "?"@ != "!"@,
        p == pair@, conforms(p), p.rule == Rule::Attributes, shaped(p), 0 <= __vx_i0 <= __vx_c0@.len(), __vx_c0@.len() == p.inner.len(),
        forall|i: int| 0 <= i < p.inner.len() ==> (#[trigger] __vx_c0@[i])@ == p.inner[i],
        bindings_are_to(bindings, p, __vx_i0 as int),
    decreases __vx_c0@.len() - __vx_i0,
//@loop 0 start
    let ghost q = __vx_c0@[__vx_i0 as int]@;
    proof {
        within(p, __vx_i0 as int);
        if q.inner.len() > 0 { within(q, 0); }
        if q.inner.len() > 1 { within(q, 1); }
        if q.inner.len() > 2 { within(q, 2); }
        reveal_strlit("");
    }
//@loop 0 end
    proof {
        let b = bindings@[__vx_i0 - 1];
        assert(q.rule == Rule::RepeatBinding ==> binding_is(b, q));
        assert(q.rule == Rule::AliasBinding ==> binding_is(b, q));
        assert(q.rule == Rule::TagBinding ==> binding_is(b, q));
        assert(q.rule == Rule::AttributeBinding ==> binding_is(b, q));
        assert(q.rule == Rule::CallbackBinding ==> binding_is(b, q));
        assert(q.rule == Rule::VisibilityBinding ==> binding_is(b, q));
        assert(q.rule == Rule::Empty ==> binding_is(b, q));
        assert(q.rule == Rule::DoubleQuoted ==> binding_is(b, q));
        assert(q.rule == Rule::Unquoted ==> binding_is(b, q));
    }
//@loop 1
    invariant
        conforms(q), shaped(q), q.rule == Rule::AttributeBinding, 0 <= __vx_i1 <= __vx_c1@.len(), __vx_c1@.len() == q.inner.len() - 1,
        forall|i: int| 0 <= i < __vx_c1@.len() ==> (#[trigger] __vx_c1@[i])@ == q.inner[i + 1],
        spans_are_to(spans, q, __vx_i1 as int),
    decreases __vx_c1@.len() - __vx_i1,
//@loop 1 start
    proof { within(q, __vx_i1 + 1); }
//@loop 2
    invariant
        conforms(q), shaped(q), q.rule == Rule::CallbackBinding, 0 <= __vx_i2 <= __vx_c2@.len(), __vx_c2@.len() == q.inner.len() - 1,
        forall|i: int| 0 <= i < __vx_c2@.len() ==> (#[trigger] __vx_c2@[i])@ == q.inner[i + 1],
        arguments_are_to(arguments, q, __vx_i2 as int),
    decreases __vx_c2@.len() - __vx_i2,
//@loop 2 start
    proof { within(q, __vx_i2 + 1); }
//@end
//@fn src/html/reader.rs parse_content
//@rewrite HashMap::new() => Dict::<Text>::new()
//@ret r
    requires conforms(pair@), is_content(pair@.rule),
    ensures html_is(r, pair@, is_last_content),
    decreases pair@,
//@start
    let ghost p = pair@;
    proof { reveal_strlit(""); assert(shaped(p)); if p.rule == Rule::Element { within(p, 0); within(p, 1); within(p, 2); } if p.rule == Rule::Void { within(p, 0); within(p, 1); } }
//@loop 0
    invariant 0 <= __vx_i0 <= __vx_c0@.len(),
    decreases __vx_c0@.len() - __vx_i0,
//@loop 1
    invariant
        p == pair@, conforms(p), shaped(p), p.rule == Rule::Element, conforms(p.inner[2]), shaped(p.inner[2]), decreases_to!(p => p.inner[2]),
        0 <= __vx_i1 <= __vx_c1@.len(), __vx_c1@.len() == p.inner[2].inner.len(), children_count == __vx_c1@.len(),
        forall|i: int| 0 <= i < __vx_c1@.len() ==> (#[trigger] __vx_c1@[i])@ == p.inner[2].inner[i],
        children_are_to(__vx_r1, p.inner[2].inner, __vx_i1 as int),
    decreases __vx_c1@.len() - __vx_i1,
//@loop 1 start
    proof { within(p.inner[2], __vx_i1 as int); }
//@loop 2
    invariant
        p == pair@, conforms(p), shaped(p), p.rule == Rule::Text, 0 <= __vx_i2 <= __vx_c2@.len(), __vx_c2@.len() == p.inner.len(),
        forall|i: int| 0 <= i < __vx_c2@.len() ==> (#[trigger] __vx_c2@[i])@ == p.inner[i],
        wholes_to(prefetch, p, __vx_i2 as int),
    decreases __vx_c2@.len() - __vx_i2,
//@loop 2 start
    proof { within(p, __vx_i2 as int); }
//@loop 3
    invariant
        p == pair@, conforms(p), shaped(p), p.rule == Rule::Text, 0 <= __vx_i3 <= __vx_e3, __vx_e3 == count, count == p.inner.len(), prefetch@.len() == count,
        forall|i: int| 0 <= i < count ==> whole(#[trigger] prefetch@[i], p.inner[i]),
        parts_are(spans, parts(p.inner, __vx_i3 as int, is_last_content)),
    decreases __vx_e3 - __vx_i3,
//@loop 3 start
    let ghost at = __vx_i3 as int;
    proof { within(p, at); assert(whole(prefetch@[at], p.inner[at])); }
//@loop 4
    invariant
        p.inner[at].text == string@, lines == pieces(string@, "\n"@), is_last_span == (is_last_content && at + 1 == count),
        0 <= __vx_i4 <= __vx_c4@.len(), __vx_c4@.len() == lines.len(), forall|i: int| 0 <= i < lines.len() ==> (#[trigger] __vx_c4@[i])@ == lines[i],
        text@ == as_one(lines, __vx_i4 as int, is_last_span),
    decreases __vx_c4@.len() - __vx_i4,
//@loop 4 before
    let ghost lines = pieces(string@, "\n"@);
//@loop 5
    invariant 0 <= __vx_i5 <= __vx_c5@.len(),
    decreases __vx_c5@.len() - __vx_i5,
//@end
//@fn src/html/reader.rs read_html
//@rewrite HtmlParser::parse => vx_parse
//@ret r
    ensures match r { Ok(h) => parsed(Rule::Document, html@) matches Some(q) && html_is(h, q[0], true), Err(_) => parsed(Rule::Document, html@) is None },
//@start
    proof { document(html@); }
//@end
}
fn main() {}
