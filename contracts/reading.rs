use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C24, C25: style sheets are read without loss, from the pairs that the generated parser yields
//@texts
//@reals
//@include prelude.inc
//@include texts.inc
//@include reals.inc
//@grammar src/css/css.pest
StyleSheet = _{ SOI ~ Rules ~ EOI }
InlineStyle = _{ SOI ~ Declarations }
Rules = { Rule* }
Rule = _{ Animation | Style }
Animation = { "@keyframes" ~ Name ~ "{" ~ Keyframes ~ "}" }
Keyframes = _{ Keyframe* }
Keyframe = { Step ~ DeclarationBlock }
Step = _{ Keyword | Percentage  }
Style = { Selectors ~ DeclarationBlock }
Selectors = { Complex ~ ("," ~ Complex)* }
Complex = { (Combinator? ~ Compound)* }
Combinator = { ">" | "+" | "~" }
Compound = ${ Simple+ }
Simple = _{ All | Id | Class | Root | PseudoClass | PseudoElement | Attribute | Type }
All = { "*" }
Id = { "#" ~ Ident }
Class = { "." ~ Ident }
Type = { Ident }
Attribute = {
    "[" ~ Ident ~ "]" |
    "[" ~ Ident ~ Matcher ~ (String | Ident) ~ Modifier? ~ "]"
}
Matcher = { ("~" | "|" | "^" | "$" | "*")? ~ "=" }
Root = { ":root" }
PseudoClass = {
    ":" ~ Ident ~ "(" ~ (!")" ~ ANY)* ~ ")" |
    ":" ~ Ident
}
PseudoElement = { "::" ~ Ident }
DeclarationBlock = {
    "{" ~ Declarations ~ "}"
}
Declarations = { Declaration* }
Declaration = { Property ~ ":" ~ Values ~ ";" }
Values = { Shorthand ~ ("," ~ Shorthand)* }
Shorthand = ${ Value ~ (WHITESPACE+ ~ Value)* }
Value = _{ Var | !("var" ~ "(") ~ Function | Explicit }
Function = {
    Ident ~ "(" ~ WHITESPACE* ~ ")" |
    Ident ~ "(" ~ WHITESPACE* ~ Value ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)* ~ WHITESPACE* ~ ")"
}
Var = { "var" ~ "(" ~ WHITESPACE* ~ Keyword ~ (WHITESPACE* ~ "," ~ WHITESPACE* ~ Value)? ~ WHITESPACE* ~ ")" }
Explicit = {
    Color
    | Keyword
    | Percentage
    | Time
    | Dimension
    | Zero
    | Number
    | String
}
Color = { "#" ~ ASCII_HEX_DIGIT+ }
Percentage = { Number ~ "%" }
Time = { Number ~ TimeUnit }
TimeUnit = { "ms" | "s" }
Dimension = { Number ~ Unit }
String = { "\"" ~ StringLiteral ~ "\"" }
//@end
//@include pairs.inc
pub open spec fn is_value(r: Rule) -> bool { r == Rule::Var || r == Rule::Function || r == Rule::Explicit }
pub open spec fn is_explicit(r: Rule) -> bool {
    r == Rule::Color || r == Rule::Keyword || r == Rule::Percentage || r == Rule::Time || r == Rule::Dimension || r == Rule::Zero || r == Rule::Number || r == Rule::String
}
pub open spec fn is_simple(r: Rule) -> bool {
    r == Rule::All || r == Rule::Id || r == Rule::Class || r == Rule::Root || r == Rule::PseudoClass || r == Rule::PseudoElement || r == Rule::Attribute || r == Rule::Type
}
pub open spec fn is_matcher(t: Seq<char>) -> bool { t == "="@ || t == "~="@ || t == "|="@ || t == "^="@ || t == "$="@ || t == "*="@ }
/// what the grammar says about the pairs within a pair
pub open spec fn shaped(p: P) -> bool {
    let s = p.inner;
    match p.rule {
        Rule::Rules => rules(s, 0, |r: Rule| r == Rule::Animation || r == Rule::Style),
        Rule::Animation => s.len() > 0 && s[0].rule == Rule::Name && rules(s, 1, |r: Rule| r == Rule::Keyframe),
        Rule::Keyframe => s.len() == 2 && (s[0].rule == Rule::Keyword || s[0].rule == Rule::Percentage) && s[1].rule == Rule::DeclarationBlock,
        Rule::Style => s.len() == 2 && s[0].rule == Rule::Selectors && s[1].rule == Rule::DeclarationBlock,
        Rule::Selectors => rules(s, 0, |r: Rule| r == Rule::Complex),
        Rule::Complex => rules(s, 0, |r: Rule| r == Rule::Combinator || r == Rule::Compound),
        Rule::Combinator => p.text.len() == 1,
        Rule::Compound => s.len() > 0 && rules(s, 0, |r: Rule| is_simple(r)),
        Rule::Id | Rule::Class | Rule::Type | Rule::PseudoClass | Rule::PseudoElement => s.len() == 1 && s[0].rule == Rule::Ident,
        Rule::Attribute => s.len() > 0 && s[0].rule == Rule::Ident
            && (s.len() == 1 || s.len() >= 3 && s[1].rule == Rule::Matcher && is_matcher(s[1].text) && (s[2].rule == Rule::String || s[2].rule == Rule::Ident)),
        Rule::DeclarationBlock => s.len() == 1 && s[0].rule == Rule::Declarations,
        Rule::Declarations => rules(s, 0, |r: Rule| r == Rule::Declaration),
        Rule::Declaration => s.len() == 2 && s[0].rule == Rule::Property && s[1].rule == Rule::Values,
        Rule::Values => s.len() > 0 && rules(s, 0, |r: Rule| r == Rule::Shorthand),
        Rule::Shorthand => s.len() > 0 && rules(s, 0, |r: Rule| is_value(r)),
        Rule::Function => s.len() > 0 && s[0].rule == Rule::Ident && rules(s, 1, |r: Rule| is_value(r)),
        Rule::Var => s.len() > 0 && s[0].rule == Rule::Keyword,
        Rule::Explicit => s.len() == 1 && is_explicit(s[0].rule),
        Rule::Color => ascii(p.text) && p.text.len() > 0 && p.text[0] == '#',
        Rule::Percentage => s.len() == 1 && s[0].rule == Rule::Number,
        Rule::Time => s.len() == 2 && s[0].rule == Rule::Number && (s[1].text == "s"@ || s[1].text == "ms"@),
        Rule::Dimension => s.len() == 2 && s[0].rule == Rule::Number && s[1].rule == Rule::Unit,
        Rule::String => s.len() == 1 && s[0].rule == Rule::StringLiteral,
        _ => true,
    }
}
/// a pair and all within it are as the grammar says
pub open spec fn conforms(p: P) -> bool decreases p { shaped(p) && forall|i: int| 0 <= i < p.inner.len() ==> conforms(#[trigger] p.inner[i]) }
pub proof fn within(p: P, i: int) requires conforms(p), 0 <= i < p.inner.len() ensures conforms(p.inner[i]), shaped(p.inner[i]), shaped(p), decreases_to!(p => p.inner[i]) {}
/// the parser begins with the rules of the sheet, or the declarations of the inline style
pub axiom fn sheet(s: Seq<char>) ensures parsed(Rule::StyleSheet, s) matches Some(q) ==> q.len() > 0 && q[0].rule == Rule::Rules && conforms(q[0]);
pub axiom fn inline(s: Seq<char>) ensures parsed(Rule::InlineStyle, s) matches Some(q) ==> q.len() > 0 && q[0].rule == Rule::Declarations && conforms(q[0]);
//@item src/css/model.rs PropertyKey derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Units derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Dim
//@item src/css/model.rs ComputedValue
//@type Shorthand => Vec<Definition>
//@item src/css/model.rs Function
//@item src/css/model.rs Definition
impl Clone for Definition { #[verifier::external_body] fn clone(&self) -> (r: Definition) ensures r == *self { unimplemented!() } }
//@item src/css/model.rs Variable
//@item src/css/model.rs Property
//@item src/css/model.rs Declaration
//@item src/css/model.rs Matcher
//@item src/css/model.rs Simple
//@item src/css/model.rs Complex
//@item src/css/model.rs Style
//@item src/css/model.rs Keyframe
//@item src/css/model.rs Animation
//@type HashMap<String, Animation> => Dict<Animation>
//@item src/css/model.rs Css
/// the number that a text stands for, none if it is no number
pub uninterp spec fn float_of(s: Seq<char>) -> Option<F>;
impl FromText for F { open spec fn from_text(s: Seq<char>) -> Option<F> { float_of(s) } }
pub open spec fn number(p: P) -> real { match float_of(p.text) { Some(x) => x@, None => 0.0real } }

// ---- what the pairs mean ----
pub open spec fn unit_of(s: Seq<char>) -> Option<Units> {
    if s == "px"@ { Some(Units::Px) } else if s == "em"@ { Some(Units::Em) } else if s == "rem"@ { Some(Units::Rem) } else if s == "vw"@ { Some(Units::Vw) }
    else if s == "vh"@ { Some(Units::Vh) } else if s == "vmin"@ { Some(Units::Vmin) } else if s == "vmax"@ { Some(Units::Vmax) } else { None }
}
/// the property that a name stands for (PropertyKey::parse: a table)
pub uninterp spec fn key_of(s: Seq<char>) -> Option<PropertyKey>;
impl PropertyKey {
    #[verifier::external_body]
    pub fn parse(name: &Text) -> (r: Option<PropertyKey>) ensures r == key_of(name@) { unimplemented!() }
}
pub open spec fn digits(s: Seq<char>, a: int, b: int) -> int { match hex(s.subrange(a, b)) { Some(v) => v as int, None => 0 } }
pub open spec fn alpha4(s: Seq<char>) -> int { if s.len() == 4 { 15 } else { match hex(s.subrange(4, 5)) { Some(v) => v as int, None => 15 } } }
/// #rgb, #rgba, #rrggbb, #rrggbbaa
pub open spec fn color_is(c: [u8; 4], s: Seq<char>) -> bool {
    if s.len() == 4 || s.len() == 5 { c@[0] == 17 * digits(s, 1, 2) && c@[1] == 17 * digits(s, 2, 3) && c@[2] == 17 * digits(s, 3, 4) && c@[3] == 17 * alpha4(s) }
    else if s.len() == 7 { c@[0] == digits(s, 1, 3) && c@[1] == digits(s, 3, 5) && c@[2] == digits(s, 5, 7) && c@[3] == 255 }
    else if s.len() == 9 { c@[0] == digits(s, 1, 3) && c@[1] == digits(s, 3, 5) && c@[2] == digits(s, 5, 7) && c@[3] == digits(s, 7, 9) }
    else { true }
}
pub open spec fn explicit_is(v: ComputedValue, p: P) -> bool {
    let s = p.inner;
    match p.rule {
        Rule::Keyword => v matches ComputedValue::Keyword(t) && t@ == p.text,
        Rule::Color => v matches ComputedValue::Color(c) && color_is(c, p.text),
        Rule::Zero => v is Zero,
        Rule::Time => v matches ComputedValue::Time(x) && x@ == (if s[1].text == "s"@ { number(s[0]) } else { number(s[0]) / 1000.0real }),
        Rule::Percentage => v matches ComputedValue::Percentage(x) && x@ == number(s[0]) / 100.0real,
        Rule::Dimension => v matches ComputedValue::Dimension(d) && d.value@ == number(s[0]) && (unit_of(s[1].text) matches Some(u) ==> d.unit == u),
        Rule::Number => v matches ComputedValue::Number(x) && x@ == number(p),
        _ => v matches ComputedValue::Str(t) && t@ == s[0].text,
    }
}
pub open spec fn definition_is(d: Definition, p: P) -> bool decreases p {
    match p.rule {
        Rule::Var => d matches Definition::Var(name) && p.inner.len() > 0 && name@ == p.inner[0].text,
        Rule::Function => d matches Definition::Function(f) && p.inner.len() > 0 && f.name@ == p.inner[0].text && f.arguments@.len() == p.inner.len() - 1
            && forall|i: int| 0 <= i < p.inner.len() - 1 ==> definition_is(#[trigger] f.arguments@[i], p.inner[i + 1]),
        _ => d matches Definition::Explicit(v) && explicit_is(v, p.inner[0]),
    }
}
pub open spec fn shorthand_is(v: Seq<Definition>, p: P) -> bool { v.len() == p.inner.len() && forall|i: int| 0 <= i < v.len() ==> definition_is(#[trigger] v[i], p.inner[i]) }
pub open spec fn shorthand_to(v: Vec<Definition>, p: P, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> definition_is(#[trigger] v@[i], p.inner[i]) }
pub open spec fn shorthand_from1(v: Vec<Definition>, p: P, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> definition_is(#[trigger] v@[i], p.inner[i + 1]) }
pub open spec fn values_to(v: Vec<Vec<Definition>>, p: P, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> shorthand_is(#[trigger] v@[i]@, p.inner[i]) }
pub open spec fn is_variable(p: P) -> bool { begins(p.inner[0].text, "--"@) }
pub open spec fn declaration_is(d: Declaration, p: P) -> bool {
    if is_variable(p) { d matches Declaration::Variable(v) && v.key@ == p.inner[0].text && shorthand_is(v.shorthand@, p.inner[1].inner[0]) }
    else { d matches Declaration::Property(x) && key_of(p.inner[0].text) == Some(x.key) && values_to(x.values, p.inner[1], p.inner[1].inner.len() as int) }
}
/// the declarations of variables and known properties, in order
pub open spec fn known(s: Seq<P>, n: int) -> Seq<P> decreases n {
    if n <= 0 || n > s.len() { Seq::empty() }
    else if is_variable(s[n - 1]) || key_of(s[n - 1].inner[0].text) is Some { known(s, n - 1).push(s[n - 1]) }
    else { known(s, n - 1) }
}
pub open spec fn declared(v: Vec<Declaration>, k: Seq<P>) -> bool { v@.len() == k.len() && forall|i: int| 0 <= i < k.len() ==> declaration_is(#[trigger] v@[i], k[i]) }
pub open spec fn declarations_are(v: Vec<Declaration>, p: P) -> bool { declared(v, known(p.inner, p.inner.len() as int)) }
// ---- selectors, rules and animations ----
pub open spec fn matcher_of(p: P) -> Matcher {
    if p.inner.len() == 1 { Matcher::Exist } else {
        let t = p.inner[1].text;
        if t == "~="@ { Matcher::Include } else if t == "|="@ { Matcher::DashMatch } else if t == "^="@ { Matcher::Prefix }
        else if t == "$="@ { Matcher::Suffix } else if t == "*="@ { Matcher::Substring } else { Matcher::Equal }
    }
}
pub open spec fn searched(p: P) -> Seq<char> { if p.inner.len() == 1 { Seq::empty() } else if p.inner[2].rule == Rule::String { p.inner[2].inner[0].text } else { p.inner[2].text } }
/// a component of a selector: a combinator or a simple selector
pub ghost enum Part { Combined(char), One(P) }
pub open spec fn ones(s: Seq<P>, n: int) -> Seq<Part> { Seq::new(n as nat, |i: int| Part::One(s[i])) }
/// the components of a selector in order; compounds next to each other are combined as descendants
pub open spec fn parts(s: Seq<P>, n: int) -> Seq<Part> decreases n {
    if n <= 0 || n > s.len() { Seq::empty() }
    else if s[n - 1].rule == Rule::Combinator { parts(s, n - 1).push(Part::Combined(s[n - 1].text[0])) }
    else { begun(s, n) + ones(s[n - 1].inner, s[n - 1].inner.len() as int) }
}
pub open spec fn begun(s: Seq<P>, n: int) -> Seq<Part> decreases n, 0nat when n >= 1 {
    if n >= 2 && s[n - 2].rule == Rule::Compound { parts(s, n - 1).push(Part::Combined(' ')) } else { parts(s, n - 1) }
}
pub open spec fn simple_is(x: Simple, part: Part) -> bool {
    match (x, part) {
        (Simple::Combinator(c), Part::Combined(d)) => c == d,
        (Simple::All, Part::One(p)) => p.rule == Rule::All,
        (Simple::Root, Part::One(p)) => p.rule == Rule::Root,
        (Simple::Id(t), Part::One(p)) => p.rule == Rule::Id && t@ == p.inner[0].text,
        (Simple::Class(t), Part::One(p)) => p.rule == Rule::Class && t@ == p.inner[0].text,
        (Simple::Type(t), Part::One(p)) => p.rule == Rule::Type && t@ == p.inner[0].text,
        (Simple::PseudoClass(t), Part::One(p)) => p.rule == Rule::PseudoClass && t@ == p.inner[0].text,
        (Simple::PseudoElement(t), Part::One(p)) => p.rule == Rule::PseudoElement && t@ == p.inner[0].text,
        (Simple::Attribute(name, m, search), Part::One(p)) => p.rule == Rule::Attribute && name@ == p.inner[0].text && m == matcher_of(p) && search@ == searched(p),
        _ => false,
    }
}
pub open spec fn components_are(v: Vec<Simple>, s: Seq<Part>) -> bool { v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> simple_is(#[trigger] v@[i], s[i]) }
pub open spec fn complex_is(c: Complex, p: P) -> bool { components_are(c.selectors, parts(p.inner, p.inner.len() as int)) }
pub open spec fn selectors_to(v: Vec<Complex>, p: P, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> complex_is(#[trigger] v@[i], p.inner[i]) }
pub open spec fn style_is(x: Style, p: P) -> bool { selectors_to(x.selectors, p.inner[0], p.inner[0].inner.len() as int) && declarations_are(x.declaration, p.inner[1].inner[0]) }
/// the rules of a sheet in order, animations apart
pub open spec fn style_rules(s: Seq<P>, n: int) -> Seq<P> decreases n {
    if n <= 0 || n > s.len() { Seq::empty() } else if s[n - 1].rule == Rule::Style { style_rules(s, n - 1).push(s[n - 1]) } else { style_rules(s, n - 1) }
}
pub open spec fn styles_are(v: Vec<Style>, s: Seq<P>) -> bool { v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> style_is(#[trigger] v@[i], s[i]) }
/// the percentage of a key frame
pub open spec fn step_of(p: P) -> int { if p.rule == Rule::Percentage { cut(number(p.inner[0]), u32::MAX as int) } else if p.text == "to"@ { 100 } else { 0 } }
pub open spec fn frame_is(k: Keyframe, p: P) -> bool { k.step == step_of(p.inner[0]) && declarations_are(k.declaration, p.inner[1].inner[0]) }
pub open spec fn frames_to(v: Vec<Keyframe>, p: P, n: int) -> bool { v@.len() == n && forall|i: int| 0 <= i < n ==> frame_is(#[trigger] v@[i], p.inner[i + 1]) }
pub open spec fn animation_is(a: Animation, p: P) -> bool { a.name@ == p.inner[0].text && frames_to(a.keyframes, p, p.inner.len() - 1) }
/// the last animation of every name
pub open spec fn animation_rules(s: Seq<P>, n: int) -> Map<Seq<char>, P> decreases n {
    if n <= 0 || n > s.len() { Map::empty() } else if s[n - 1].rule == Rule::Animation { animation_rules(s, n - 1).insert(s[n - 1].inner[0].text, s[n - 1]) } else { animation_rules(s, n - 1) }
}
pub open spec fn animations_are(d: Dict<Animation>, m: Map<Seq<char>, P>) -> bool {
    &&& forall|k: Seq<char>| #![trigger d.map().contains_key(k)] d.map().contains_key(k) == m.contains_key(k)
    &&& forall|k: Seq<char>| #![trigger d.map()[k]] m.contains_key(k) ==> animation_is(d.map()[k], m[k])
}
pub open spec fn css_is(c: Css, p: P) -> bool {
    styles_are(c.styles, style_rules(p.inner, p.inner.len() as int)) && animations_are(c.animations, animation_rules(p.inner, p.inner.len() as int))
}
//@lits units_differ vh | vw | vmax | vmin | px | em | rem
proof fn matchers_differ()
    ensures "="@.len() == 1, "~="@.len() == 2, "|="@.len() == 2, "^="@.len() == 2, "$="@.len() == 2, "*="@.len() == 2, ""@.len() == 0,
        "~="@[0] == '~', "|="@[0] == '|', "^="@[0] == '^', "$="@[0] == '$', "*="@[0] == '*',
{ reveal_strlit("="); reveal_strlit("~="); reveal_strlit("|="); reveal_strlit("^="); reveal_strlit("$="); reveal_strlit("*="); reveal_strlit(""); }
impl Units {
//@fn src/css/model.rs Units::parse
//@ret r
    ensures r == unit_of(name@),
//@start
    proof { units_differ(); }
//@end
}
impl Dim {
//@fn src/css/model.rs Dim::new
//@ret r
    ensures r.value == value, r.unit == unit,
//@end
}
//@fn src/css/reader.rs read_number
//@ret r
    ensures r@ == number(pair@),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/css/reader.rs read_seconds
//@ret r
    requires conforms(pair@), pair@.rule == Rule::Time,
    ensures r@ == (if pair@.inner[1].text == "s"@ { number(pair@.inner[0]) } else { number(pair@.inner[0]) / 1000.0real }),
//@start
    broadcast use {f_of_view, f_ext};
    proof { assert(shaped(pair@)); reveal_strlit("s"); reveal_strlit("ms"); assert("s"@.len() != "ms"@.len()); }
//@end
//@fn src/css/reader.rs read_percentage
//@ret r
    requires conforms(pair@), pair@.rule == Rule::Percentage,
    ensures r@ == number(pair@.inner[0]) / 100.0real,
//@start
    broadcast use {f_of_view, f_ext};
    proof { assert(shaped(pair@)); }
//@end
//@fn src/css/reader.rs read_dimension
//@ret r
    requires conforms(pair@), pair@.rule == Rule::Dimension,
    ensures r.value@ == number(pair@.inner[0]), unit_of(pair@.inner[1].text) matches Some(u) ==> r.unit == u,
//@start
    proof { assert(shaped(pair@)); }
//@end
//@fn src/css/reader.rs read_color
//@rewrite u8::from_str_radix => vx_u8_radix
//@option float casts
//@option text slices
//@ret r
    requires conforms(pair@), pair@.rule == Rule::Color,
    ensures color_is(r, pair@.text),
//@start
    broadcast use {f_of_view, f_ext};
    let ghost s = pair@.text;
    proof {
        assert(shaped(pair@)); reveal_strlit("#"); reveal_strlit("rgb");
        assert(s.subrange(0, 1) =~= "#"@); assert("rgb"@.len() == 3 && "rgb"@[0] == 'r'); assert(s.len() >= 3 ==> s.subrange(0, 3)[0] == '#');
        if s.len() >= 4 { one_digit(s.subrange(1, 2)); one_digit(s.subrange(2, 3)); one_digit(s.subrange(3, 4)); no_digit(s.subrange(4, 4)); }
        if s.len() >= 5 { one_digit(s.subrange(4, 5)); }
    }
//@end
//@fn src/css/reader.rs read_explicit_value
//@ret r
    requires conforms(pair@), is_explicit(pair@.rule),
    ensures explicit_is(r, pair@),
//@start
    proof { assert(shaped(pair@)); }
//@end
//@fn src/css/reader.rs read_value_def
//@ret r
    requires conforms(pair@), is_value(pair@.rule),
    ensures definition_is(r, pair@),
    decreases pair@,
//@start
    let ghost p = pair@;
    proof { assert(shaped(p)); within(p, 0); }
//@loop 0
    invariant
        p == pair@, conforms(p), shaped(p), p.rule == Rule::Function, iter@.len() <= p.inner.len() - 1,
        forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i])@ == p.inner[p.inner.len() - iter@.len() + i],
        shorthand_from1(arguments, p, p.inner.len() - 1 - iter@.len()),
    ensures shorthand_from1(arguments, p, p.inner.len() - 1),
    decreases iter@.len(),
//@loop 0 start
    proof { within(p, p.inner.len() - iter@.len() - 1); }
//@end
//@fn src/css/reader.rs read_shorthand
//@ret r
    requires conforms(pair@), pair@.rule == Rule::Shorthand,
    ensures shorthand_is(r@, pair@),
//@start
    let ghost p = pair@;
    proof { assert(shaped(p)); }
//@loop 0
    invariant
        conforms(p), shaped(p), p.rule == Rule::Shorthand, 0 <= __vx_i0 <= __vx_c0@.len(), __vx_c0@.len() == p.inner.len(),
        forall|i: int| 0 <= i < __vx_c0@.len() ==> (#[trigger] __vx_c0@[i])@ == p.inner[i],
        shorthand_to(__vx_r0, p, __vx_i0 as int),
    decreases __vx_c0@.len() - __vx_i0,
//@loop 0 start
    proof { within(p, __vx_i0 as int); }
//@end
//@fn src/css/reader.rs read_declarations
//@ret r
    requires conforms(pair@), pair@.rule == Rule::Declarations,
    ensures declarations_are(r, pair@),
//@start
    let ghost p = pair@;
    proof { assert(shaped(p)); }
//@loop 0
    invariant
        conforms(p), shaped(p), p.rule == Rule::Declarations, 0 <= __vx_i0 <= __vx_c0@.len(), __vx_c0@.len() == p.inner.len(),
        forall|i: int| 0 <= i < __vx_c0@.len() ==> (#[trigger] __vx_c0@[i])@ == p.inner[i],
        declared(declarations, known(p.inner, __vx_i0 as int)),
    decreases __vx_c0@.len() - __vx_i0,
//@loop 0 start
    let ghost q = __vx_c0@[__vx_i0 as int]@;
    proof { within(p, __vx_i0 as int); within(q, 1); }
//@loop 1
    invariant
        conforms(q.inner[1]), shaped(q.inner[1]), q.inner[1].rule == Rule::Values, 0 <= __vx_i1 <= __vx_c1@.len(), __vx_c1@.len() == q.inner[1].inner.len(),
        forall|i: int| 0 <= i < __vx_c1@.len() ==> (#[trigger] __vx_c1@[i])@ == q.inner[1].inner[i],
        values_to(__vx_r1, q.inner[1], __vx_i1 as int),
    decreases __vx_c1@.len() - __vx_i1,
//@loop 1 start
    proof { within(q.inner[1], __vx_i1 as int); }
//@loop 2
    invariant
        conforms(q.inner[1]), shaped(q.inner[1]), q.inner[1].rule == Rule::Values, 0 <= __vx_i2 <= __vx_c2@.len(), __vx_c2@.len() == q.inner[1].inner.len(),
        forall|i: int| 0 <= i < __vx_c2@.len() ==> (#[trigger] __vx_c2@[i])@ == q.inner[1].inner[i],
        values_to(__vx_r2, q.inner[1], __vx_i2 as int),
    decreases __vx_c2@.len() - __vx_i2,
//@loop 2 start
    proof { within(q.inner[1], __vx_i2 as int); }
//@end
//@fn src/css/reader.rs read_inline_css
//@rewrite CssParser::parse => vx_parse
//@ret r
    ensures match r { Ok(d) => parsed(Rule::InlineStyle, block@) matches Some(q) && declarations_are(d, q[0]), Err(_) => parsed(Rule::InlineStyle, block@) is None },
//@start
    proof { inline(block@); }
//@end
impl Simple {
//@fn src/css/model.rs Simple::as_combinator
//@ret r
    ensures r == (match *self { Simple::Combinator(c) => Some(c), _ => None }),
//@end
}
//@fn src/css/reader.rs read_css
//@rewrite CssParser::parse => vx_parse
//@rewrite HashMap::new() => Dict::<Animation>::new()
//@option float casts
//@ret r
    ensures match r { Ok(c) => parsed(Rule::StyleSheet, css@) matches Some(q) && css_is(c, q[0]), Err(_) => parsed(Rule::StyleSheet, css@) is None },
//@start
    broadcast use {f_of_view, f_ext};
    let ghost all = match parsed(Rule::StyleSheet, css@) { Some(q) => q[0], None => arbitrary() };
    proof { sheet(css@); reveal_strlit(""); reveal_strlit("from"); reveal_strlit("to"); assert("from"@.len() != "to"@.len()); matchers_differ(); }
//@loop 0
    invariant
        "from"@.len() != "to"@.len(),
        conforms(all), shaped(all), all.rule == Rule::Rules, 0 <= __vx_i0 <= __vx_c0@.len(), __vx_c0@.len() == all.inner.len(),
        forall|i: int| 0 <= i < __vx_c0@.len() ==> (#[trigger] __vx_c0@[i])@ == all.inner[i],
        styles_are(styles, style_rules(all.inner, __vx_i0 as int)), animations_are(animations, animation_rules(all.inner, __vx_i0 as int)),
    decreases __vx_c0@.len() - __vx_i0,
//@loop 0 before
    proof { assert(shaped(all)); }
//@loop 0 start
    let ghost q = __vx_c0@[__vx_i0 as int]@;
    proof { within(all, __vx_i0 as int); if q.rule == Rule::Style { within(q, 0); within(q, 1); within(q.inner[1], 0); } }
//@loop 1
    invariant
        "from"@.len() != "to"@.len(),
        conforms(q), shaped(q), q.rule == Rule::Animation, 0 <= __vx_i1 <= __vx_c1@.len(), __vx_c1@.len() == q.inner.len() - 1,
        forall|i: int| 0 <= i < __vx_c1@.len() ==> (#[trigger] __vx_c1@[i])@ == q.inner[i + 1],
        frames_to(keyframes, q, __vx_i1 as int),
    decreases __vx_c1@.len() - __vx_i1,
//@loop 1 start
    let ghost k = __vx_c1@[__vx_i1 as int]@;
    proof { within(q, __vx_i1 + 1); within(k, 0); within(k, 1); within(k.inner[1], 0); }
//@loop 2
    invariant
        conforms(q.inner[0]), shaped(q.inner[0]), q.inner[0].rule == Rule::Selectors, 0 <= __vx_i2 <= __vx_c2@.len(), __vx_c2@.len() == q.inner[0].inner.len(),
        forall|i: int| 0 <= i < __vx_c2@.len() ==> (#[trigger] __vx_c2@[i])@ == q.inner[0].inner[i],
        selectors_to(selectors, q.inner[0], __vx_i2 as int),
    decreases __vx_c2@.len() - __vx_i2,
//@loop 2 start
    let ghost x = __vx_c2@[__vx_i2 as int]@;
    proof { within(q.inner[0], __vx_i2 as int); }
//@loop 3
    invariant
        conforms(x), shaped(x), x.rule == Rule::Complex, 0 <= __vx_i3 <= __vx_c3@.len(), __vx_c3@.len() == x.inner.len(),
        forall|i: int| 0 <= i < __vx_c3@.len() ==> (#[trigger] __vx_c3@[i])@ == x.inner[i],
        components_are(components, parts(x.inner, __vx_i3 as int)),
        (__vx_i3 > 0 && x.inner[__vx_i3 - 1].rule == Rule::Compound) <==> (components@.len() > 0 && !(components@.last() is Combinator)),
    decreases __vx_c3@.len() - __vx_i3,
//@loop 3 start
    let ghost y = __vx_c3@[__vx_i3 as int]@;
    let ghost had = begun(x.inner, __vx_i3 + 1);
    proof { within(x, __vx_i3 as int); }
//@loop 3 end
    proof { assert(parts(x.inner, __vx_i3 as int) =~= (if y.rule == Rule::Compound { had + ones(y.inner, y.inner.len() as int) } else { parts(x.inner, __vx_i3 - 1).push(Part::Combined(y.text[0])) })); }
//@loop 4
    invariant
        conforms(y), shaped(y), y.rule == Rule::Compound, 0 <= __vx_i4 <= __vx_c4@.len(), __vx_c4@.len() == y.inner.len(),
        forall|i: int| 0 <= i < __vx_c4@.len() ==> (#[trigger] __vx_c4@[i])@ == y.inner[i],
        components_are(components, had + ones(y.inner, __vx_i4 as int)), __vx_i4 > 0 ==> components@.len() > 0 && !(components@.last() is Combinator),
    decreases __vx_c4@.len() - __vx_i4,
//@loop 4 before
    proof { assert(had + ones(y.inner, 0) =~= had); }
//@loop 4 start
    let ghost z = __vx_c4@[__vx_i4 as int]@;
    proof { matchers_differ(); within(y, __vx_i4 as int); if z.rule == Rule::Attribute && z.inner.len() > 1 { within(z, 1); within(z, 2); } assert(ones(y.inner, __vx_i4 + 1) =~= ones(y.inner, __vx_i4 as int).push(Part::One(z))); }
//@end
}
fn main() {}
