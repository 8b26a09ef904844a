// ---- declarations: types, values in context, shorthands ----
//@item src/css/model.rs PropertyKey derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs PropertyDescriptor derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Units derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Dim derive(Copy)
impl Clone for Dim { #[verifier::external_body] fn clone(&self) -> (r: Dim) ensures r == *self { *self } }
//@item src/css/model.rs ComputedValue
use ComputedValue::{Keyword, Time};
impl Clone for ComputedValue { #[verifier::external_body] fn clone(&self) -> (r: ComputedValue) ensures r == *self { unimplemented!() } }
//@type Shorthand => Vec<Definition>
//@item src/css/model.rs Function
//@item src/css/model.rs Definition
/// HashMap<PropertyDescriptor, ComputedValue>, assumed contracts
#[verifier::external_body]
pub struct ComputedStyle { x: u64 }
impl ComputedStyle {
    pub uninterp spec fn map(&self) -> Map<PropertyDescriptor, ComputedValue>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: PropertyDescriptor, v: ComputedValue) -> (r: Option<ComputedValue>)
        ensures final(self).map() == old(self).map().insert(k, v)
    { unimplemented!() }
}
/// HashMap<String, Shorthand>, assumed contracts
#[verifier::external_body]
pub struct Variables { x: u64 }
impl Variables {
    pub uninterp spec fn map(&self) -> Map<Text, Seq<Definition>>;
    #[verifier::external_body]
    pub fn get(&self, k: &Text) -> (r: Option<&Vec<Definition>>)
        ensures match r { Some(v) => self.map().contains_key(*k) && v@ == self.map()[*k], None => !self.map().contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: Vec<Definition>) -> (r: Option<Vec<Definition>>)
        ensures final(self).map() == old(self).map().insert(k, v@)
    { unimplemented!() }
}
/// the values of a definition where `vars` are in scope; `trace`: the variables being replaced
pub open spec fn values(vars: Map<Text, Seq<Definition>>, def: Seq<Definition>, trace: Set<Text>) -> Seq<ComputedValue>
    decreases vars.dom().difference(trace).len(), def
{
    if def.len() == 0 { Seq::empty() } else { values(vars, def.drop_last(), trace) + one(vars, def.last(), trace) }
}
pub open spec fn one(vars: Map<Text, Seq<Definition>>, d: Definition, trace: Set<Text>) -> Seq<ComputedValue>
    decreases vars.dom().difference(trace).len(), d
    via one_dec
{
    match d {
        // an undefined or a cyclic variable spoils the declaration that uses it
        Definition::Var(n) => if trace.contains(n) || !vars.contains_key(n) { seq![ComputedValue::Error] } else { values(vars, vars[n], trace.insert(n)) },
        Definition::Function(f) => seq![call(f.name@, values(vars, f.arguments@, trace))],
        Definition::Explicit(v) => seq![v],
    }
}
#[via_fn]
proof fn one_dec(vars: Map<Text, Seq<Definition>>, d: Definition, trace: Set<Text>) {
    match d {
        Definition::Var(n) => if !(trace.contains(n) || !vars.contains_key(n)) { fewer(vars, n, trace); },
        Definition::Function(f) => {},
        Definition::Explicit(v) => {},
    }
}
proof fn fewer(vars: Map<Text, Seq<Definition>>, n: Text, trace: Set<Text>)
    requires vars.contains_key(n), !trace.contains(n),
    ensures vars.dom().difference(trace.insert(n)).len() < vars.dom().difference(trace).len(),
{
    assert(vars.dom().difference(trace).remove(n) =~= vars.dom().difference(trace.insert(n)));
}
/// colour channels: a number as it is, a share of 255, cut to 0..=255
pub open spec fn channel(v: ComputedValue) -> int {
    match v { ComputedValue::Percentage(p) => cut(p@ * 255.0real, 255), ComputedValue::Number(x) => cut(x@, 255), _ => 0 }
}
/// opacity: a number or a share of one
pub open spec fn alpha(v: ComputedValue) -> int {
    match v { ComputedValue::Percentage(p) => cut(p@ * 255.0real, 255), ComputedValue::Number(x) => cut(x@ * 255.0real, 255), _ => 0 }
}
pub uninterp spec fn rgba(r: int, g: int, b: int, a: int) -> [u8; 4];
pub broadcast axiom fn rgba_of(c: [u8; 4]) ensures #[trigger] rgba(c@[0] as int, c@[1] as int, c@[2] as int, c@[3] as int) == c;
pub open spec fn call(name: Seq<char>, v: Seq<ComputedValue>) -> ComputedValue {
    if name == "rgb"@ && v.len() == 3 { ComputedValue::Color(rgba(channel(v[0]), channel(v[1]), channel(v[2]), 255)) }
    else if name == "rgba"@ && v.len() == 4 { ComputedValue::Color(rgba(channel(v[0]), channel(v[1]), channel(v[2]), alpha(v[3]))) }
    else if name == "url"@ && v.len() == 1 && v[0] is Str { v[0] }
    else { ComputedValue::Error }
}
// ---- the shorthands of CSS ----
pub open spec fn kw(v: ComputedValue, s: Seq<char>) -> bool { match v { ComputedValue::Keyword(k) => k@ == s, _ => false } }
/// one to four values for the four sides: top, right, bottom, left
pub open spec fn side(v: Seq<ComputedValue>, i: int) -> Option<ComputedValue> {
    if v.len() == 1 { Some(v[0]) } else if v.len() == 2 { Some(v[i % 2]) } else if v.len() == 3 { Some(v[if i == 3 { 1 } else { i }]) } else if v.len() == 4 { Some(v[i]) } else { None }
}
/// one value for both, or one for each
pub open spec fn pair(v: Seq<ComputedValue>, i: int) -> Option<ComputedValue> {
    if v.len() == 1 { Some(v[0]) } else if v.len() == 2 { Some(v[i]) } else { None }
}
/// a shorthand of this crate
pub open spec fn shorthand(k: PropertyKey) -> bool {
    match k {
        PropertyKey::Background | PropertyKey::BackgroundPosition | PropertyKey::Border | PropertyKey::BorderTop | PropertyKey::BorderRight | PropertyKey::BorderBottom | PropertyKey::BorderLeft
        | PropertyKey::BorderWidth | PropertyKey::BorderColor | PropertyKey::BorderRadius | PropertyKey::Overflow | PropertyKey::Inset | PropertyKey::Gap | PropertyKey::Padding | PropertyKey::Margin
        | PropertyKey::Transition | PropertyKey::Animation => true,
        _ => false,
    }
}
/// the value that a declaration of the shorthand `key` gives to the longhand `k`
pub enum Given { Nothing, Value(ComputedValue), Word(Seq<char>) }
pub open spec fn of(v: Option<ComputedValue>) -> Given { match v { Some(x) => Given::Value(x), None => Given::Nothing } }
pub open spec fn third(v: Seq<ComputedValue>, i: int) -> Given { if v.len() == 3 { Given::Value(v[i]) } else { Given::Nothing } }
pub open spec fn border_width(v: Seq<ComputedValue>) -> Given { if v.len() == 1 && kw(v[0], "none"@) { Given::Value(ComputedValue::Zero) } else { third(v, 0) } }
pub open spec fn border_color(v: Seq<ComputedValue>) -> Given { if v.len() == 1 && kw(v[0], "none"@) { Given::Word("currentcolor"@) } else { third(v, 2) } }
pub open spec fn given(key: PropertyKey, v: Seq<ComputedValue>, k: PropertyKey) -> Given {
    match key {
        PropertyKey::Background => match k {
            PropertyKey::BackgroundImage => if v.len() == 1 { Given::Word("none"@) } else { Given::Nothing },
            PropertyKey::BackgroundColor => if v.len() == 1 { Given::Value(v[0]) } else { Given::Nothing },
            _ => Given::Nothing,
        },
        PropertyKey::BackgroundPosition => match k { PropertyKey::BackgroundPositionX => of(pair(v, 0)), PropertyKey::BackgroundPositionY => of(pair(v, 1)), _ => Given::Nothing },
        PropertyKey::Border => match k {
            PropertyKey::BorderTopWidth | PropertyKey::BorderRightWidth | PropertyKey::BorderBottomWidth | PropertyKey::BorderLeftWidth => border_width(v),
            PropertyKey::BorderTopColor | PropertyKey::BorderRightColor | PropertyKey::BorderBottomColor | PropertyKey::BorderLeftColor => border_color(v),
            _ => Given::Nothing,
        },
        PropertyKey::BorderTop => match k { PropertyKey::BorderTopWidth => third(v, 0), PropertyKey::BorderTopColor => third(v, 2), _ => Given::Nothing },
        PropertyKey::BorderRight => match k { PropertyKey::BorderRightWidth => third(v, 0), PropertyKey::BorderRightColor => third(v, 2), _ => Given::Nothing },
        PropertyKey::BorderBottom => match k { PropertyKey::BorderBottomWidth => third(v, 0), PropertyKey::BorderBottomColor => third(v, 2), _ => Given::Nothing },
        PropertyKey::BorderLeft => match k { PropertyKey::BorderLeftWidth => third(v, 0), PropertyKey::BorderLeftColor => third(v, 2), _ => Given::Nothing },
        PropertyKey::BorderWidth => match k { PropertyKey::BorderTopWidth => of(side(v, 0)), PropertyKey::BorderRightWidth => of(side(v, 1)), PropertyKey::BorderBottomWidth => of(side(v, 2)), PropertyKey::BorderLeftWidth => of(side(v, 3)), _ => Given::Nothing },
        PropertyKey::BorderColor => match k { PropertyKey::BorderTopColor => of(side(v, 0)), PropertyKey::BorderRightColor => of(side(v, 1)), PropertyKey::BorderBottomColor => of(side(v, 2)), PropertyKey::BorderLeftColor => of(side(v, 3)), _ => Given::Nothing },
        // top left, top right, bottom right, bottom left
        PropertyKey::BorderRadius => match k { PropertyKey::BorderTopLeftRadius => of(side(v, 0)), PropertyKey::BorderTopRightRadius => of(side(v, 1)), PropertyKey::BorderBottomRightRadius => of(side(v, 2)), PropertyKey::BorderBottomLeftRadius => of(side(v, 3)), _ => Given::Nothing },
        PropertyKey::Padding => match k { PropertyKey::PaddingTop => of(side(v, 0)), PropertyKey::PaddingRight => of(side(v, 1)), PropertyKey::PaddingBottom => of(side(v, 2)), PropertyKey::PaddingLeft => of(side(v, 3)), _ => Given::Nothing },
        PropertyKey::Margin => match k { PropertyKey::MarginTop => of(side(v, 0)), PropertyKey::MarginRight => of(side(v, 1)), PropertyKey::MarginBottom => of(side(v, 2)), PropertyKey::MarginLeft => of(side(v, 3)), _ => Given::Nothing },
        // (inset is read with one or four values)
        PropertyKey::Inset => if v.len() == 1 || v.len() == 4 { match k { PropertyKey::Top => of(side(v, 0)), PropertyKey::Right => of(side(v, 1)), PropertyKey::Bottom => of(side(v, 2)), PropertyKey::Left => of(side(v, 3)), _ => Given::Nothing } } else { Given::Nothing },
        PropertyKey::Overflow => match k { PropertyKey::OverflowX => of(pair(v, 0)), PropertyKey::OverflowY => of(pair(v, 1)), _ => Given::Nothing },
        PropertyKey::Gap => match k { PropertyKey::ColumnGap => of(pair(v, 0)), PropertyKey::RowGap => of(pair(v, 1)), _ => Given::Nothing },
        // property duration [timing [delay]]
        PropertyKey::Transition => if 2 <= v.len() <= 4 { match k {
            PropertyKey::TransitionProperty => Given::Value(v[0]),
            PropertyKey::TransitionDuration => Given::Value(v[1]),
            PropertyKey::TransitionTimingFunction => if v.len() >= 3 { Given::Value(v[2]) } else { Given::Nothing },
            PropertyKey::TransitionDelay => if v.len() == 4 { Given::Value(v[3]) } else { Given::Nothing },
            _ => Given::Nothing,
        } } else { Given::Nothing },
        // duration [timing [delay or iterations]] name
        PropertyKey::Animation => if 2 <= v.len() <= 4 { match k {
            PropertyKey::AnimationDuration => Given::Value(v[0]),
            PropertyKey::AnimationTimingFunction => if v.len() >= 3 { Given::Value(v[1]) } else { Given::Nothing },
            PropertyKey::AnimationDelay => if v.len() == 4 && v[2] is Time { Given::Value(v[2]) } else { Given::Nothing },
            PropertyKey::AnimationIterationCount => if v.len() == 4 && !(v[2] is Time) { Given::Value(v[2]) } else { Given::Nothing },
            PropertyKey::AnimationName => Given::Value(v.last()),
            _ => Given::Nothing,
        } } else { Given::Nothing },
        _ => if k == key && v.len() == 1 { Given::Value(v[0]) } else { Given::Nothing },
    }
}
/// the style after the declaration: the longhands it gives a value have it, in this layer; every other one keeps its own.
/// (Entries under the name of a shorthand mean nothing to any element and may be left behind.)
pub open spec fn declared(m0: Map<PropertyDescriptor, ComputedValue>, m1: Map<PropertyDescriptor, ComputedValue>, key: PropertyKey, v: Seq<ComputedValue>, index: usize) -> bool {
    forall|d: PropertyDescriptor| #![trigger m1.contains_key(d)] #![trigger m1[d]] !shorthand(d.key) ==> took(m0, m1, d, if d.index == index { given(key, v, d.key) } else { Given::Nothing })
}
/// how a style changes at d
pub open spec fn took(m0: Map<PropertyDescriptor, ComputedValue>, m1: Map<PropertyDescriptor, ComputedValue>, d: PropertyDescriptor, g: Given) -> bool {
    match g {
        Given::Nothing => m1.contains_key(d) == m0.contains_key(d) && m1[d] == m0[d],
        Given::Value(x) => m1.contains_key(d) && m1[d] == x,
        Given::Word(w) => m1.contains_key(d) && kw(m1[d], w),
    }
}
