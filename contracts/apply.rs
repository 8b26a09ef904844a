#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C12: every property sets its own field, in the right unit, and nothing else
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@item src/css/model.rs PropertyKey derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Units derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Dim derive(Copy)
impl Clone for Dim { #[verifier::external_body] fn clone(&self) -> (r: Dim) ensures r == *self { *self } }
//@item src/css/model.rs ComputedValue
use ComputedValue::{Keyword, Str, Time};
impl Clone for ComputedValue { #[verifier::external_body] fn clone(&self) -> (r: ComputedValue) ensures r == *self { unimplemented!() } }
impl PartialEq for ComputedValue { #[verifier::external_body] fn eq(&self, o: &ComputedValue) -> bool { unimplemented!() } }
pub type Rgba = [u8; 4];
//@item src/animation.rs AnimationDirection
//@item src/animation.rs AnimationFillMode
//@item src/animation.rs AnimationIterations
//@item src/animation.rs Jump
//@item src/animation.rs TimingFunction
//@item src/animation.rs Animator
//@item src/animation.rs Transition
//@item src/element.rs Length derive(Clone,Copy)
//@item src/element.rs MyBorder derive(Clone,Copy)
//@item src/element.rs Borders
//@item src/element.rs Background
//@item src/element.rs TextAlign
//@item src/element.rs FontFace
//@item src/element.rs PointerEvents derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs Pointer derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs ObjectFit derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs ElementState derive(Clone,Copy)
//@item src/element.rs Element keep node,tag,position,size,content_size,object_fit,backgrounds,borders,color,font,self_opacity,opacity,pointer_events,pointer,visible,state,animators,transitions
//@item src/styles/mod.rs Sizes derive(Clone,Copy)
//@item src/styles/mod.rs CascadeError
pub struct Cascade { pub sizes: Sizes }
/// the layout engine's types (taffy 0.6), as far as a property can set them; `rest` stands for all the other fields
pub mod taffy {
    use super::*;
    #[derive(Clone, Copy)] pub enum Dimension { Length(F), Percent(F), Auto }
    #[derive(Clone, Copy)] pub enum LengthPercentage { Length(F), Percent(F) }
    #[derive(Clone, Copy)] pub enum LengthPercentageAuto { Length(F), Percent(F), Auto }
    #[derive(Clone, Copy)] pub enum Overflow { Visible, Clip, Hidden, Scroll }
    #[derive(Clone, Copy)] pub enum BoxSizing { BorderBox, ContentBox }
    #[derive(Clone, Copy)] pub enum Display { Block, Flex, Grid, None }
    #[derive(Clone, Copy)] pub enum Position { Relative, Absolute }
    #[derive(Clone, Copy)] pub enum AlignItems { Start, End, FlexStart, FlexEnd, Center, Baseline, Stretch }
    #[derive(Clone, Copy)] pub enum AlignContent { Start, End, FlexStart, FlexEnd, Center, Stretch, SpaceBetween, SpaceEvenly, SpaceAround }
    #[derive(Clone, Copy)] pub enum FlexDirection { Row, Column, RowReverse, ColumnReverse }
    #[derive(Clone, Copy)] pub enum FlexWrap { NoWrap, Wrap, WrapReverse }
    pub struct Rect<T> { pub left: T, pub right: T, pub top: T, pub bottom: T }
    pub struct Point<T> { pub x: T, pub y: T }
    pub struct Size<T> { pub width: T, pub height: T }
    pub struct Style {
        pub display: Display, pub box_sizing: BoxSizing, pub overflow: Point<Overflow>, pub scrollbar_width: F, pub position: Position, pub inset: Rect<LengthPercentageAuto>,
        pub size: Size<Dimension>, pub min_size: Size<Dimension>, pub max_size: Size<Dimension>, pub aspect_ratio: Option<F>, pub margin: Rect<LengthPercentageAuto>,
        pub padding: Rect<LengthPercentage>, pub border: Rect<LengthPercentage>, pub align_items: Option<AlignItems>, pub align_self: Option<AlignItems>, pub justify_items: Option<AlignItems>,
        pub justify_self: Option<AlignItems>, pub align_content: Option<AlignContent>, pub justify_content: Option<AlignContent>, pub gap: Size<LengthPercentage>,
        pub flex_direction: FlexDirection, pub flex_wrap: FlexWrap, pub flex_basis: Dimension, pub flex_grow: F, pub flex_shrink: F, pub rest: u64,
    }
}
use taffy::{BoxSizing, Dimension, LengthPercentage, LengthPercentageAuto, Overflow};
// ---- lengths ----
pub open spec fn f0() -> F { f_of(0.0real) }
pub open spec fn length_of(d: Dim, s: Sizes) -> real {
    let v = d.value@;
    match d.unit {
        Units::Px => v,
        Units::Em => s.parent_font_size@ * v,
        Units::Rem => s.root_font_size@ * v,
        Units::Vw => s.viewport_width@ * v / 100.0real,
        Units::Vh => s.viewport_height@ * v / 100.0real,
        Units::Vmax => rmax(s.viewport_width@, s.viewport_height@) * v / 100.0real,
        Units::Vmin => rmin(s.viewport_width@, s.viewport_height@) * v / 100.0real,
    }
}
pub open spec fn res<T>(r: Result<T, CascadeError>, w: Option<T>) -> bool { match w { Some(v) => r == Ok::<T, CascadeError>(v), None => r is Err } }
pub open spec fn want_length(v: ComputedValue, s: Sizes) -> Option<F> {
    match v { ComputedValue::Zero => Some(f0()), ComputedValue::Dimension(d) => Some(f_of(length_of(d, s))), ComputedValue::Number(n) => Some(n), _ => None }
}
pub open spec fn want_based(v: ComputedValue, s: Sizes, base: F) -> Option<F> {
    match v { ComputedValue::Percentage(p) => Some(f_of(p@ * base@)), _ => want_length(v, s) }
}
pub open spec fn want_lengthp(v: ComputedValue, s: Sizes) -> Option<LengthPercentage> {
    match v {
        ComputedValue::Zero => Some(LengthPercentage::Length(f0())), ComputedValue::Dimension(d) => Some(LengthPercentage::Length(f_of(length_of(d, s)))),
        ComputedValue::Percentage(p) => Some(LengthPercentage::Percent(p)), _ => None,
    }
}
pub open spec fn want_lengthp_auto(v: ComputedValue, s: Sizes) -> Option<LengthPercentageAuto> {
    match v {
        ComputedValue::Zero => Some(LengthPercentageAuto::Length(f0())), ComputedValue::Dimension(d) => Some(LengthPercentageAuto::Length(f_of(length_of(d, s)))),
        ComputedValue::Percentage(p) => Some(LengthPercentageAuto::Percent(p)), ComputedValue::Keyword(k) => if k@ == "auto"@ { Some(LengthPercentageAuto::Auto) } else { None }, _ => None,
    }
}
pub open spec fn want_dimension(v: ComputedValue, s: Sizes) -> Option<Dimension> {
    match v {
        ComputedValue::Zero => Some(Dimension::Length(f0())), ComputedValue::Dimension(d) => Some(Dimension::Length(f_of(length_of(d, s)))),
        ComputedValue::Percentage(p) => Some(Dimension::Percent(p)), ComputedValue::Keyword(k) => if k@ == "auto"@ { Some(Dimension::Auto) } else { None }, _ => None,
    }
}
pub open spec fn want_radius(v: ComputedValue, s: Sizes) -> Option<Length> {
    match v { ComputedValue::Dimension(d) => Some(Length::Number(f_of(length_of(d, s)))), ComputedValue::Percentage(p) => Some(Length::Percent(p)), _ => None }
}

// ---- other kinds of values ----
pub open spec fn want_alpha(v: ComputedValue) -> Option<F> {
    match v { ComputedValue::Zero => Some(f0()), ComputedValue::Number(n) => Some(n), ComputedValue::Percentage(p) => Some(p), _ => None }
}
pub open spec fn want_number(v: ComputedValue) -> Option<F> { match v { ComputedValue::Zero => Some(f0()), ComputedValue::Number(n) => Some(n), _ => None } }
pub open spec fn want_time(v: ComputedValue) -> Option<F> { match v { ComputedValue::Time(t) => Some(t), _ => None } }
pub open spec fn want_string(v: ComputedValue) -> Option<Text> { match v { ComputedValue::Str(t) => Some(t), _ => None } }
pub open spec fn want_color(v: ComputedValue, s: Sizes) -> Option<[u8; 4]> {
    match v {
        ComputedValue::Color(c) => Some(c),
        ComputedValue::Keyword(k) =>
            if k@ == "black"@ { Some([0u8, 0u8, 0u8, 255u8]) } else if k@ == "white"@ { Some([255u8, 255u8, 255u8, 255u8]) } else if k@ == "red"@ { Some([255u8, 0u8, 0u8, 255u8]) }
            else if k@ == "green"@ { Some([0u8, 255u8, 0u8, 255u8]) } else if k@ == "blue"@ { Some([0u8, 0u8, 255u8, 255u8]) } else if k@ == "transparent"@ { Some([0u8, 0u8, 0u8, 0u8]) }
            else if k@ == "currentcolor"@ || k@ == "currentColor"@ { Some(s.parent_color) } else { None },
        _ => None,
    }
}
//@lits lits_color black | white | red | green | blue | transparent | currentcolor | currentColor
pub open spec fn want_weight(v: ComputedValue) -> Option<u16> {
    match v {
        ComputedValue::Number(n) => if 1.0real <= n@ <= 1000.0real { Some(cut(n@, 65535) as u16) } else { None },
        ComputedValue::Keyword(k) => if k@ == "normal"@ { Some(400u16) } else if k@ == "bold"@ { Some(700u16) } else { None },
        _ => None,
    }
}
//@lits lits_weight normal | bold
pub open spec fn want_timing(v: ComputedValue) -> Option<TimingFunction> {
    match v {
        ComputedValue::Keyword(k) =>
            if k@ == "ease"@ { Some(TimingFunction::Ease) } else if k@ == "ease-in"@ { Some(TimingFunction::EaseIn) } else if k@ == "ease-out"@ { Some(TimingFunction::EaseOut) }
            else if k@ == "ease-in-out"@ { Some(TimingFunction::EaseInOut) } else if k@ == "linear"@ { Some(TimingFunction::Linear) }
            else if k@ == "step-start"@ { Some(TimingFunction::StepStart) } else if k@ == "step-end"@ { Some(TimingFunction::StepEnd) } else { None },
        _ => None,
    }
}
//@lits lits_timing ease | ease-in | ease-out | ease-in-out | linear | step-start | step-end
pub open spec fn want_iterations(v: ComputedValue) -> Option<AnimationIterations> {
    match v {
        ComputedValue::Keyword(k) => if k@ == "infinite"@ { Some(AnimationIterations::Infinite) } else { None },
        ComputedValue::Number(n) => Some(AnimationIterations::Number(n)), ComputedValue::Zero => Some(AnimationIterations::Number(f0())), _ => None,
    }
}
pub open spec fn kw_overflow(k: Seq<char>) -> Option<Overflow> {
    if k == "visible"@ { Some(Overflow::Visible) } else if k == "hidden"@ { Some(Overflow::Hidden) } else if k == "clip"@ { Some(Overflow::Clip) }
    else if k == "scroll"@ || k == "auto"@ { Some(Overflow::Scroll) } else { None }
}
//@lits lits_overflow visible | hidden | clip | scroll | auto
pub open spec fn kw_items(k: Seq<char>) -> Option<Option<taffy::AlignItems>> {
    if k == "normal"@ { Some(None) } else if k == "start"@ { Some(Some(taffy::AlignItems::Start)) } else if k == "end"@ { Some(Some(taffy::AlignItems::End)) }
    else if k == "flex-start"@ { Some(Some(taffy::AlignItems::FlexStart)) } else if k == "flex-end"@ { Some(Some(taffy::AlignItems::FlexEnd)) } else if k == "center"@ { Some(Some(taffy::AlignItems::Center)) }
    else if k == "baseline"@ { Some(Some(taffy::AlignItems::Baseline)) } else if k == "stretch"@ { Some(Some(taffy::AlignItems::Stretch)) } else { None }
}
//@lits lits_items normal | start | end | flex-start | flex-end | center | baseline | stretch
pub open spec fn kw_content(k: Seq<char>) -> Option<Option<taffy::AlignContent>> {
    if k == "normal"@ { Some(None) } else if k == "start"@ { Some(Some(taffy::AlignContent::Start)) } else if k == "end"@ { Some(Some(taffy::AlignContent::End)) }
    else if k == "flex-start"@ { Some(Some(taffy::AlignContent::FlexStart)) } else if k == "flex-end"@ { Some(Some(taffy::AlignContent::FlexEnd)) } else if k == "center"@ { Some(Some(taffy::AlignContent::Center)) }
    else if k == "stretch"@ { Some(Some(taffy::AlignContent::Stretch)) } else if k == "space-between"@ { Some(Some(taffy::AlignContent::SpaceBetween)) }
    else if k == "space-evenly"@ { Some(Some(taffy::AlignContent::SpaceEvenly)) } else if k == "space-around"@ { Some(Some(taffy::AlignContent::SpaceAround)) } else { None }
}
//@lits lits_content normal | start | end | flex-start | flex-end | center | stretch | space-between | space-evenly | space-around
pub open spec fn kw_align(k: Seq<char>) -> Option<TextAlign> {
    if k == "start"@ { Some(TextAlign::Start) } else if k == "end"@ { Some(TextAlign::End) } else if k == "left"@ { Some(TextAlign::Left) } else if k == "right"@ { Some(TextAlign::Right) } else if k == "center"@ { Some(TextAlign::Center) } else if k == "justify"@ { Some(TextAlign::Justify) } else if k == "justify-all"@ { Some(TextAlign::JustifyAll) } else if k == "match-parent"@ { Some(TextAlign::MatchParent) } else { None }
}
//@lits lits_align start | end | left | right | center | justify | justify-all | match-parent
pub open spec fn kw_events(k: Seq<char>) -> Option<PointerEvents> {
    if k == "auto"@ { Some(PointerEvents::Auto) } else if k == "none"@ { Some(PointerEvents::None) } else { None }
}
//@lits lits_events auto | none
pub open spec fn kw_cursor(k: Seq<char>) -> Option<Pointer> {
    if k == "auto"@ { Some(Pointer::Auto) } else if k == "default"@ { Some(Pointer::Default) } else if k == "pointer"@ { Some(Pointer::Pointer) } else if k == "context-menu"@ { Some(Pointer::ContextMenu) } else if k == "help"@ { Some(Pointer::Help) } else if k == "progress"@ { Some(Pointer::Progress) } else if k == "wait"@ { Some(Pointer::Wait) } else if k == "text"@ { Some(Pointer::Text) } else if k == "not-allowed"@ { Some(Pointer::NotAllowed) } else { None }
}
//@lits lits_cursor auto | default | pointer | context-menu | help | progress | wait | text | not-allowed
pub open spec fn kw_visible(k: Seq<char>) -> Option<bool> {
    if k == "visible"@ { Some(true) } else if k == "hidden"@ { Some(false) } else { None }
}
//@lits lits_visible visible | hidden
pub open spec fn kw_sizing(k: Seq<char>) -> Option<BoxSizing> {
    if k == "border-box"@ { Some(BoxSizing::BorderBox) } else if k == "content-box"@ { Some(BoxSizing::ContentBox) } else { None }
}
//@lits lits_sizing border-box | content-box
pub open spec fn kw_display(k: Seq<char>) -> Option<taffy::Display> {
    if k == "flow"@ { Some(taffy::Display::Block) } else if k == "block"@ { Some(taffy::Display::Block) } else if k == "flex"@ { Some(taffy::Display::Flex) } else if k == "grid"@ { Some(taffy::Display::Grid) } else { None }
}
//@lits lits_display flow | block | flex | grid
pub open spec fn kw_position(k: Seq<char>) -> Option<taffy::Position> {
    if k == "relative"@ { Some(taffy::Position::Relative) } else if k == "absolute"@ { Some(taffy::Position::Absolute) } else { None }
}
//@lits lits_position relative | absolute
pub open spec fn kw_direction(k: Seq<char>) -> Option<taffy::FlexDirection> {
    if k == "row"@ { Some(taffy::FlexDirection::Row) } else if k == "row-reverse"@ { Some(taffy::FlexDirection::RowReverse) } else if k == "column"@ { Some(taffy::FlexDirection::Column) } else if k == "column-reverse"@ { Some(taffy::FlexDirection::ColumnReverse) } else { None }
}
//@lits lits_direction row | row-reverse | column | column-reverse
pub open spec fn kw_wrap(k: Seq<char>) -> Option<taffy::FlexWrap> {
    if k == "wrap"@ { Some(taffy::FlexWrap::Wrap) } else if k == "nowrap"@ { Some(taffy::FlexWrap::NoWrap) } else if k == "wrap-reverse"@ { Some(taffy::FlexWrap::WrapReverse) } else { None }
}
//@lits lits_wrap wrap | nowrap | wrap-reverse
pub open spec fn kw_turn(k: Seq<char>) -> Option<AnimationDirection> {
    if k == "normal"@ { Some(AnimationDirection::Normal) } else if k == "reverse"@ { Some(AnimationDirection::Reverse) } else if k == "alternate"@ { Some(AnimationDirection::Alternate) } else if k == "alternate-reverse"@ { Some(AnimationDirection::AlternateReverse) } else { None }
}
//@lits lits_turn normal | reverse | alternate | alternate-reverse
pub open spec fn kw_fill(k: Seq<char>) -> Option<AnimationFillMode> {
    if k == "none"@ { Some(AnimationFillMode::None) } else if k == "forwards"@ { Some(AnimationFillMode::Forwards) } else if k == "backwards"@ { Some(AnimationFillMode::Backwards) } else if k == "both"@ { Some(AnimationFillMode::Both) } else { None }
}
//@lits lits_fill none | forwards | backwards | both
pub open spec fn kw_running(k: Seq<char>) -> Option<bool> {
    if k == "running"@ { Some(true) } else if k == "paused"@ { Some(false) } else { None }
}
//@lits lits_running running | paused
pub open spec fn kw_style(k: Seq<char>) -> Option<Seq<char>> { if k == "normal"@ || k == "italic"@ || k == "oblique"@ { Some(k) } else { None } }
//@lits lits_style normal | italic | oblique
pub open spec fn kw_none(k: Seq<char>) -> Option<Option<Text>> { if k == "none"@ { Some(None) } else { None } }
pub open spec fn word(v: ComputedValue) -> Option<Seq<char>> { match v { ComputedValue::Keyword(k) => Some(k@), _ => None } }
pub uninterp spec fn key_named(name: Seq<char>) -> Option<PropertyKey>;
impl PropertyKey { #[verifier::external_body] pub fn parse(name: &Text) -> (r: Option<PropertyKey>) ensures r == key_named(name@) { unimplemented!() } }
pub open spec fn by_word<T>(v: ComputedValue, f: spec_fn(Seq<char>) -> Option<T>) -> Option<T> { match v { ComputedValue::Keyword(k) => f(k@), _ => None } }
/// what a layout property does to the layout style
pub open spec fn lays(key: PropertyKey, v: ComputedValue, s: Sizes, l0: taffy::Style, l1: taffy::Style) -> bool {
    match key {
        PropertyKey::MarginTop => l1 == (taffy::Style { margin: taffy::Rect { top: l1.margin.top, ..l0.margin }, ..l0 }) && want_lengthp_auto(v, s) == Some(l1.margin.top),
        PropertyKey::PaddingTop => l1 == (taffy::Style { padding: taffy::Rect { top: l1.padding.top, ..l0.padding }, ..l0 }) && want_lengthp(v, s) == Some(l1.padding.top),
        PropertyKey::Top => l1 == (taffy::Style { inset: taffy::Rect { top: l1.inset.top, ..l0.inset }, ..l0 }) && want_lengthp_auto(v, s) == Some(l1.inset.top),
        PropertyKey::MarginRight => l1 == (taffy::Style { margin: taffy::Rect { right: l1.margin.right, ..l0.margin }, ..l0 }) && want_lengthp_auto(v, s) == Some(l1.margin.right),
        PropertyKey::PaddingRight => l1 == (taffy::Style { padding: taffy::Rect { right: l1.padding.right, ..l0.padding }, ..l0 }) && want_lengthp(v, s) == Some(l1.padding.right),
        PropertyKey::Right => l1 == (taffy::Style { inset: taffy::Rect { right: l1.inset.right, ..l0.inset }, ..l0 }) && want_lengthp_auto(v, s) == Some(l1.inset.right),
        PropertyKey::MarginBottom => l1 == (taffy::Style { margin: taffy::Rect { bottom: l1.margin.bottom, ..l0.margin }, ..l0 }) && want_lengthp_auto(v, s) == Some(l1.margin.bottom),
        PropertyKey::PaddingBottom => l1 == (taffy::Style { padding: taffy::Rect { bottom: l1.padding.bottom, ..l0.padding }, ..l0 }) && want_lengthp(v, s) == Some(l1.padding.bottom),
        PropertyKey::Bottom => l1 == (taffy::Style { inset: taffy::Rect { bottom: l1.inset.bottom, ..l0.inset }, ..l0 }) && want_lengthp_auto(v, s) == Some(l1.inset.bottom),
        PropertyKey::MarginLeft => l1 == (taffy::Style { margin: taffy::Rect { left: l1.margin.left, ..l0.margin }, ..l0 }) && want_lengthp_auto(v, s) == Some(l1.margin.left),
        PropertyKey::PaddingLeft => l1 == (taffy::Style { padding: taffy::Rect { left: l1.padding.left, ..l0.padding }, ..l0 }) && want_lengthp(v, s) == Some(l1.padding.left),
        PropertyKey::Left => l1 == (taffy::Style { inset: taffy::Rect { left: l1.inset.left, ..l0.inset }, ..l0 }) && want_lengthp_auto(v, s) == Some(l1.inset.left),
        PropertyKey::Width => l1 == (taffy::Style { size: taffy::Size { width: l1.size.width, ..l0.size }, ..l0 }) && want_dimension(v, s) == Some(l1.size.width),
        PropertyKey::Height => l1 == (taffy::Style { size: taffy::Size { height: l1.size.height, ..l0.size }, ..l0 }) && want_dimension(v, s) == Some(l1.size.height),
        PropertyKey::MinWidth => l1 == (taffy::Style { min_size: taffy::Size { width: l1.min_size.width, ..l0.min_size }, ..l0 }) && want_dimension(v, s) == Some(l1.min_size.width),
        PropertyKey::MinHeight => l1 == (taffy::Style { min_size: taffy::Size { height: l1.min_size.height, ..l0.min_size }, ..l0 }) && want_dimension(v, s) == Some(l1.min_size.height),
        PropertyKey::MaxWidth => l1 == (taffy::Style { max_size: taffy::Size { width: l1.max_size.width, ..l0.max_size }, ..l0 }) && want_dimension(v, s) == Some(l1.max_size.width),
        PropertyKey::MaxHeight => l1 == (taffy::Style { max_size: taffy::Size { height: l1.max_size.height, ..l0.max_size }, ..l0 }) && want_dimension(v, s) == Some(l1.max_size.height),
        PropertyKey::ColumnGap => l1 == (taffy::Style { gap: taffy::Size { width: l1.gap.width, ..l0.gap }, ..l0 }) && want_lengthp(v, s) == Some(l1.gap.width),
        PropertyKey::RowGap => l1 == (taffy::Style { gap: taffy::Size { height: l1.gap.height, ..l0.gap }, ..l0 }) && want_lengthp(v, s) == Some(l1.gap.height),
        PropertyKey::FlexBasis => l1 == (taffy::Style { flex_basis: l1.flex_basis, ..l0 }) && want_dimension(v, s) == Some(l1.flex_basis),
        PropertyKey::FlexGrow => l1 == (taffy::Style { flex_grow: l1.flex_grow, ..l0 }) && want_number(v) == Some(l1.flex_grow),
        PropertyKey::FlexShrink => l1 == (taffy::Style { flex_shrink: l1.flex_shrink, ..l0 }) && want_number(v) == Some(l1.flex_shrink),
        PropertyKey::BoxSizing => l1 == (taffy::Style { box_sizing: l1.box_sizing, ..l0 }) && by_word(v, |k: Seq<char>| kw_sizing(k)) == Some(l1.box_sizing),
        PropertyKey::Display => l1 == (taffy::Style { display: l1.display, ..l0 }) && by_word(v, |k: Seq<char>| kw_display(k)) == Some(l1.display),
        PropertyKey::OverflowX => l1 == (taffy::Style { overflow: taffy::Point { x: l1.overflow.x, ..l0.overflow }, ..l0 }) && by_word(v, |k: Seq<char>| kw_overflow(k)) == Some(l1.overflow.x),
        PropertyKey::OverflowY => l1 == (taffy::Style { overflow: taffy::Point { y: l1.overflow.y, ..l0.overflow }, ..l0 }) && by_word(v, |k: Seq<char>| kw_overflow(k)) == Some(l1.overflow.y),
        PropertyKey::Position => l1 == (taffy::Style { position: l1.position, ..l0 }) && by_word(v, |k: Seq<char>| kw_position(k)) == Some(l1.position),
        PropertyKey::AlignContent => l1 == (taffy::Style { align_content: l1.align_content, ..l0 }) && by_word(v, |k: Seq<char>| kw_content(k)) == Some(l1.align_content),
        PropertyKey::JustifyContent => l1 == (taffy::Style { justify_content: l1.justify_content, ..l0 }) && by_word(v, |k: Seq<char>| kw_content(k)) == Some(l1.justify_content),
        PropertyKey::AlignItems => l1 == (taffy::Style { align_items: l1.align_items, ..l0 }) && by_word(v, |k: Seq<char>| kw_items(k)) == Some(l1.align_items),
        PropertyKey::AlignSelf => l1 == (taffy::Style { align_self: l1.align_self, ..l0 }) && by_word(v, |k: Seq<char>| kw_items(k)) == Some(l1.align_self),
        PropertyKey::JustifyItems => l1 == (taffy::Style { justify_items: l1.justify_items, ..l0 }) && by_word(v, |k: Seq<char>| kw_items(k)) == Some(l1.justify_items),
        PropertyKey::JustifySelf => l1 == (taffy::Style { justify_self: l1.justify_self, ..l0 }) && by_word(v, |k: Seq<char>| kw_items(k)) == Some(l1.justify_self),
        PropertyKey::FlexDirection => l1 == (taffy::Style { flex_direction: l1.flex_direction, ..l0 }) && by_word(v, |k: Seq<char>| kw_direction(k)) == Some(l1.flex_direction),
        PropertyKey::FlexWrap => l1 == (taffy::Style { flex_wrap: l1.flex_wrap, ..l0 }) && by_word(v, |k: Seq<char>| kw_wrap(k)) == Some(l1.flex_wrap),
        _ => false,
    }
}
/// what a property of the element itself does to it
pub open spec fn paints(key: PropertyKey, v: ComputedValue, s: Sizes, e0: Element, e1: Element) -> bool {
    match key {
        PropertyKey::Opacity => e1 == (Element { self_opacity: e1.self_opacity, ..e0 }) && want_alpha(v) == Some(e1.self_opacity),
        PropertyKey::Color => e1 == (Element { color: e1.color, ..e0 }) && want_color(v, s) == Some(e1.color),
        PropertyKey::FontSize => e1 == (Element { font: FontFace { size: e1.font.size, ..e0.font }, ..e0 }) && want_based(v, s, s.parent_font_size) == Some(e1.font.size),
        PropertyKey::FontWeight => e1 == (Element { font: FontFace { weight: e1.font.weight, ..e0.font }, ..e0 }) && want_weight(v) == Some(e1.font.weight),
        PropertyKey::FontFamily => e1 == (Element { font: FontFace { family: e1.font.family, ..e0.font }, ..e0 }) && want_string(v) == Some(e1.font.family),
        PropertyKey::TextAlign => e1 == (Element { font: FontFace { align: e1.font.align, ..e0.font }, ..e0 }) && by_word(v, |k: Seq<char>| kw_align(k)) == Some(e1.font.align),
        PropertyKey::FontStyle => e1 == (Element { font: FontFace { style: e1.font.style, ..e0.font }, ..e0 }) && by_word(v, |k: Seq<char>| kw_style(k)) == Some(e1.font.style@),
        PropertyKey::PointerEvents => e1 == (Element { pointer_events: e1.pointer_events, ..e0 }) && by_word(v, |k: Seq<char>| kw_events(k)) == Some(e1.pointer_events),
        PropertyKey::Cursor => e1 == (Element { pointer: e1.pointer, ..e0 }) && by_word(v, |k: Seq<char>| kw_cursor(k)) == Some(e1.pointer),
        PropertyKey::Visibility => e1 == (Element { visible: e1.visible, ..e0 }) && by_word(v, |k: Seq<char>| kw_visible(k)) == Some(e1.visible),
        PropertyKey::BorderTopColor => e1 == (Element { borders: Borders { top: MyBorder { color: e1.borders.top.color, ..e0.borders.top }, ..e0.borders }, ..e0 }) && want_color(v, s) == Some(e1.borders.top.color),
        PropertyKey::BorderRightColor => e1 == (Element { borders: Borders { right: MyBorder { color: e1.borders.right.color, ..e0.borders.right }, ..e0.borders }, ..e0 }) && want_color(v, s) == Some(e1.borders.right.color),
        PropertyKey::BorderBottomColor => e1 == (Element { borders: Borders { bottom: MyBorder { color: e1.borders.bottom.color, ..e0.borders.bottom }, ..e0.borders }, ..e0 }) && want_color(v, s) == Some(e1.borders.bottom.color),
        PropertyKey::BorderLeftColor => e1 == (Element { borders: Borders { left: MyBorder { color: e1.borders.left.color, ..e0.borders.left }, ..e0.borders }, ..e0 }) && want_color(v, s) == Some(e1.borders.left.color),
        PropertyKey::BorderTopLeftRadius => e1 == (Element { borders: Borders { radius: e1.borders.radius, ..e0.borders }, ..e0 }) && e1.borders.radius@ == e0.borders.radius@.update(0, e1.borders.radius@[0]) && want_radius(v, s) == Some(e1.borders.radius@[0]),
        PropertyKey::BorderTopRightRadius => e1 == (Element { borders: Borders { radius: e1.borders.radius, ..e0.borders }, ..e0 }) && e1.borders.radius@ == e0.borders.radius@.update(1, e1.borders.radius@[1]) && want_radius(v, s) == Some(e1.borders.radius@[1]),
        PropertyKey::BorderBottomRightRadius => e1 == (Element { borders: Borders { radius: e1.borders.radius, ..e0.borders }, ..e0 }) && e1.borders.radius@ == e0.borders.radius@.update(2, e1.borders.radius@[2]) && want_radius(v, s) == Some(e1.borders.radius@[2]),
        PropertyKey::BorderBottomLeftRadius => e1 == (Element { borders: Borders { radius: e1.borders.radius, ..e0.borders }, ..e0 }) && e1.borders.radius@ == e0.borders.radius@.update(3, e1.borders.radius@[3]) && want_radius(v, s) == Some(e1.borders.radius@[3]),
        _ => false,
    }
}
/// border widths take part in both
pub open spec fn frames(key: PropertyKey, v: ComputedValue, s: Sizes, l0: taffy::Style, e0: Element, l1: taffy::Style, e1: Element) -> bool {
    match key {
        PropertyKey::BorderTopWidth => e1 == (Element { borders: Borders { top: MyBorder { width: e1.borders.top.width, ..e0.borders.top }, ..e0.borders }, ..e0 }) && l1 == (taffy::Style { border: taffy::Rect { top: LengthPercentage::Length(e1.borders.top.width), ..l0.border }, ..l0 }) && want_length(v, s) == Some(e1.borders.top.width),
        PropertyKey::BorderRightWidth => e1 == (Element { borders: Borders { right: MyBorder { width: e1.borders.right.width, ..e0.borders.right }, ..e0.borders }, ..e0 }) && l1 == (taffy::Style { border: taffy::Rect { right: LengthPercentage::Length(e1.borders.right.width), ..l0.border }, ..l0 }) && want_length(v, s) == Some(e1.borders.right.width),
        PropertyKey::BorderBottomWidth => e1 == (Element { borders: Borders { bottom: MyBorder { width: e1.borders.bottom.width, ..e0.borders.bottom }, ..e0.borders }, ..e0 }) && l1 == (taffy::Style { border: taffy::Rect { bottom: LengthPercentage::Length(e1.borders.bottom.width), ..l0.border }, ..l0 }) && want_length(v, s) == Some(e1.borders.bottom.width),
        PropertyKey::BorderLeftWidth => e1 == (Element { borders: Borders { left: MyBorder { width: e1.borders.left.width, ..e0.borders.left }, ..e0.borders }, ..e0 }) && l1 == (taffy::Style { border: taffy::Rect { left: LengthPercentage::Length(e1.borders.left.width), ..l0.border }, ..l0 }) && want_length(v, s) == Some(e1.borders.left.width),
        _ => false,
    }
}
// ---- layers ----
pub open spec fn def_background(b: Background) -> bool { b.image is None && !b.is_src && b.color@ =~= seq![0u8, 0u8, 0u8, 0u8] && b.src@ =~= seq![f0(), f0()] }
/// layer b is layer i of s as it was
pub open spec fn image_kept(s: Seq<Background>, i: int, b: Background) -> bool { b.image == (if i < s.len() { s[i].image } else { None }) && b.is_src == (i < s.len() && s[i].is_src) }
pub open spec fn color_kept(s: Seq<Background>, i: int, b: Background) -> bool { b.color@ =~= (if i < s.len() { s[i].color@ } else { seq![0u8, 0u8, 0u8, 0u8] }) }
pub open spec fn src_of(s: Seq<Background>, i: int) -> Seq<F> { if i < s.len() { s[i].src@ } else { seq![f0(), f0()] } }
pub open spec fn def_animator() -> Animator {
    Animator { name: text_with(Seq::empty()), delay: f0(), direction: AnimationDirection::Normal, duration: f0(), fill_mode: AnimationFillMode::None, timing: TimingFunction::Linear, iterations: AnimationIterations::Number(f_of(1.0real)), running: true, time: f0() }
}
pub open spec fn def_transition(t: Transition) -> bool { t.key is None && t.animator == def_animator() && t.ranges@ =~= Seq::empty() }
pub open spec fn base<T>(s: Seq<T>, i: int, d: T) -> T { if i < s.len() { s[i] } else { d } }
/// only layer i changes; layers that were missing before it start as given
pub open spec fn layered<T>(s0: Seq<T>, i: int, d: spec_fn(T) -> bool, s1: Seq<T>) -> bool {
    s1.len() == (if i < s0.len() { s0.len() as int } else { i + 1 }) && forall|k: int| 0 <= k < s1.len() && k != i ==> if k < s0.len() { (#[trigger] s1[k]) == s0[k] } else { d(s1[k]) }
}
pub open spec fn is_background() -> spec_fn(Background) -> bool { |x: Background| def_background(x) }
pub open spec fn is_animator() -> spec_fn(Animator) -> bool { |x: Animator| x == def_animator() }
pub open spec fn is_transition() -> spec_fn(Transition) -> bool { |x: Transition| def_transition(x) }
pub open spec fn want_image(v: ComputedValue) -> Option<Option<Text>> { match v { ComputedValue::Keyword(k) => kw_none(k@), ComputedValue::Str(t) => Some(Some(t)), _ => None } }
pub open spec fn want_position(v: ComputedValue, s: Sizes) -> Option<F> { match want_based(v, s, f0()) { Some(x) => Some(f_of(0.0real - x@)), None => None } }
pub open spec fn covers(key: PropertyKey, i: int, v: ComputedValue, s: Sizes, e0: Element, e1: Element) -> bool {
    &&& e1 == (Element { backgrounds: e1.backgrounds, ..e0 }) && layered(e0.backgrounds@, i, is_background(), e1.backgrounds@)
    &&& match key {
        PropertyKey::BackgroundColor => image_kept(e0.backgrounds@, i, e1.backgrounds@[i]) && e1.backgrounds@[i].src@ =~= src_of(e0.backgrounds@, i) && want_color(v, s) == Some(e1.backgrounds@[i].color),
        PropertyKey::BackgroundImage => color_kept(e0.backgrounds@, i, e1.backgrounds@[i]) && e1.backgrounds@[i].src@ =~= src_of(e0.backgrounds@, i) && e1.backgrounds@[i].is_src == (i < e0.backgrounds@.len() && e0.backgrounds@[i].is_src) && want_image(v) == Some(e1.backgrounds@[i].image),
        PropertyKey::BackgroundPositionX => image_kept(e0.backgrounds@, i, e1.backgrounds@[i]) && color_kept(e0.backgrounds@, i, e1.backgrounds@[i]) && e1.backgrounds@[i].src@ =~= src_of(e0.backgrounds@, i).update(0, e1.backgrounds@[i].src@[0]) && want_position(v, s) == Some(e1.backgrounds@[i].src@[0]),
        PropertyKey::BackgroundPositionY => image_kept(e0.backgrounds@, i, e1.backgrounds@[i]) && color_kept(e0.backgrounds@, i, e1.backgrounds@[i]) && e1.backgrounds@[i].src@ =~= src_of(e0.backgrounds@, i).update(1, e1.backgrounds@[i].src@[1]) && want_position(v, s) == Some(e1.backgrounds@[i].src@[1]),
        _ => false,
    }
}
pub open spec fn animates(key: PropertyKey, i: int, v: ComputedValue, s: Sizes, e0: Element, e1: Element) -> bool {
    &&& e1 == (Element { animators: e1.animators, ..e0 }) && layered(e0.animators@, i, is_animator(), e1.animators@)
    &&& match key {
        PropertyKey::AnimationName => match word(v) { Some(k) => e1.animators@[i].name@ == k && e1.animators@[i] == (if base(e0.animators@, i, def_animator()).name@ == k { base(e0.animators@, i, def_animator()) } else { Animator { name: e1.animators@[i].name, time: f0(), ..base(e0.animators@, i, def_animator()) } }), None => false },
        PropertyKey::AnimationDelay => e1.animators@[i] == (Animator { delay: e1.animators@[i].delay, ..base(e0.animators@, i, def_animator()) }) && want_time(v) == Some(e1.animators@[i].delay),
        PropertyKey::AnimationDuration => e1.animators@[i] == (Animator { duration: e1.animators@[i].duration, ..base(e0.animators@, i, def_animator()) }) && want_time(v) == Some(e1.animators@[i].duration),
        PropertyKey::AnimationDirection => e1.animators@[i] == (Animator { direction: e1.animators@[i].direction, ..base(e0.animators@, i, def_animator()) }) && by_word(v, |k: Seq<char>| kw_turn(k)) == Some(e1.animators@[i].direction),
        PropertyKey::AnimationFillMode => e1.animators@[i] == (Animator { fill_mode: e1.animators@[i].fill_mode, ..base(e0.animators@, i, def_animator()) }) && by_word(v, |k: Seq<char>| kw_fill(k)) == Some(e1.animators@[i].fill_mode),
        PropertyKey::AnimationIterationCount => e1.animators@[i] == (Animator { iterations: e1.animators@[i].iterations, ..base(e0.animators@, i, def_animator()) }) && want_iterations(v) == Some(e1.animators@[i].iterations),
        PropertyKey::AnimationPlayState => e1.animators@[i] == (Animator { running: e1.animators@[i].running, ..base(e0.animators@, i, def_animator()) }) && by_word(v, |k: Seq<char>| kw_running(k)) == Some(e1.animators@[i].running),
        PropertyKey::AnimationTimingFunction => e1.animators@[i] == (Animator { timing: e1.animators@[i].timing, ..base(e0.animators@, i, def_animator()) }) && want_timing(v) == Some(e1.animators@[i].timing),
        _ => false,
    }
}
pub open spec fn want_key(v: ComputedValue) -> Option<PropertyKey> { match v { ComputedValue::Keyword(k) => key_named(k@), _ => None } }
pub open spec fn moves(key: PropertyKey, i: int, v: ComputedValue, s: Sizes, e0: Element, e1: Element) -> bool {
    &&& e1 == (Element { transitions: e1.transitions, ..e0 }) && layered(e0.transitions@, i, is_transition(), e1.transitions@)
    &&& match key {
        PropertyKey::TransitionDelay => e1.transitions@[i].key == (if i < e0.transitions@.len() { e0.transitions@[i].key } else { None }) && e1.transitions@[i].ranges@ == (if i < e0.transitions@.len() { e0.transitions@[i].ranges@ } else { Seq::empty() }) && e1.transitions@[i].animator == (Animator { delay: e1.transitions@[i].animator.delay, ..(if i < e0.transitions@.len() { e0.transitions@[i].animator } else { def_animator() }) }) && want_time(v) == Some(e1.transitions@[i].animator.delay),
        PropertyKey::TransitionDuration => e1.transitions@[i].key == (if i < e0.transitions@.len() { e0.transitions@[i].key } else { None }) && e1.transitions@[i].ranges@ == (if i < e0.transitions@.len() { e0.transitions@[i].ranges@ } else { Seq::empty() }) && e1.transitions@[i].animator == (Animator { duration: e1.transitions@[i].animator.duration, ..(if i < e0.transitions@.len() { e0.transitions@[i].animator } else { def_animator() }) }) && want_time(v) == Some(e1.transitions@[i].animator.duration),
        PropertyKey::TransitionTimingFunction => e1.transitions@[i].key == (if i < e0.transitions@.len() { e0.transitions@[i].key } else { None }) && e1.transitions@[i].ranges@ == (if i < e0.transitions@.len() { e0.transitions@[i].ranges@ } else { Seq::empty() }) && e1.transitions@[i].animator == (Animator { timing: e1.transitions@[i].animator.timing, ..(if i < e0.transitions@.len() { e0.transitions@[i].animator } else { def_animator() }) }) && want_timing(v) == Some(e1.transitions@[i].animator.timing),
        PropertyKey::TransitionProperty => want_key(v) is Some && e1.transitions@[i].key == want_key(v)
            && (if (if i < e0.transitions@.len() { e0.transitions@[i].key } else { None }) == want_key(v) { e1.transitions@[i].ranges@ == (if i < e0.transitions@.len() { e0.transitions@[i].ranges@ } else { Seq::empty() }) && e1.transitions@[i].animator == (if i < e0.transitions@.len() { e0.transitions@[i].animator } else { def_animator() }) } else { e1.transitions@[i].ranges@.len() == 0 && e1.transitions@[i].animator == (Animator { time: f0(), ..(if i < e0.transitions@.len() { e0.transitions@[i].animator } else { def_animator() }) }) }),
        _ => false,
    }
}
/// the values a property takes
pub open spec fn takes(key: PropertyKey, v: ComputedValue, s: Sizes) -> bool {
    match key {
        PropertyKey::Outline => true,
        PropertyKey::MarginTop | PropertyKey::Top | PropertyKey::MarginRight | PropertyKey::Right | PropertyKey::MarginBottom | PropertyKey::Bottom | PropertyKey::MarginLeft | PropertyKey::Left => want_lengthp_auto(v, s) is Some,
        PropertyKey::PaddingTop | PropertyKey::PaddingRight | PropertyKey::PaddingBottom | PropertyKey::PaddingLeft | PropertyKey::ColumnGap | PropertyKey::RowGap => want_lengthp(v, s) is Some,
        PropertyKey::Width | PropertyKey::Height | PropertyKey::MinWidth | PropertyKey::MinHeight | PropertyKey::MaxWidth | PropertyKey::MaxHeight | PropertyKey::FlexBasis => want_dimension(v, s) is Some,
        PropertyKey::FlexGrow | PropertyKey::FlexShrink => want_number(v) is Some,
        PropertyKey::BoxSizing => by_word(v, |k: Seq<char>| kw_sizing(k)) is Some,
        PropertyKey::Display => by_word(v, |k: Seq<char>| kw_display(k)) is Some,
        PropertyKey::OverflowX | PropertyKey::OverflowY => by_word(v, |k: Seq<char>| kw_overflow(k)) is Some,
        PropertyKey::Position => by_word(v, |k: Seq<char>| kw_position(k)) is Some,
        PropertyKey::AlignContent | PropertyKey::JustifyContent => by_word(v, |k: Seq<char>| kw_content(k)) is Some,
        PropertyKey::AlignItems | PropertyKey::AlignSelf | PropertyKey::JustifyItems | PropertyKey::JustifySelf => by_word(v, |k: Seq<char>| kw_items(k)) is Some,
        PropertyKey::FlexDirection => by_word(v, |k: Seq<char>| kw_direction(k)) is Some,
        PropertyKey::FlexWrap => by_word(v, |k: Seq<char>| kw_wrap(k)) is Some,
        PropertyKey::Opacity => want_alpha(v) is Some,
        PropertyKey::Color | PropertyKey::BorderTopColor | PropertyKey::BorderRightColor | PropertyKey::BorderBottomColor | PropertyKey::BorderLeftColor | PropertyKey::BackgroundColor => want_color(v, s) is Some,
        PropertyKey::FontSize => want_based(v, s, s.parent_font_size) is Some,
        PropertyKey::FontWeight => want_weight(v) is Some,
        PropertyKey::FontFamily => want_string(v) is Some,
        PropertyKey::TextAlign => by_word(v, |k: Seq<char>| kw_align(k)) is Some,
        PropertyKey::FontStyle => by_word(v, |k: Seq<char>| kw_style(k)) is Some,
        PropertyKey::PointerEvents => by_word(v, |k: Seq<char>| kw_events(k)) is Some,
        PropertyKey::Cursor => by_word(v, |k: Seq<char>| kw_cursor(k)) is Some,
        PropertyKey::Visibility => by_word(v, |k: Seq<char>| kw_visible(k)) is Some,
        PropertyKey::BorderTopLeftRadius | PropertyKey::BorderTopRightRadius | PropertyKey::BorderBottomRightRadius | PropertyKey::BorderBottomLeftRadius => want_radius(v, s) is Some,
        PropertyKey::BorderTopWidth | PropertyKey::BorderRightWidth | PropertyKey::BorderBottomWidth | PropertyKey::BorderLeftWidth => want_length(v, s) is Some,
        PropertyKey::BackgroundImage => want_image(v) is Some,
        PropertyKey::BackgroundPositionX | PropertyKey::BackgroundPositionY => want_position(v, s) is Some,
        PropertyKey::AnimationName => word(v) is Some,
        PropertyKey::AnimationDelay | PropertyKey::AnimationDuration | PropertyKey::TransitionDelay | PropertyKey::TransitionDuration => want_time(v) is Some,
        PropertyKey::AnimationDirection => by_word(v, |k: Seq<char>| kw_turn(k)) is Some,
        PropertyKey::AnimationFillMode => by_word(v, |k: Seq<char>| kw_fill(k)) is Some,
        PropertyKey::AnimationIterationCount => want_iterations(v) is Some,
        PropertyKey::AnimationPlayState => by_word(v, |k: Seq<char>| kw_running(k)) is Some,
        PropertyKey::AnimationTimingFunction | PropertyKey::TransitionTimingFunction => want_timing(v) is Some,
        PropertyKey::TransitionProperty => want_key(v) is Some,
        _ => false,
    }
}
pub open spec fn on_layout(key: PropertyKey) -> bool {
    match key {
        PropertyKey::MarginTop | PropertyKey::PaddingTop | PropertyKey::Top | PropertyKey::MarginRight | PropertyKey::PaddingRight | PropertyKey::Right | PropertyKey::MarginBottom | PropertyKey::PaddingBottom | PropertyKey::Bottom | PropertyKey::MarginLeft | PropertyKey::PaddingLeft | PropertyKey::Left | PropertyKey::Width | PropertyKey::Height | PropertyKey::MinWidth | PropertyKey::MinHeight | PropertyKey::MaxWidth | PropertyKey::MaxHeight | PropertyKey::ColumnGap | PropertyKey::RowGap | PropertyKey::FlexBasis | PropertyKey::FlexGrow | PropertyKey::FlexShrink | PropertyKey::BoxSizing | PropertyKey::Display | PropertyKey::OverflowX | PropertyKey::OverflowY | PropertyKey::Position | PropertyKey::AlignContent | PropertyKey::JustifyContent | PropertyKey::AlignItems | PropertyKey::AlignSelf | PropertyKey::JustifyItems | PropertyKey::JustifySelf | PropertyKey::FlexDirection | PropertyKey::FlexWrap => true,
        _ => false,
    }
}
pub open spec fn on_element(key: PropertyKey) -> bool {
    match key {
        PropertyKey::Opacity | PropertyKey::Color | PropertyKey::FontSize | PropertyKey::FontWeight | PropertyKey::FontFamily | PropertyKey::TextAlign | PropertyKey::FontStyle | PropertyKey::PointerEvents | PropertyKey::Cursor | PropertyKey::Visibility | PropertyKey::BorderTopColor | PropertyKey::BorderRightColor | PropertyKey::BorderBottomColor | PropertyKey::BorderLeftColor | PropertyKey::BorderTopLeftRadius | PropertyKey::BorderTopRightRadius | PropertyKey::BorderBottomRightRadius | PropertyKey::BorderBottomLeftRadius => true,
        _ => false,
    }
}
pub open spec fn on_both(key: PropertyKey) -> bool {
    match key {
        PropertyKey::BorderTopWidth | PropertyKey::BorderRightWidth | PropertyKey::BorderBottomWidth | PropertyKey::BorderLeftWidth => true,
        _ => false,
    }
}
pub open spec fn on_background(key: PropertyKey) -> bool {
    match key {
        PropertyKey::BackgroundColor | PropertyKey::BackgroundImage | PropertyKey::BackgroundPositionX | PropertyKey::BackgroundPositionY => true,
        _ => false,
    }
}
pub open spec fn on_animator(key: PropertyKey) -> bool {
    match key {
        PropertyKey::AnimationName | PropertyKey::AnimationDelay | PropertyKey::AnimationDuration | PropertyKey::AnimationDirection | PropertyKey::AnimationFillMode | PropertyKey::AnimationIterationCount | PropertyKey::AnimationPlayState | PropertyKey::AnimationTimingFunction => true,
        _ => false,
    }
}
pub open spec fn on_transition(key: PropertyKey) -> bool {
    match key {
        PropertyKey::TransitionDelay | PropertyKey::TransitionDuration | PropertyKey::TransitionTimingFunction | PropertyKey::TransitionProperty => true,
        _ => false,
    }
}
pub open spec fn on_nothing(key: PropertyKey) -> bool { key == PropertyKey::Outline }
/// no property is left without a rule
proof fn every_property(key: PropertyKey, v: ComputedValue, s: Sizes)
    requires takes(key, v, s),
    ensures on_nothing(key) || on_layout(key) || on_element(key) || on_both(key) || on_background(key) || on_animator(key) || on_transition(key),
{}
impl CascadeError {
//@fn src/styles/mod.rs CascadeError::invalid_keyword
//@ret r
    ensures r is Err,
//@end
}
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut() -> T>[Vec::<T, A>::resize_with](v: &mut Vec<T, A>, n: usize, f: F)
    requires call_requires(f, ()),
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> if i < old(v)@.len() { final(v)@[i] == old(v)@[i] } else { call_ensures(f, (), #[trigger] final(v)@[i]) };
impl Default for Background {
//@fn src/element.rs Default for Background::default
//@ret r
    ensures def_background(r),
//@start
    broadcast use {f_of_view, f_ext};
//@end
}
impl Default for Animator {
//@fn src/animation.rs Default for Animator::default
//@ret r
    ensures r == def_animator(),
//@start
    broadcast use {f_of_view, f_ext, text_ext, text_with_view};
//@end
}
impl Default for Transition {
//@fn src/animation.rs Default for Transition::default
//@ret r
    ensures def_transition(r),
//@end
}
impl Animator {
//@fn src/animation.rs Animator::restart
    ensures *final(self) == (Animator { time: f0(), ..*old(self) }),
//@start
    broadcast use {f_of_view, f_ext};
//@end
}
impl Element {
//@fn src/element.rs Element::get_background_mut
//@ret r
    requires index < usize::MAX,
    ensures
        if index < old(self).backgrounds@.len() { *r == old(self).backgrounds@[index as int] } else { is_background()(*r) },
        layered(old(self).backgrounds@, index as int, is_background(), final(self).backgrounds@), final(self).backgrounds@[index as int] == *final(r),
        *final(self) == (Element { backgrounds: final(self).backgrounds, ..*old(self) }),
//@end
//@fn src/element.rs Element::get_animator_mut
//@ret r
    requires index < usize::MAX,
    ensures
        if index < old(self).animators@.len() { *r == old(self).animators@[index as int] } else { is_animator()(*r) },
        layered(old(self).animators@, index as int, is_animator(), final(self).animators@), final(self).animators@[index as int] == *final(r),
        *final(self) == (Element { animators: final(self).animators, ..*old(self) }),
//@end
//@fn src/element.rs Element::get_transition_mut
//@ret r
    requires index < usize::MAX,
    ensures
        if index < old(self).transitions@.len() { *r == old(self).transitions@[index as int] } else { is_transition()(*r) },
        layered(old(self).transitions@, index as int, is_transition(), final(self).transitions@), final(self).transitions@[index as int] == *final(r),
        *final(self) == (Element { transitions: final(self).transitions, ..*old(self) }),
//@end
}
impl Borders {
//@fn src/element.rs Borders::top
//@ret r
    ensures r == if self.top.width@ > 0.0real { Some(self.top) } else { None },
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/element.rs Borders::right
//@ret r
    ensures r == if self.right.width@ > 0.0real { Some(self.right) } else { None },
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/element.rs Borders::bottom
//@ret r
    ensures r == if self.bottom.width@ > 0.0real { Some(self.bottom) } else { None },
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/element.rs Borders::left
//@ret r
    ensures r == if self.left.width@ > 0.0real { Some(self.left) } else { None },
//@start
    broadcast use {f_of_view, f_ext};
//@end
}
//@fn src/styles/apply.rs resolve_font_weight
//@ret r
//@option float casts
    ensures res(r, want_weight(*value)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    proof { lits_weight(); }
//@end
//@fn src/styles/apply.rs resolve_color
//@ret r
    ensures res(r, want_color(*value, cascade.sizes)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    proof { lits_color(); }
//@end
//@fn src/styles/apply.rs resolve_timing
//@ret r
    ensures res(r, want_timing(*value)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    proof { lits_timing(); }
//@end
//@fn src/styles/apply.rs resolve_iterations
//@ret r
    ensures res(r, want_iterations(*value)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    
//@end
//@fn src/styles/apply.rs resolve_string
//@ret r
    ensures res(r, want_string(*value)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    
//@end
//@fn src/styles/apply.rs resolve_alpha
//@ret r
    ensures res(r, want_alpha(*value)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    
//@end
//@fn src/styles/apply.rs resolve_overflow
//@ret r
    ensures res(r, kw_overflow(keyword@)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    proof { lits_overflow(); }
//@end
//@fn src/styles/apply.rs map_align_items
//@ret r
    ensures res(r, kw_items(keyword@)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    proof { lits_items(); }
//@end
//@fn src/styles/apply.rs map_align_content
//@ret r
    ensures res(r, kw_content(keyword@)),
//@start
    broadcast use {f_of_view, f_ext, text_ext};
    proof { lits_content(); }
//@end
//@fn src/styles/apply.rs parse_dimension_length
//@ret r
    ensures res(r, Some(f_of(length_of(*dimension, cascade.sizes)))),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/apply.rs dimension_length
//@ret r
    ensures res(r, want_length(*value, cascade.sizes)),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/apply.rs resolve_length
//@ret r
    ensures res(r, want_based(*value, cascade.sizes, base)),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/apply.rs lengthp
//@ret r
    ensures res(r, want_lengthp(*value, cascade.sizes)),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/apply.rs lengthp_auto
//@ret r
    ensures res(r, want_lengthp_auto(*value, cascade.sizes)),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/apply.rs dimension
//@ret r
    ensures res(r, want_dimension(*value, cascade.sizes)),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/apply.rs length
//@ret r
    ensures res(r, want_radius(*value, cascade.sizes)),
//@start
    broadcast use {f_of_view, f_ext};
//@end
impl Cascade {
//@fn src/styles/apply.rs Cascade::apply
//@rename apply_nothing
//@ret r
    requires index < usize::MAX, key == PropertyKey::Outline,
    ensures
        *final(self) == *old(self),
        r is Ok <==> takes(key, *value, old(self).sizes),
        r is Err ==> *final(layout) == *old(layout) && *final(element) == *old(element),
        r is Ok ==> r is Ok && *final(layout) == *old(layout) && *final(element) == *old(element),
//@rewrite &animator.name != name => animator.name != *name
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/apply.rs Cascade::apply
//@rename apply_layout
//@ret r
    requires index < usize::MAX, on_layout(key),
    ensures
        *final(self) == *old(self),
        r is Ok <==> takes(key, *value, old(self).sizes),
        r is Err ==> *final(layout) == *old(layout) && *final(element) == *old(element),
        r is Ok ==> *final(element) == *old(element) && lays(key, *value, old(self).sizes, *old(layout), *final(layout)),
//@rewrite &animator.name != name => animator.name != *name
//@start
    broadcast use {f_of_view, f_ext};
    proof { lits_sizing(); lits_display(); lits_position(); lits_direction(); lits_wrap(); }
//@end
//@fn src/styles/apply.rs Cascade::apply
//@rename apply_element
//@ret r
    requires index < usize::MAX, on_element(key),
    ensures
        *final(self) == *old(self),
        r is Ok <==> takes(key, *value, old(self).sizes),
        r is Err ==> *final(layout) == *old(layout) && *final(element) == *old(element),
        r is Ok ==> *final(layout) == *old(layout) && paints(key, *value, old(self).sizes, *old(element), *final(element)),
//@rewrite &animator.name != name => animator.name != *name
//@start
    broadcast use {f_of_view, f_ext};
    proof { lits_align(); lits_events(); lits_cursor(); lits_visible(); lits_style(); }
//@end
//@fn src/styles/apply.rs Cascade::apply
//@rename apply_both
//@ret r
    requires index < usize::MAX, on_both(key),
    ensures
        *final(self) == *old(self),
        r is Ok <==> takes(key, *value, old(self).sizes),
        r is Err ==> *final(layout) == *old(layout) && *final(element) == *old(element),
        r is Ok ==> frames(key, *value, old(self).sizes, *old(layout), *old(element), *final(layout), *final(element)),
//@rewrite &animator.name != name => animator.name != *name
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/apply.rs Cascade::apply
//@rename apply_background
//@ret r
    requires index < usize::MAX, on_background(key),
    ensures
        *final(self) == *old(self),
        r is Ok <==> takes(key, *value, old(self).sizes),
        r is Err ==> *final(layout) == *old(layout) && *final(element) == *old(element),
        r is Ok ==> *final(layout) == *old(layout) && covers(key, index as int, *value, old(self).sizes, *old(element), *final(element)),
//@rewrite &animator.name != name => animator.name != *name
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@for K in AnimationName AnimationDelay AnimationDuration AnimationDirection AnimationFillMode AnimationIterationCount AnimationPlayState AnimationTimingFunction
//@fn src/styles/apply.rs Cascade::apply
//@rename apply_${K}
//@ret r
    requires index < usize::MAX, key == PropertyKey::${K},
    ensures
        *final(self) == *old(self),
        r is Ok <==> takes(key, *value, old(self).sizes),
        r is Err ==> *final(layout) == *old(layout) && *final(element) == *old(element),
        r is Ok ==> *final(layout) == *old(layout) && animates(key, index as int, *value, old(self).sizes, *old(element), *final(element)),
//@rewrite &animator.name != name => animator.name != *name
//@start
    broadcast use {f_of_view, f_ext};
    proof { lits_turn(); lits_fill(); lits_running(); }
//@end
//@endfor
//@for K in TransitionDelay TransitionDuration TransitionTimingFunction TransitionProperty
//@fn src/styles/apply.rs Cascade::apply
//@rename apply_${K}
//@ret r
    requires index < usize::MAX, key == PropertyKey::${K},
    ensures
        *final(self) == *old(self),
        r is Ok <==> takes(key, *value, old(self).sizes),
        r is Err ==> *final(layout) == *old(layout) && *final(element) == *old(element),
        r is Ok ==> *final(layout) == *old(layout) && moves(key, index as int, *value, old(self).sizes, *old(element), *final(element)),
//@rewrite &animator.name != name => animator.name != *name
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@endfor
//@fn src/styles/apply.rs Cascade::apply
//@rename apply_other
//@ret r
    requires index < usize::MAX, !on_nothing(key) && !on_layout(key) && !on_element(key) && !on_both(key) && !on_background(key) && !on_animator(key) && !on_transition(key),
    ensures
        *final(self) == *old(self),
        r is Ok <==> takes(key, *value, old(self).sizes),
        r is Err ==> *final(layout) == *old(layout) && *final(element) == *old(element),
        r is Ok ==> false,
//@rewrite &animator.name != name => animator.name != *name
//@start
    broadcast use {f_of_view, f_ext};
//@end
}
}
fn main() {}
