use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C20: what an element looks like before any declaration applies
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@type Rgba => [u8; 4]
//@item src/element.rs Length derive(Clone,Copy)
//@item src/element.rs MyBorder derive(Clone,Copy)
//@item src/element.rs Borders
//@item src/element.rs Background
//@item src/element.rs TextAlign
//@item src/element.rs FontFace
//@item src/element.rs PointerEvents derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs Pointer derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs ObjectFit derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs ElementState derive(Clone,Copy)
//@item src/element.rs Element keep node,children,tag,position,size,content_size,object_fit,backgrounds,borders,color,font,self_opacity,opacity,pointer_events,pointer,visible,state
/// the layout engine's types (taffy 0.6), as far as a property can set them; `rest` stands for all the other fields
pub mod taffy {
    use super::*;
    #[derive(Clone, Copy)] pub enum Dimension { Length(F), Percent(F), Auto }
    #[derive(Clone, Copy)] pub enum LengthPercentage { Length(F), Percent(F) }
    #[derive(Clone, Copy)] pub enum LengthPercentageAuto { Length(F), Percent(F), Auto }
    #[derive(Clone, Copy)] pub enum Overflow { Visible, Clip, Hidden, Scroll }
    #[derive(Clone, Copy)] pub enum BoxSizing { BorderBox, ContentBox }
    #[derive(Clone, Copy)] pub enum Display { Block, Flex, Grid, None }
    #[derive(Clone, Copy)] pub enum Position { Relative, Absolute }
    #[derive(Clone, Copy)] pub enum AlignItems { Start, End, FlexStart, FlexEnd, Center, Baseline, Stretch }
    #[derive(Clone, Copy)] pub enum AlignContent { Start, End, FlexStart, FlexEnd, Center, Stretch, SpaceBetween, SpaceEvenly, SpaceAround }
    #[derive(Clone, Copy)] pub enum FlexDirection { Row, Column, RowReverse, ColumnReverse }
    #[derive(Clone, Copy)] pub enum FlexWrap { NoWrap, Wrap, WrapReverse }
    pub struct Rect<T> { pub left: T, pub right: T, pub top: T, pub bottom: T }
    pub struct Point<T> { pub x: T, pub y: T }
    pub struct Size<T> { pub width: T, pub height: T }
    pub struct Style {
        pub display: Display, pub box_sizing: BoxSizing, pub overflow: Point<Overflow>, pub scrollbar_width: F, pub position: Position, pub inset: Rect<LengthPercentageAuto>,
        pub size: Size<Dimension>, pub min_size: Size<Dimension>, pub max_size: Size<Dimension>, pub aspect_ratio: Option<F>, pub margin: Rect<LengthPercentageAuto>,
        pub padding: Rect<LengthPercentage>, pub border: Rect<LengthPercentage>, pub align_items: Option<AlignItems>, pub align_self: Option<AlignItems>, pub justify_items: Option<AlignItems>,
        pub justify_self: Option<AlignItems>, pub align_content: Option<AlignContent>, pub justify_content: Option<AlignContent>, pub gap: Size<LengthPercentage>,
        pub flex_direction: FlexDirection, pub flex_wrap: FlexWrap, pub flex_basis: Dimension, pub flex_grow: F, pub flex_shrink: F, pub rest: u64,
    }
    // assumed contracts: zero(), auto() and the defaults of taffy 0.6
    pub open spec fn zero() -> F { f_of(0.0real) }
    pub trait Zero: Sized { spec fn zeroed() -> Self; }
    impl Zero for LengthPercentage { open spec fn zeroed() -> Self { LengthPercentage::Length(zero()) } }
    impl Zero for LengthPercentageAuto { open spec fn zeroed() -> Self { LengthPercentageAuto::Length(zero()) } }
    pub trait Free: Sized { spec fn free() -> Self; }
    impl Free for LengthPercentageAuto { open spec fn free() -> Self { LengthPercentageAuto::Auto } }
    impl Free for Dimension { open spec fn free() -> Self { Dimension::Auto } }
    impl<T: Zero> Rect<T> { #[verifier::external_body] pub fn zero() -> (r: Self) ensures r == (Rect { left: T::zeroed(), right: T::zeroed(), top: T::zeroed(), bottom: T::zeroed() }) { unimplemented!() } }
    impl<T: Free> Rect<T> { #[verifier::external_body] pub fn auto() -> (r: Self) ensures r == (Rect { left: T::free(), right: T::free(), top: T::free(), bottom: T::free() }) { unimplemented!() } }
    impl<T: Zero> Size<T> { #[verifier::external_body] pub fn zero() -> (r: Self) ensures r == (Size { width: T::zeroed(), height: T::zeroed() }) { unimplemented!() } }
    impl<T: Free> Size<T> { #[verifier::external_body] pub fn auto() -> (r: Self) ensures r == (Size { width: T::free(), height: T::free() }) { unimplemented!() } }
    pub uninterp spec fn unset() -> Style;
    impl Default for Style { #[verifier::external_body] fn default() -> (r: Self) ensures r == unset() { unimplemented!() } }
}
use taffy::{Dimension, LengthPercentage, LengthPercentageAuto, Overflow, Point, Rect, Size, Free, Zero};
pub open spec fn f0() -> F { f_of(0.0real) }
pub open spec fn black() -> Seq<u8> { seq![0u8, 0u8, 0u8, 255u8] }
pub open spec fn no_border(b: MyBorder) -> bool { b.width == f0() && b.color@ =~= seq![0u8, 0u8, 0u8, 0u8] }
pub open spec fn no_borders(b: Borders) -> bool {
    no_border(b.top) && no_border(b.right) && no_border(b.bottom) && no_border(b.left) && forall|i: int| 0 <= i < 4 ==> #[trigger] b.radius@[i] == Length::Number(f0())
}
pub open spec fn plain_font(f: FontFace) -> bool { f.family@ == "system-ui"@ && f.size == f_of(16.0real) && f.style@ == "normal"@ && f.weight == 400 && f.line_height == f_of(1.0real) && f.align == TextAlign::Start }
/// the initial values of the properties of an element; what the renderer takes as nothing
pub open spec fn unstyled(e: Element) -> bool {
    e.backgrounds@.len() == 0 && no_borders(e.borders) && e.color@ =~= black() && plain_font(e.font) && e.self_opacity == f_of(1.0real) && e.visible && e.pointer == Pointer::Auto
}
/// everything that is not a matter of style stays
pub open spec fn same_body(a: Element, b: Element) -> bool {
    a.node == b.node && a.children == b.children && a.tag == b.tag && a.position == b.position && a.size == b.size && a.content_size == b.content_size && a.state == b.state
}
impl Length {
//@fn src/element.rs Length::zero
//@ret r
    ensures r == Length::Number(f0()),
//@start
    broadcast use {f_of_view, f_ext};
//@end
}
//@default src/element.rs MyBorder
    ensures no_border(r)
//@end
//@default src/element.rs PointerEvents
    ensures r == PointerEvents::Auto
//@end
//@default src/element.rs Pointer
    ensures r == Pointer::Auto
//@end
//@default src/element.rs ElementState
    ensures r == (ElementState { active: false, hover: false, focus: false, checked: false })
//@end
impl FontFace {
//@const src/styles/default.rs FontFace::DEFAULT_FONT_FAMILY vx_family &'static Text
    ensures r@ == "system-ui"@
//@end
//@const src/styles/default.rs FontFace::DEFAULT_FONT_WEIGHT vx_weight u16
    ensures r == 400
//@end
}
//@fn src/styles/default.rs reset_element_style
//@rewrite FontFace::DEFAULT_FONT_FAMILY => FontFace::vx_family()
//@rewrite FontFace::DEFAULT_FONT_WEIGHT => FontFace::vx_weight()
    ensures unstyled(*final(element)), same_body(*old(element), *final(element)),
        final(element).pointer_events == old(element).pointer_events || final(element).pointer_events == PointerEvents::Auto,
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/inherit.rs inherit
    ensures
        final(element).color == parent.color,
        final(element).font.family@ == parent.font.family@, final(element).font.size == parent.font.size, final(element).font.style@ == parent.font.style@,
        final(element).font.weight == parent.font.weight, final(element).font.line_height == parent.font.line_height,
        final(element).pointer_events == parent.pointer_events,
        // and nothing else
        *final(element) == (Element { color: final(element).color, pointer_events: final(element).pointer_events, font: FontFace { align: old(element).font.align, ..final(element).font }, ..*old(element) }),
//@end
//@fn src/styles/default.rs create_element
//@rewrite FontFace::DEFAULT_FONT_FAMILY => FontFace::vx_family()
//@rewrite FontFace::DEFAULT_FONT_WEIGHT => FontFace::vx_weight()
//@ret r
    ensures unstyled(r), r.node == node, r.children@.len() == 0, r.pointer_events == PointerEvents::Auto, r.opacity == f_of(1.0real),
        !r.state.active && !r.state.hover && !r.state.focus && !r.state.checked,
//@start
    broadcast use {f_of_view, f_ext};
//@end
/// the initial values of the layout
pub open spec fn unlaid(l: taffy::Style) -> bool {
    let u = taffy::unset();
    &&& l.display == taffy::Display::Block && l.overflow == (Point { x: Overflow::Visible, y: Overflow::Visible }) && l.position == taffy::Position::Relative
    &&& l.inset == (Rect { left: LengthPercentageAuto::Auto, right: LengthPercentageAuto::Auto, top: LengthPercentageAuto::Auto, bottom: LengthPercentageAuto::Auto })
    &&& l.margin == (Rect { left: LengthPercentageAuto::Length(f0()), right: LengthPercentageAuto::Length(f0()), top: LengthPercentageAuto::Length(f0()), bottom: LengthPercentageAuto::Length(f0()) })
    &&& l.padding == (Rect { left: LengthPercentage::Length(f0()), right: LengthPercentage::Length(f0()), top: LengthPercentage::Length(f0()), bottom: LengthPercentage::Length(f0()) })
    &&& l.border == l.padding && l.scrollbar_width == f0() && l.aspect_ratio is None
    &&& l.size == (Size { width: Dimension::Auto, height: Dimension::Auto }) && l.min_size == l.size && l.max_size == l.size
    &&& l.gap == (Size { width: LengthPercentage::Length(f0()), height: LengthPercentage::Length(f0()) })
    &&& l.align_items is None && l.align_self is None && l.justify_items is None && l.justify_self is None && l.align_content is None && l.justify_content is None
    &&& l.flex_direction == taffy::FlexDirection::Row && l.flex_wrap == taffy::FlexWrap::NoWrap && l.flex_grow == f0() && l.flex_shrink == f_of(1.0real) && l.flex_basis == Dimension::Auto
    &&& l.box_sizing == u.box_sizing && l.rest == u.rest
}
//@fn src/styles/default.rs default_layout
//@ret r
    ensures unlaid(r),
//@start
    broadcast use {f_of_view, f_ext};
//@end
}
fn main() {}
