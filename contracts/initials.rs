#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C16: what a property shows at the ends of an animation when neither the key frames nor the element set it
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@item src/css/model.rs PropertyKey derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Units derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Dim derive(Copy)
impl Clone for Dim { #[verifier::external_body] fn clone(&self) -> (r: Dim) ensures r == *self { *self } }
impl Dim {
//@fn src/css/model.rs Dim::new
//@ret r
    ensures r == (Dim { value, unit }),
//@end
}
//@item src/css/model.rs ComputedValue
pub type Rgba = [u8; 4];
impl VxToF for i32 { open spec fn to_real(self) -> real { self as real } #[verifier::external_body] fn vx_to_f(self) -> F { unimplemented!() } }
pub open spec fn word(v: ComputedValue, s: Seq<char>) -> bool { v is Keyword && v->Keyword_0@ == s }
pub open spec fn count(v: ComputedValue, n: real) -> bool { v is Number && v->Number_0@ == n }
pub open spec fn seconds(v: ComputedValue, n: real) -> bool { v is Time && v->Time_0@ == n }
pub open spec fn pixels(v: ComputedValue, n: real) -> bool { v is Dimension && v->Dimension_0.unit == Units::Px && v->Dimension_0.value@ == n }
pub open spec fn share(v: ComputedValue, n: real) -> bool { v is Percentage && v->Percentage_0@ == n }
/// the initial values CSS gives to the properties that set something here (the other ones have no effect)
pub open spec fn initially(k: PropertyKey, v: ComputedValue) -> bool {
    match k {
        PropertyKey::Opacity | PropertyKey::FlexShrink => count(v, 1.0real),
        PropertyKey::FlexGrow => v is Zero || count(v, 0.0real),
        PropertyKey::AnimationIterationCount => count(v, 1.0real),
        PropertyKey::AnimationDelay | PropertyKey::AnimationDuration => seconds(v, 0.0real),
        PropertyKey::BackgroundColor => v is Color && v->Color_0@ == seq![0u8, 0u8, 0u8, 0u8],
        PropertyKey::BackgroundPositionX | PropertyKey::BackgroundPositionY => v is Zero || share(v, 0.0real),
        PropertyKey::FontSize => pixels(v, 16.0real),
        PropertyKey::MarginTop | PropertyKey::MarginRight | PropertyKey::MarginBottom | PropertyKey::MarginLeft
        | PropertyKey::PaddingTop | PropertyKey::PaddingRight | PropertyKey::PaddingBottom | PropertyKey::PaddingLeft
        | PropertyKey::BorderTopLeftRadius | PropertyKey::BorderTopRightRadius | PropertyKey::BorderBottomLeftRadius | PropertyKey::BorderBottomRightRadius => v is Zero || pixels(v, 0.0real),
        PropertyKey::Width | PropertyKey::Height | PropertyKey::MinWidth | PropertyKey::MinHeight
        | PropertyKey::Left | PropertyKey::Top | PropertyKey::Right | PropertyKey::Bottom
        | PropertyKey::FlexBasis | PropertyKey::AspectRatio | PropertyKey::AlignSelf | PropertyKey::JustifySelf | PropertyKey::PointerEvents | PropertyKey::Cursor => word(v, "auto"@),
        PropertyKey::MaxWidth | PropertyKey::MaxHeight | PropertyKey::BackgroundImage | PropertyKey::AnimationName | PropertyKey::AnimationFillMode
        | PropertyKey::BorderTopStyle | PropertyKey::BorderRightStyle | PropertyKey::BorderBottomStyle | PropertyKey::BorderLeftStyle => word(v, "none"@),
        PropertyKey::BorderTopWidth | PropertyKey::BorderRightWidth | PropertyKey::BorderBottomWidth | PropertyKey::BorderLeftWidth => word(v, "medium"@),
        PropertyKey::BorderTopColor | PropertyKey::BorderRightColor | PropertyKey::BorderBottomColor | PropertyKey::BorderLeftColor | PropertyKey::Color => word(v, "currentColor"@),
        PropertyKey::AlignContent | PropertyKey::AlignItems | PropertyKey::JustifyContent | PropertyKey::ColumnGap | PropertyKey::RowGap | PropertyKey::LineHeight
        | PropertyKey::FontWeight | PropertyKey::FontStyle | PropertyKey::AnimationDirection => word(v, "normal"@),
        PropertyKey::AnimationPlayState => word(v, "running"@),
        PropertyKey::AnimationTimingFunction => word(v, "ease"@),
        PropertyKey::OverflowX | PropertyKey::OverflowY | PropertyKey::Visibility => word(v, "visible"@),
        PropertyKey::BoxSizing => word(v, "content-box"@),
        PropertyKey::FlexDirection => word(v, "row"@),
        PropertyKey::FlexWrap => word(v, "nowrap"@),
        PropertyKey::Position => word(v, "static"@),
        PropertyKey::ObjectFit => word(v, "fill"@),
        PropertyKey::TextAlign => word(v, "start"@),
        PropertyKey::Translate => word(v, "none"@),
        _ => true,
    }
}
//@fn src/styles/initial.rs px
//@ret r
//@option float casts
    ensures pixels(r, value as real),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/initial.rs zero
//@ret r
    ensures r is Zero,
//@end
//@fn src/styles/initial.rs percent
//@ret r
    ensures share(r, value@),
//@end
//@fn src/styles/initial.rs color
//@ret q
    ensures q is Color && q->Color_0@ == seq![r, g, b, a],
//@end
//@fn src/styles/initial.rs keyword
//@ret r
    ensures word(r, name@),
//@end
//@fn src/styles/initial.rs s
//@ret r
//@option float casts
    ensures seconds(r, value as real),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/initial.rs n
//@ret r
//@option float casts
    ensures count(r, value as real),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/initial.rs initial
//@ret r
    ensures initially(key, r),
//@start
    broadcast use {f_of_view, f_ext};
//@end
} // verus!
fn main() {}
