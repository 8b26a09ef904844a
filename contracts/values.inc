// ---- computed values ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PropertyKey(pub u64);
//@item src/css/model.rs PropertyDescriptor derive(Copy)
impl Clone for PropertyDescriptor { #[verifier::external_body] fn clone(&self) -> (r: PropertyDescriptor) ensures r == *self { *self } }
//@item src/css/model.rs Units derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/css/model.rs Dim derive(Copy)
impl Clone for Dim { #[verifier::external_body] fn clone(&self) -> (r: Dim) ensures r == *self { *self } }
//@item src/css/model.rs ComputedValue
use ComputedValue::{Color, Dimension, Number, Percentage, Zero};
impl Clone for ComputedValue { #[verifier::external_body] fn clone(&self) -> (r: ComputedValue) ensures r == *self { unimplemented!() } }
impl PartialEq for ComputedValue { #[verifier::external_body] fn eq(&self, o: &ComputedValue) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<ComputedValue> for ComputedValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ComputedValue) -> bool { *self == *o }
}
