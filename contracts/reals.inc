// ---- f32 as mathematical real numbers (assumption: machine arithmetic treated as mathematical; no NaN, no infinity, no rounding) ----
#[derive(Copy)]
#[verifier::external_body]
pub struct F { x: f32 }
impl Clone for F { #[verifier::external_body] fn clone(&self) -> (r: F) ensures r == *self { *self } }
impl vstd::prelude::View for F { type V = real; uninterp spec fn view(&self) -> real; }
pub uninterp spec fn f_of(r: real) -> F;
pub broadcast axiom fn f_of_view(r: real) ensures #[trigger] f_of(r)@ == r;
pub broadcast axiom fn f_ext(a: F) ensures f_of(#[trigger] a@) == a;
proof fn f_eq(a: F, b: F) requires a@ == b@ ensures a == b { broadcast use f_ext; }
impl vstd::std_specs::ops::AddSpecImpl<F> for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: F) -> bool { true }
    open spec fn add_spec(self, rhs: F) -> F { f_of(self@ + rhs@) }
}
impl core::ops::Add<F> for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<F> for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: F) -> bool { true }
    open spec fn sub_spec(self, rhs: F) -> F { f_of(self@ - rhs@) }
}
impl core::ops::Sub<F> for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<F> for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: F) -> bool { true }
    open spec fn mul_spec(self, rhs: F) -> F { f_of(self@ * rhs@) }
}
impl core::ops::Mul<F> for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<F> for F {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: F) -> bool { rhs@ != 0.0real }
    open spec fn div_spec(self, rhs: F) -> F { f_of(self@ / rhs@) }
}
impl core::ops::Div<F> for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> F { unimplemented!() } }
pub open spec fn times(k: nat, b: real) -> real { (k as real) * b }
pub uninterp spec fn rem(a: real, b: real) -> real;
/// fmod of a non-negative number: what is left after whole multiples
pub axiom fn axiom_rem(a: real, b: real)
    requires a >= 0.0real, b > 0.0real,
    ensures 0.0real <= rem(a, b) < b, exists|k: nat| a == #[trigger] times(k, b) + rem(a, b);
pub broadcast proof fn rem_bounds(a: real, b: real)
    requires a >= 0.0real, b > 0.0real,
    ensures 0.0real <= #[trigger] rem(a, b) < b,
{ axiom_rem(a, b); }
impl vstd::std_specs::ops::RemSpecImpl<F> for F {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, rhs: F) -> bool { rhs@ != 0.0real }
    open spec fn rem_spec(self, rhs: F) -> F { f_of(rem(self@, rhs@)) }
}
impl core::ops::Rem<F> for F { type Output = F; #[verifier::external_body] fn rem(self, o: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { f_of(0.0real - self@) }
}
impl core::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> F { unimplemented!() } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<F> for F {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F) -> bool { self@ == o@ }
}
impl PartialOrd for F {
    #[verifier::external_body] fn partial_cmp(&self, o: &F) -> Option<core::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body] fn lt(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body] fn le(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body] fn gt(&self, o: &F) -> bool { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &F) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl<F> for F {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> {
        if self@ < o@ { Some(core::cmp::Ordering::Less) } else if self@ > o@ { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
impl F {
    #[verifier::external_body] pub fn max(self, o: F) -> (r: F) ensures r@ == rmax(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: F) -> (r: F) ensures r@ == rmin(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn signum(self) -> (r: F) ensures r@ == (if self@ >= 0.0real { 1.0real } else { -1.0real }) || self@ == 0.0real { unimplemented!() }
    #[verifier::external_body] pub fn clamp(self, a: F, b: F) -> (r: F) requires a@ <= b@ ensures r@ == rmax(a@, rmin(self@, b@)) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F) ensures r@ == (if self@ >= 0.0real { self@ } else { -self@ }) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_lit(r: Ghost<real>) -> (f: F) ensures f@ == r@ { unimplemented!() }
pub trait VxToF: Sized { spec fn to_real(self) -> real; fn vx_to_f(self) -> (r: F) ensures r@ == self.to_real(); }
impl VxToF for u32 { open spec fn to_real(self) -> real { self as real } #[verifier::external_body] fn vx_to_f(self) -> F { unimplemented!() } }
impl VxToF for u8 { open spec fn to_real(self) -> real { self as real } #[verifier::external_body] fn vx_to_f(self) -> F { unimplemented!() } }
impl VxToF for usize { open spec fn to_real(self) -> real { self as real } #[verifier::external_body] fn vx_to_f(self) -> F { unimplemented!() } }
impl F {
    /// `as u8`, `as u32` truncate and saturate
    #[verifier::external_body] pub fn vx_to_u8(self) -> (r: u8) ensures r == cut(self@, 255) { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_u16(self) -> (r: u16) ensures r == cut(self@, 65535) { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_u32(self) -> (r: u32) ensures r == cut(self@, u32::MAX as int) { unimplemented!() }
}
pub open spec fn cut(x: real, max: int) -> int { if x <= 0.0real { 0 } else if x >= max as real { max } else { x.floor() } }
// the same on references
impl<'a> vstd::std_specs::ops::AddSpecImpl<F> for &'a F { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: F) -> bool { true } open spec fn add_spec(self, rhs: F) -> F { f_of(self@ + rhs@) } }
impl<'a> core::ops::Add<F> for &'a F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> F { unimplemented!() } }
impl<'b> vstd::std_specs::ops::AddSpecImpl<&'b F> for F { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b F) -> bool { true } open spec fn add_spec(self, rhs: &'b F) -> F { f_of(self@ + rhs@) } }
impl<'b> core::ops::Add<&'b F> for F { type Output = F; #[verifier::external_body] fn add(self, o: &'b F) -> F { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b F> for &'a F { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, rhs: &'b F) -> bool { true } open spec fn add_spec(self, rhs: &'b F) -> F { f_of(self@ + rhs@) } }
impl<'a, 'b> core::ops::Add<&'b F> for &'a F { type Output = F; #[verifier::external_body] fn add(self, o: &'b F) -> F { unimplemented!() } }
impl<'a> vstd::std_specs::ops::SubSpecImpl<F> for &'a F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: F) -> bool { true } open spec fn sub_spec(self, rhs: F) -> F { f_of(self@ - rhs@) } }
impl<'a> core::ops::Sub<F> for &'a F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> F { unimplemented!() } }
impl<'b> vstd::std_specs::ops::SubSpecImpl<&'b F> for F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b F) -> bool { true } open spec fn sub_spec(self, rhs: &'b F) -> F { f_of(self@ - rhs@) } }
impl<'b> core::ops::Sub<&'b F> for F { type Output = F; #[verifier::external_body] fn sub(self, o: &'b F) -> F { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b F> for &'a F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, rhs: &'b F) -> bool { true } open spec fn sub_spec(self, rhs: &'b F) -> F { f_of(self@ - rhs@) } }
impl<'a, 'b> core::ops::Sub<&'b F> for &'a F { type Output = F; #[verifier::external_body] fn sub(self, o: &'b F) -> F { unimplemented!() } }
impl<'a> vstd::std_specs::ops::MulSpecImpl<F> for &'a F { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: F) -> bool { true } open spec fn mul_spec(self, rhs: F) -> F { f_of(self@ * rhs@) } }
impl<'a> core::ops::Mul<F> for &'a F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> F { unimplemented!() } }
impl<'b> vstd::std_specs::ops::MulSpecImpl<&'b F> for F { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b F) -> bool { true } open spec fn mul_spec(self, rhs: &'b F) -> F { f_of(self@ * rhs@) } }
impl<'b> core::ops::Mul<&'b F> for F { type Output = F; #[verifier::external_body] fn mul(self, o: &'b F) -> F { unimplemented!() } }
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b F> for &'a F { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, rhs: &'b F) -> bool { true } open spec fn mul_spec(self, rhs: &'b F) -> F { f_of(self@ * rhs@) } }
impl<'a, 'b> core::ops::Mul<&'b F> for &'a F { type Output = F; #[verifier::external_body] fn mul(self, o: &'b F) -> F { unimplemented!() } }
