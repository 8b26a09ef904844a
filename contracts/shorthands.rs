use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C11: shorthands expand to exactly their longhands
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@include declarations.inc
pub struct Cascade { pub variables: Variables }
impl PropertyDescriptor {
//@fn src/css/model.rs PropertyDescriptor::new
//@ret r
    ensures r == (PropertyDescriptor { key, index }),
//@end
}
impl Cascade {
    // (proved in the unit `cascade`)
    #[verifier::external_body]
    pub fn compute_shorthand(&self, definition: &[Definition], shorthand: &mut Vec<ComputedValue>, trace: &mut Vec<Text>) -> (r: bool)
        ensures
            r,
            final(shorthand)@ == old(shorthand)@ + values(self.variables.map(), definition@, old(trace)@.to_set()),
            final(trace)@ == old(trace)@,
    { unimplemented!() }
}
proof fn no_names() ensures Seq::<Text>::empty().to_set() == Set::<Text>::empty() { assert(Seq::<Text>::empty().to_set() =~= Set::<Text>::empty()); }
//@lits lits none | currentcolor
impl Cascade {
// the function is checked once for every shorthand and once for all the other keys
//@for K in Background BackgroundPosition Border BorderTop BorderRight BorderBottom BorderLeft BorderWidth BorderColor BorderRadius Overflow Inset Gap Padding Margin Transition Animation
//@fn src/styles/compute_style.rs Cascade::compute_style
//@rename compute_style_${K}
    requires key == PropertyKey::${K},
    ensures declared(old(style).map(), final(style).map(), key, values(self.variables.map(), definition@, Set::empty()), index),
//@start
    proof { lits(); no_names(); }
//@end
//@endfor
//@fn src/styles/compute_style.rs Cascade::compute_style
//@rename compute_style_longhands
    requires !shorthand(key),
    ensures declared(old(style).map(), final(style).map(), key, values(self.variables.map(), definition@, Set::empty()), index),
//@start
    proof { lits(); no_names(); }
//@end
}
}
fn main() {}
