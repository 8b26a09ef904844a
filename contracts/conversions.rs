use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C03: values as text, truth and counts; what a reaction shows
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@include json.inc
//@include reacts.inc
impl Value {
//@fn src/value.rs ValueExtensions for Value::eval_u64
//@option float casts
//@ret r
    ensures r == count_of(*self),
//@end
//@fn src/value.rs ValueExtensions for Value::eval_usize
//@ret r
    ensures r == count_of(*self),
//@end
//@fn src/value.rs ValueExtensions for Value::eval_string
//@option shown
//@ret r
    ensures r@ == text_of(*self),
//@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn src/value.rs ValueExtensions for Value::eval_boolean
//@ret r
    ensures r == truth(*self),
//@end
}
impl Binding {
//@fn src/view_model.rs Binding::react_value_change
//@ret r
    requires fits(*self),
    ensures reacts(self.params, *value, r),
//@end
}
//@fn src/view_model.rs ViewModel::react
//@rewrite transform(value) => transform.vx_call(value)
    requires all_fit(bindings.map()),
    ensures
        ({
            let b = bound(bindings.map(), path@);
            let old_ = old(reactions)@;
            let new_ = final(reactions)@;
            &&& new_.len() == old_.len() + b.len() && new_.subrange(0, old_.len() as int) == old_
            &&& forall|i: int| 0 <= i < b.len() ==> shows(#[trigger] b[i], *value, transformers.map(), new_[old_.len() + i])
        }),
//@start
    let ghost bs = bound(bindings.map(), path@);
    let ghost old_ = reactions@;
    let ghost given = *value;
//@loop 0
    invariant
        bs == __vx_c0@, 0 <= __vx_i0 <= bs.len(), forall|i: int| 0 <= i < bs.len() ==> fits(#[trigger] bs[i]),
        reactions@.len() == old_.len() + __vx_i0, reactions@.subrange(0, old_.len() as int) == old_, *value == given,
        forall|i: int| 0 <= i < __vx_i0 ==> shows(#[trigger] bs[i], given, transformers.map(), reactions@[old_.len() + i]),
    decreases bs.len() - __vx_i0,
//@loop 0 start
    let ghost before = reactions@;
//@loop 0 end
    assert forall|i: int| 0 <= i < __vx_i0 implies shows(#[trigger] bs[i], given, transformers.map(), reactions@[old_.len() + i]) by {
        if i < __vx_i0 - 1 { assert(reactions@[old_.len() + i] == before[old_.len() + i]); }
    }
    assert(reactions@.subrange(0, old_.len() as int) =~= old_);
//@loop 1
    invariant 0 <= __vx_i1 <= __vx_c1@.len(), value == piped(given, __vx_c1@, __vx_i1 as int, transformers.map()),
    decreases __vx_c1@.len() - __vx_i1,
//@end
}
fn main() {}
