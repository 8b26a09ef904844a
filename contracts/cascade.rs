use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C13: later declarations win; variables resolve in scope
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@include declarations.inc
use ComputedValue::{Color, Number, Str};
//@include blocks.inc
impl Clone for Definition { #[verifier::external_body] fn clone(&self) -> (r: Definition) ensures r == *self { unimplemented!() } }
pub open spec fn upto(g: Given, i: int, d: PropertyDescriptor) -> Given { if d.index < i { g } else { Given::Nothing } }
pub struct Cascade { pub variables: Variables }
//@lits lits rgb | rgba | url
pub open spec fn within(vars: Map<Text, Seq<Definition>>, trace: Seq<Text>) -> nat { vars.dom().difference(trace.to_set()).len() }
proof fn pushed(trace: Seq<Text>, n: Text) ensures trace.push(n).to_set() == trace.to_set().insert(n) {
    assert forall|x: Text| trace.push(n).to_set().contains(x) == trace.to_set().insert(n).contains(x) by {
        if trace.contains(x) { let i = trace.index_of(x); assert(trace.push(n)[i] == x); }
        assert(trace.push(n)[trace.len() as int] == n);
    }
    assert(trace.push(n).to_set() =~= trace.to_set().insert(n));
}
//@fn src/styles/compute_function.rs map_c
//@option float casts
//@ret r
    ensures r == channel(*value),
//@start
    broadcast use f_of_view;
//@end
//@fn src/styles/compute_function.rs map_a
//@option float casts
//@ret r
    ensures r == alpha(*value),
//@start
    broadcast use f_of_view;
//@end
impl Cascade {
//@fn src/styles/mod.rs Cascade::set_variable
    ensures final(self).variables.map() == old(self).variables.map().insert(variable.key, variable.shorthand@),
//@end
//@fn src/styles/mod.rs Cascade::get_variable
//@ret r
    ensures match r { Some(v) => self.variables.map().contains_key(*name) && v@ == self.variables.map()[*name], None => !self.variables.map().contains_key(*name) },
//@end
//@fn src/styles/compute_function.rs Cascade::compute_function
    ensures
        final(shorthand)@ == old(shorthand)@.push(call(function.name@, values(self.variables.map(), function.arguments@, old(trace)@.to_set()))),
        final(trace)@ == old(trace)@,
    decreases within(self.variables.map(), old(trace)@), function,
//@start
    broadcast use {f_of_view, rgba_of};
    proof { lits(); }
//@end
//@fn src/styles/mod.rs Cascade::compute_shorthand
//@ret r
    ensures
        r,
        final(shorthand)@ == old(shorthand)@ + values(self.variables.map(), definition@, old(trace)@.to_set()),
        final(trace)@ == old(trace)@,
    decreases within(self.variables.map(), old(trace)@), definition@,
//@option ref definition
//@start
    let ghost vars = self.variables.map();
    let ghost from = shorthand@;
    let ghost names = trace@;
    let ghost defs = definition@;
//@loop 0
    invariant
        __vx_i0 <= defs.len(), __vx_c0@ == defs, vars == self.variables.map(), trace@ == names,
        names == old(trace)@, defs == definition@,
        shorthand@ == from + values(vars, defs.take(__vx_i0 as int), names.to_set()),
    decreases defs.len() - __vx_i0
//@loop 0 start
    proof {
        let d = defs.take(__vx_i0 + 1);
        assert(d.drop_last() =~= defs.take(__vx_i0 as int));
        assert(d.last() == defs[__vx_i0 as int]);
        assert(values(vars, d, names.to_set()) == values(vars, d.drop_last(), names.to_set()) + one(vars, d.last(), names.to_set()));
        match defs[__vx_i0 as int] {
            Definition::Var(n) => {
                pushed(names, n);
                assert(names.contains(n) == names.to_set().contains(n));
                if vars.contains_key(n) && !names.to_set().contains(n) { fewer(vars, n, names.to_set()); }
            },
            _ => {},
        }
    }
//@loop 0 after
    proof { assert(defs.take(defs.len() as int) =~= defs); }
//@end
    // (proved in the unit `shorthands`)
    #[verifier::external_body]
    pub fn compute_style(&self, key: PropertyKey, index: usize, definition: &[Definition], style: &mut ComputedStyle)
        ensures declared(old(style).map(), final(style).map(), key, values(self.variables.map(), definition@, Set::empty()), index)
    { unimplemented!() }
//@fn src/styles/mod.rs Cascade::compute_declaration_block
    ensures
        final(self).variables.map() == vars_after(old(self).variables.map(), block@),
        settled(old(style).map(), final(style).map(), old(self).variables.map(), block@),
//@option ref block
//@start
    let ghost vars0 = self.variables.map();
    let ghost m0 = style.map();
    let ghost all = block@;
//@loop 0
    invariant
        __vx_i0 <= all.len(), __vx_c0@ == all, self.variables.map() == vars_after(vars0, all.take(__vx_i0 as int)),
        settled(m0, style.map(), vars0, all.take(__vx_i0 as int)),
        m0 == old(style).map(), vars0 == old(self).variables.map(), all == block@,
    decreases all.len() - __vx_i0
//@loop 0 start
    let ghost m1 = style.map();
    proof {
        assert(all.take(__vx_i0 + 1).drop_last() =~= all.take(__vx_i0 as int));
        assert(all.take(__vx_i0 + 1).last() == all[__vx_i0 as int]);
    }
//@loop 0 after
    proof { assert(all.take(all.len() as int) =~= all); }
//@loop 1
    invariant
        __vx_i0 <= all.len(), all[__vx_i0 - 1] == Declaration::Property(*property),
        self.variables.map() == vars_after(vars0, all.take(__vx_i0 - 1)),
        forall|d: PropertyDescriptor| #![trigger style.map().contains_key(d)] #![trigger style.map()[d]] !shorthand(d.key) ==> took(m1, style.map(), d, upto(says(self.variables.map(), *property, d), __vx_i1 as int, d)),
        __vx_e1 == property.values@.len(), __vx_i1 <= __vx_e1, all == block@,
    decreases __vx_e1 - __vx_i1
//@end
}
}
fn main() {}
