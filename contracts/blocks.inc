//@item src/css/model.rs Variable
//@item src/css/model.rs Property
//@item src/css/model.rs Declaration
// ---- blocks of declarations ----
pub open spec fn vars_after(vars: Map<Text, Seq<Definition>>, block: Seq<Declaration>) -> Map<Text, Seq<Definition>>
    decreases block.len()
{
    if block.len() == 0 { vars } else {
        let r = vars_after(vars, block.drop_last());
        match block.last() { Declaration::Variable(v) => r.insert(v.key, v.shorthand@), Declaration::Property(_) => r }
    }
}
/// what one declaration gives to the layer d.index of d.key
pub open spec fn says(vars: Map<Text, Seq<Definition>>, p: Property, d: PropertyDescriptor) -> Given {
    if d.index < p.values@.len() { given(p.key, values(vars, p.values@[d.index as int]@, Set::empty()), d.key) } else { Given::Nothing }
}
/// the last declaration that gives d a value wins; variables stand for what was declared for them before it
pub open spec fn winner(vars: Map<Text, Seq<Definition>>, block: Seq<Declaration>, d: PropertyDescriptor) -> Given
    decreases block.len()
{
    if block.len() == 0 { Given::Nothing } else {
        match block.last() {
            Declaration::Property(p) => match says(vars_after(vars, block.drop_last()), p, d) { Given::Nothing => winner(vars, block.drop_last(), d), g => g },
            Declaration::Variable(_) => winner(vars, block.drop_last(), d),
        }
    }
}
pub open spec fn settled(m0: Map<PropertyDescriptor, ComputedValue>, m1: Map<PropertyDescriptor, ComputedValue>, vars: Map<Text, Seq<Definition>>, block: Seq<Declaration>) -> bool {
    forall|d: PropertyDescriptor| #![trigger m1.contains_key(d)] #![trigger m1[d]] !shorthand(d.key) ==> took(m0, m1, d, winner(vars, block, d))
}
