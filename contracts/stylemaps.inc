// ---- maps of styles: assumed contracts of std ----
/// BTreeMap<u32, V>, assumed contracts: keys() lists the keys in increasing order
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Sorted<V> { x: core::marker::PhantomData<V> }
pub open spec fn ascending(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
impl<V> Sorted<V> {
    pub uninterp spec fn map(&self) -> Map<u32, V>;
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<&u32>)
        ensures
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> *r@[i] < *r@[j],
            forall|i: int| 0 <= i < r@.len() ==> self.map().contains_key(*#[trigger] r@[i]),
            forall|k: u32| self.map().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == k,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at(&self, k: &u32) -> (r: &V) requires self.map().contains_key(*k) ensures *r == self.map()[*k] { unimplemented!() }
}
/// HashMap<PropertyDescriptor, ComputedValue>, assumed contracts
#[verifier::external_body]
pub struct ComputedStyle { x: u64 }
impl ComputedStyle {
    pub uninterp spec fn map(&self) -> Map<PropertyDescriptor, ComputedValue>;
    #[verifier::external_body]
    pub fn get(&self, k: &PropertyDescriptor) -> (r: Option<&ComputedValue>)
        ensures match r { Some(v) => self.map().contains_key(*k) && *v == self.map()[*k], None => !self.map().contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: PropertyDescriptor, v: ComputedValue) -> (r: Option<ComputedValue>)
        ensures final(self).map() == old(self).map().insert(k, v)
    { unimplemented!() }
}
pub type Frames = Sorted<ComputedValue>;
//@type BTreeMap<u32, ComputedValue> => Frames
//@item src/css/model.rs AnimationTrack
