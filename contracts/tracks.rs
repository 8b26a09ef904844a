use vstd::prelude::*;
verus! {
// C16: the tracks of an animation, every animated property defined from 0% to 100%
//@reals
//@include prelude.inc
//@include reals.inc
//@include values.inc
//@include stylemaps.inc
pub type Style = Map<PropertyDescriptor, ComputedValue>;
#[verifier::external_body]
pub struct Shorthand { x: u64 }
//@item src/css/model.rs Property
//@item src/css/model.rs Variable
//@item src/css/model.rs Declaration
//@item src/css/model.rs Keyframe
//@item src/css/model.rs Animation keep keyframes
#[verifier::external_body]
pub struct Cascade { x: u64 }
/// what compute_style makes of a declared value (its contract: C11)
pub uninterp spec fn expanded(c: Cascade, s: Style, key: PropertyKey, index: usize, value: Shorthand) -> Style;
/// it never removes a value (for longhands proved of compute_style in the unit shorthands; that it is a function of these arguments is assumed)
pub axiom fn axiom_expanded(c: Cascade, s: Style, key: PropertyKey, index: usize, value: Shorthand)
    ensures s.dom().subset_of(expanded(c, s, key, index, value).dom());
pub uninterp spec fn initial_of(key: PropertyKey) -> ComputedValue;
#[verifier::external_body]
pub fn initial(key: PropertyKey) -> (r: ComputedValue) ensures r == initial_of(key) { unimplemented!() }
impl Cascade {
    #[verifier::external_body]
    pub fn compute_style(&self, key: PropertyKey, index: usize, value: &Shorthand, style: &mut ComputedStyle)
        ensures final(style).map() == expanded(*self, old(style).map(), key, index, *value)
    { unimplemented!() }
}
/// HashSet, assumed contracts
#[verifier::external_body]
pub struct Descriptors { x: u64 }
pub open spec fn listed(l: Seq<PropertyDescriptor>, d: PropertyDescriptor) -> bool { exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == d }
impl Descriptors {
    pub uninterp spec fn set(&self) -> Set<PropertyDescriptor>;
    #[verifier::external_body]
    pub fn new() -> (r: Descriptors) ensures r.set() == Set::<PropertyDescriptor>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, k: Ghost<Set<PropertyDescriptor>>) ensures final(self).set() == old(self).set().union(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: Vec<PropertyDescriptor>)
        ensures forall|d: PropertyDescriptor| #[trigger] self.set().contains(d) == listed(r@, d), forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] != r@[j]
    { unimplemented!() }
}
impl ComputedStyle {
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Ghost<Set<PropertyDescriptor>>) ensures r@ == self.map().dom() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, d: &PropertyDescriptor) -> (r: bool) ensures r == self.map().contains_key(*d) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pairs(self) -> (r: Vec<(PropertyDescriptor, ComputedValue)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.map().contains_key((#[trigger] r@[i]).0) && self.map()[r@[i].0] == r@[i].1,
            forall|d: PropertyDescriptor| #[trigger] self.map().contains_key(d) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == d,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].0 != r@[j].0,
    { unimplemented!() }
}
pub open spec fn empty_style() -> Style { Map::empty() }
/// BTreeMap<u32, ComputedStyle>, assumed contracts
#[verifier::external_body]
pub struct StepStyles { x: u64 }
impl StepStyles {
    pub uninterp spec fn map(&self) -> Map<u32, Style>;
    #[verifier::external_body]
    pub fn new() -> (r: StepStyles) ensures r.map() == Map::<u32, Style>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or_default(&mut self, k: u32) -> (r: &mut ComputedStyle)
        ensures r.map() == style_at(old(self).map(), k), final(self).map() == old(self).map().insert(k, final(r).map())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pairs(self) -> (r: Vec<(u32, ComputedStyle)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.map().contains_key((#[trigger] r@[i]).0) && self.map()[r@[i].0] == r@[i].1.map(),
            forall|k: u32| #[trigger] self.map().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].0 < r@[j].0,
    { unimplemented!() }
}
pub open spec fn style_at(m: Map<u32, Style>, k: u32) -> Style { if m.contains_key(k) { m[k] } else { empty_style() } }
impl<V> Sorted<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<u32, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u32, v: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
}
/// HashMap<PropertyDescriptor, AnimationTrack>, assumed contracts
#[verifier::external_body]
pub struct Tracks { x: u64 }
impl Tracks {
    pub uninterp spec fn map(&self) -> Map<PropertyDescriptor, AnimationTrack>;
    #[verifier::external_body]
    pub fn new() -> (r: Tracks) ensures r.map() == Map::<PropertyDescriptor, AnimationTrack>::empty() { unimplemented!() }
    /// entry(d).or_insert_with_key(|d| an empty track of d)
    #[verifier::external_body]
    pub fn vx_entry_track(&mut self, d: PropertyDescriptor) -> (r: &mut AnimationTrack)
        ensures
            old(self).map().contains_key(d) ==> *r == old(self).map()[d],
            !old(self).map().contains_key(d) ==> r.descriptor == d && r.frames.map() == Map::<u32, ComputedValue>::empty(),
            final(self).map() == old(self).map().insert(d, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values(self) -> (r: Vec<AnimationTrack>)
        ensures
            forall|d: PropertyDescriptor| #[trigger] self.map().contains_key(d) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == self.map()[d],
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> exists|d: PropertyDescriptor| #![trigger self.map().contains_key(d)] self.map().contains_key(d) && r@[i] == self.map()[d],
            (forall|d: PropertyDescriptor| #[trigger] self.map().contains_key(d) ==> self.map()[d].descriptor == d) ==> forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].descriptor != r@[j].descriptor,
    { unimplemented!() }
}
// ---- what the key frames say ----
pub open spec fn with_values(c: Cascade, s: Style, p: Property, n: nat) -> Style
    decreases n
{
    if n == 0 { s } else { expanded(c, with_values(c, s, p, (n - 1) as nat), p.key, (n - 1) as usize, p.values@[n - 1]) }
}
pub open spec fn with_block(c: Cascade, s: Style, block: Seq<Declaration>, n: nat) -> Style
    decreases n
{
    if n == 0 { s } else {
        let r = with_block(c, s, block, (n - 1) as nat);
        match block[n - 1] { Declaration::Variable(_) => r, Declaration::Property(p) => with_values(c, r, p, p.values@.len()) }
    }
}
/// styles per percentage after the first n key frames; several of one percentage complement each other
pub open spec fn frames(c: Cascade, k: Seq<Keyframe>, n: nat) -> Map<u32, Style>
    decreases n
{
    if n == 0 { Map::empty() } else {
        let m = frames(c, k, (n - 1) as nat);
        m.insert(k[n - 1].step, with_block(c, style_at(m, k[n - 1].step), k[n - 1].declaration@, k[n - 1].declaration@.len()))
    }
}
pub open spec fn animated(m: Map<u32, Style>, d: PropertyDescriptor) -> bool { exists|k: u32| #[trigger] m.contains_key(k) && m[k].contains_key(d) }
/// an end of the cycle: what its key frame says, completed by the element's own or the initial values
pub open spec fn filled_at(m: Map<u32, Style>, e: Style, own: Style, r: Style, d: PropertyDescriptor) -> bool {
    &&& r.contains_key(d) == (e.contains_key(d) || animated(m, d))
    &&& r.contains_key(d) ==> r[d] == if e.contains_key(d) { e[d] } else if own.contains_key(d) { own[d] } else { initial_of(d.key) }
}
pub open spec fn filled(m: Map<u32, Style>, e: Style, own: Style, r: Style) -> bool { forall|d: PropertyDescriptor| #[trigger] filled_at(m, e, own, r, d) }
pub open spec fn completed(m: Map<u32, Style>, own: Style, r: Map<u32, Style>) -> bool {
    &&& forall|k: u32| #[trigger] r.contains_key(k) == (m.contains_key(k) || k == 0 || k == 100)
    &&& forall|k: u32| #[trigger] r.contains_key(k) && k != 0 && k != 100 ==> r[k] == m[k]
    &&& filled(m, style_at(m, 0), own, r[0]) && filled(m, style_at(m, 100), own, r[100])
}
pub open spec fn frame_ok(m: Map<u32, Style>, t: AnimationTrack, k: u32) -> bool {
    &&& t.frames.map().contains_key(k) == (m.contains_key(k) && m[k].contains_key(t.descriptor))
    &&& t.frames.map().contains_key(k) ==> t.frames.map()[k] == m[k][t.descriptor]
}
/// the track has a frame exactly where a (completed) key frame has the property, with its value
pub open spec fn track_ok(m: Map<u32, Style>, t: AnimationTrack) -> bool { forall|k: u32| #[trigger] frame_ok(m, t, k) }
proof fn with_values_grows(c: Cascade, s: Style, p: Property, n: nat)
    ensures s.dom().subset_of(with_values(c, s, p, n).dom()),
    decreases n
{
    if n > 0 { with_values_grows(c, s, p, (n - 1) as nat); axiom_expanded(c, with_values(c, s, p, (n - 1) as nat), p.key, (n - 1) as usize, p.values@[n - 1]); }
}
proof fn with_block_grows(c: Cascade, s: Style, block: Seq<Declaration>, n: nat)
    ensures s.dom().subset_of(with_block(c, s, block, n).dom()),
    decreases n
{
    if n > 0 {
        with_block_grows(c, s, block, (n - 1) as nat);
        if let Declaration::Property(p) = block[n - 1] { with_values_grows(c, with_block(c, s, block, (n - 1) as nat), p, p.values@.len()); }
    }
}
pub open spec fn pairs_of(c: Seq<(u32, ComputedStyle)>, m: Map<u32, Style>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> m.contains_key((#[trigger] c[i]).0) && m[c[i].0] == c[i].1.map()
    &&& forall|k: u32| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> c[i].0 < c[j].0
}
pub open spec fn nonempty(t: AnimationTrack) -> bool { exists|k: u32| #[trigger] t.frames.map().contains_key(k) }
/// frames entered so far: those of the percentages `done`, and of percentage `at` for the properties `put`
pub open spec fn entered(t: Map<PropertyDescriptor, AnimationTrack>, m: Map<u32, Style>, done: Set<u32>, at: u32, put: Set<PropertyDescriptor>, d: PropertyDescriptor, k: u32) -> bool {
    let want = (done.contains(k) && m[k].contains_key(d)) || (k == at && put.contains(d));
    &&& (t.contains_key(d) && t[d].frames.map().contains_key(k)) == want
    &&& want ==> t[d].frames.map()[k] == m[k][d]
}
impl Cascade {
//@fn src/styles/compute_animation_tracks.rs Cascade::compute_animation_tracks
//@ret r
//@rewrite HashSet :: new () => Descriptors :: new ()
//@rewrite HashSet < PropertyDescriptor > => Descriptors
//@rewrite let mut computed_keyframe_styles : BTreeMap < u32 , ComputedStyle > = BTreeMap :: new () => let mut computed_keyframe_styles : StepStyles = StepStyles :: new ()
//@rewrite . entry (keyframe . step) . or_default () => . vx_entry_or_default (keyframe . step)
//@rewrite . entry (0) . or_default () => . vx_entry_or_default (0)
//@rewrite . entry (100) . or_default () => . vx_entry_or_default (100)
//@rewrite in & animated_properties => in & animated_properties . vx_list ()
//@rewrite in computed_keyframe_styles => in computed_keyframe_styles . vx_pairs ()
//@rewrite (property , value) in style => (property , value) in style . vx_pairs ()
//@rewrite HashMap < PropertyDescriptor , AnimationTrack > = HashMap :: new () => Tracks = Tracks :: new ()
//@rewrite . entry (property) . or_insert_with_key (| descriptor | AnimationTrack { descriptor : * descriptor , frames : BTreeMap :: new () , }) => . vx_entry_track (property)
//@rewrite tracks . into_values () . collect () => tracks . vx_values ()
    ensures
        exists|m: Map<u32, Style>| {
            &&& #[trigger] completed(frames(*self, animation.keyframes@, animation.keyframes@.len()), style.map(), m)
            &&& forall|i: int| 0 <= i < r@.len() ==> track_ok(m, #[trigger] r@[i]) && animated(frames(*self, animation.keyframes@, animation.keyframes@.len()), r@[i].descriptor)
            &&& forall|d: PropertyDescriptor| #[trigger] animated(frames(*self, animation.keyframes@, animation.keyframes@.len()), d) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).descriptor == d
        },
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].descriptor != r@[j].descriptor,
        // every animated property is defined over the whole cycle
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).frames.map().contains_key(0) && r@[i].frames.map().contains_key(100),
//@start
    let ghost kf = animation.keyframes@;
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == kf, kf == animation.keyframes@,
        computed_keyframe_styles.map() == frames(*self, kf, __vx_i0 as nat),
        forall|d: PropertyDescriptor| #[trigger] animated_properties.set().contains(d) == animated(computed_keyframe_styles.map(), d),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    let ghost m0 = computed_keyframe_styles.map();
    let ghost a0 = animated_properties.set();
    let ghost n = __vx_i0 as nat;
//@after call vx_entry_or_default 0
    let ghost s0 = keyframe_style.map();
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), __vx_c1@ == keyframe.declaration@,
        keyframe_style.map() == with_block(*self, s0, keyframe.declaration@, __vx_i1 as nat),
    decreases __vx_c1@.len() - __vx_i1
//@loop 1 start
    let ghost b0 = keyframe_style.map();
//@loop 2
    invariant
        __vx_i2 <= __vx_e2, __vx_e2 == property.values@.len(),
        keyframe_style.map() == with_values(*self, b0, *property, __vx_i2 as nat),
    decreases __vx_e2 - __vx_i2
//@loop 0 end
    proof {
        let m1 = computed_keyframe_styles.map();
        let s1 = m1[keyframe.step];
        assert(m1 == frames(*self, kf, n + 1));
        with_block_grows(*self, s0, keyframe.declaration@, keyframe.declaration@.len());
        assert forall|d: PropertyDescriptor| #[trigger] animated_properties.set().contains(d) == animated(m1, d) by {
            if a0.contains(d) {
                let k = choose|k: u32| #[trigger] m0.contains_key(k) && m0[k].contains_key(d);
                if k == keyframe.step { assert(s0.dom().contains(d)); assert(s1.dom().contains(d)); }
                assert(m1.contains_key(k) && m1[k].contains_key(d));
            }
            if s1.contains_key(d) { assert(m1.contains_key(keyframe.step)); }
            if animated(m1, d) {
                let k = choose|k: u32| #[trigger] m1.contains_key(k) && m1[k].contains_key(d);
                if k != keyframe.step { assert(m0.contains_key(k) && m0[k].contains_key(d)); }
            }
        }
    }
//@after call vx_entry_or_default 1
    let ghost m = frames(*self, kf, kf.len());
    let ghost f0 = from.map();
    let ghost own = style.map();
//@loop 3 before
    proof {
        assert forall|d: PropertyDescriptor| #[trigger] listed(__vx_c3@, d) == animated(m, d) by { assert(animated_properties.set().contains(d) == listed(__vx_c3@, d)); }
    }
//@loop 3 start
    let ghost before = from.map();
    let ghost n = __vx_i3 as int;
//@loop 3 end
    proof {
        let p = __vx_c3@[n];
        assert(listed(__vx_c3@, p));
        assert(filled_at(m, f0, own, from.map(), p)) by { if before.contains_key(p) { assert(filled_at(m, f0, own, before, p)); } else { assert(!f0.contains_key(p)); } }
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] filled_at(m, f0, own, from.map(), __vx_c3@[i]) by { assert(i < n ==> filled_at(m, f0, own, before, __vx_c3@[i])); }
        assert forall|d: PropertyDescriptor| from.map().contains_key(d) implies #[trigger] filled_at(m, f0, own, from.map(), d) by { if d != p { assert(filled_at(m, f0, own, before, d)); } }
    }
//@loop 3
    invariant
        __vx_i3 <= __vx_c3@.len(), own == style.map(),
        forall|d: PropertyDescriptor| #[trigger] listed(__vx_c3@, d) == animated(m, d),
        forall|i: int| 0 <= i < __vx_i3 ==> #[trigger] filled_at(m, f0, own, from.map(), __vx_c3@[i]),
        forall|d: PropertyDescriptor| from.map().contains_key(d) ==> #[trigger] filled_at(m, f0, own, from.map(), d),
        forall|d: PropertyDescriptor| #[trigger] f0.contains_key(d) ==> from.map().contains_key(d),
    decreases __vx_c3@.len() - __vx_i3
//@after call vx_entry_or_default 2
    let ghost t0 = to.map();
//@loop 4 before
    proof {
        assert forall|d: PropertyDescriptor| #[trigger] listed(__vx_c4@, d) == animated(m, d) by { assert(animated_properties.set().contains(d) == listed(__vx_c4@, d)); }
    }
//@loop 4 start
    let ghost before = to.map();
    let ghost n = __vx_i4 as int;
//@loop 4 end
    proof {
        let p = __vx_c4@[n];
        assert(listed(__vx_c4@, p));
        assert(filled_at(m, t0, own, to.map(), p)) by { if before.contains_key(p) { assert(filled_at(m, t0, own, before, p)); } else { assert(!t0.contains_key(p)); } }
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] filled_at(m, t0, own, to.map(), __vx_c4@[i]) by { assert(i < n ==> filled_at(m, t0, own, before, __vx_c4@[i])); }
        assert forall|d: PropertyDescriptor| to.map().contains_key(d) implies #[trigger] filled_at(m, t0, own, to.map(), d) by { if d != p { assert(filled_at(m, t0, own, before, d)); } }
    }
//@loop 4
    invariant
        __vx_i4 <= __vx_c4@.len(), own == style.map(),
        forall|d: PropertyDescriptor| #[trigger] listed(__vx_c4@, d) == animated(m, d),
        forall|i: int| 0 <= i < __vx_i4 ==> #[trigger] filled_at(m, t0, own, to.map(), __vx_c4@[i]),
        forall|d: PropertyDescriptor| to.map().contains_key(d) ==> #[trigger] filled_at(m, t0, own, to.map(), d),
        forall|d: PropertyDescriptor| #[trigger] t0.contains_key(d) ==> to.map().contains_key(d),
    decreases __vx_c4@.len() - __vx_i4
//@after call new 2
    let ghost m2 = computed_keyframe_styles.map();
    let ghost mut done = Set::<u32>::empty();
    proof { assert(completed(m, own, m2)); }
//@loop 5
    invariant
        __vx_i5 <= __vx_c5@.len(),
        pairs_of(__vx_c5@, m2),
        forall|k: u32| #[trigger] done.contains(k) == exists|i: int| 0 <= i < __vx_i5 && (#[trigger] __vx_c5@[i]).0 == k,
        forall|d: PropertyDescriptor, k: u32| #[trigger] entered(tracks.map(), m2, done, 0, Set::empty(), d, k),
        forall|d: PropertyDescriptor| #[trigger] tracks.map().contains_key(d) ==> tracks.map()[d].descriptor == d && nonempty(tracks.map()[d]),
    decreases __vx_c5@.len() - __vx_i5
//@loop 5 start
    let ghost mut put = Set::<PropertyDescriptor>::empty();
    let ghost n5 = __vx_i5 as int;
//@loop 6 before
    proof {
        assert forall|d: PropertyDescriptor, k: u32| #[trigger] entered(tracks.map(), m2, done, step, put, d, k) by { assert(entered(tracks.map(), m2, done, 0, Set::empty(), d, k)); }
    }
//@loop 6
    invariant
        forall|d: PropertyDescriptor| #[trigger] m2[step].contains_key(d) ==> exists|i: int| 0 <= i < __vx_c6@.len() && (#[trigger] __vx_c6@[i]).0 == d,
        __vx_i6 <= __vx_c6@.len(), m2.contains_key(step), !done.contains(step),
        forall|i: int| 0 <= i < __vx_c6@.len() ==> m2[step].contains_key((#[trigger] __vx_c6@[i]).0) && m2[step][__vx_c6@[i].0] == __vx_c6@[i].1,
        forall|d: PropertyDescriptor| #[trigger] put.contains(d) == exists|i: int| 0 <= i < __vx_i6 && (#[trigger] __vx_c6@[i]).0 == d,
        forall|d: PropertyDescriptor, k: u32| #[trigger] entered(tracks.map(), m2, done, step, put, d, k),
        forall|d: PropertyDescriptor| #[trigger] tracks.map().contains_key(d) ==> tracks.map()[d].descriptor == d && nonempty(tracks.map()[d]),
    ensures
        forall|d: PropertyDescriptor| #[trigger] put.contains(d) == m2[step].contains_key(d),
    decreases __vx_c6@.len() - __vx_i6
//@loop 6 start
    let ghost tr = tracks.map();
    let ghost p0 = put;
//@loop 6 end
    proof {
        put = put.insert(property);
        assert(nonempty(tracks.map()[property])) by { assert(tracks.map()[property].frames.map().contains_key(step)); }
        assert forall|d: PropertyDescriptor, k: u32| #[trigger] entered(tracks.map(), m2, done, step, put, d, k) by {
            assert(entered(tr, m2, done, step, p0, d, k));
        }
    }
//@loop 5 end
    proof {
        let d0 = done;
        done = done.insert(step);
        assert(__vx_c5@[n5].0 == step);
        assert forall|d: PropertyDescriptor, k: u32| #[trigger] entered(tracks.map(), m2, done, 0, Set::empty(), d, k) by {
            assert(entered(tracks.map(), m2, d0, step, put, d, k));
        }
    }
//@loop 3 after
    proof {
        assert forall|d: PropertyDescriptor| #[trigger] filled_at(m, f0, own, from.map(), d) by {
            if listed(__vx_c3@, d) { let i = choose|i: int| 0 <= i < __vx_c3@.len() && #[trigger] __vx_c3@[i] == d; assert(filled_at(m, f0, own, from.map(), __vx_c3@[i])); }
            else if !from.map().contains_key(d) { assert(!animated(m, d)); assert(!f0.contains_key(d)); }
        }
        assert(filled(m, f0, own, from.map()));
    }
//@loop 4 after
    proof {
        assert forall|d: PropertyDescriptor| #[trigger] filled_at(m, t0, own, to.map(), d) by {
            if listed(__vx_c4@, d) { let i = choose|i: int| 0 <= i < __vx_c4@.len() && #[trigger] __vx_c4@[i] == d; assert(filled_at(m, t0, own, to.map(), __vx_c4@[i])); }
            else if !to.map().contains_key(d) { assert(!animated(m, d)); assert(!t0.contains_key(d)); }
        }
        assert(filled(m, t0, own, to.map()));
    }
//@before call vx_values 0
    proof {
        let tr = tracks.map();
        assert forall|k: u32| #[trigger] done.contains(k) == m2.contains_key(k) by {}
        assert forall|d: PropertyDescriptor| #[trigger] tr.contains_key(d) implies track_ok(m2, tr[d]) && animated(m, d) && tr[d].frames.map().contains_key(0) && tr[d].frames.map().contains_key(100) by {
            assert forall|k: u32| #[trigger] frame_ok(m2, tr[d], k) by { assert(entered(tr, m2, done, 0, Set::empty(), d, k)); }
            let k = choose|k: u32| #[trigger] tr[d].frames.map().contains_key(k);
            assert(entered(tr, m2, done, 0, Set::empty(), d, k));
            assert(filled_at(m, style_at(m, 0), own, m2[0], d));
            assert(filled_at(m, style_at(m, 100), own, m2[100], d));
            if k != 0 && k != 100 { assert(m.contains_key(k) && m[k].contains_key(d)); }
            assert(m2.contains_key(0) && m2.contains_key(100));
            assert(entered(tr, m2, done, 0, Set::empty(), d, 0));
            assert(entered(tr, m2, done, 0, Set::empty(), d, 100));
        }
        assert forall|d: PropertyDescriptor| #[trigger] animated(m, d) implies tr.contains_key(d) by {
            assert(m2.contains_key(0));
            assert(filled_at(m, style_at(m, 0), own, m2[0], d));
            assert(entered(tr, m2, done, 0, Set::empty(), d, 0));
        }
    }
//@end
}
fn main() {}
}
