use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C13, C20: how the style of an element comes about in an update
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@include declarations.inc
//@include blocks.inc
// ---- what is proved elsewhere ----
/// all that reset, inheritance and properties change on an element, apart from its animations and transitions
#[verifier::external_body]
pub struct Look { x: u64 }
#[verifier::external_body]
pub struct Complex { x: u64 }
#[verifier::external_body]
pub struct Animation { x: u64 }
#[verifier::external_body]
pub struct AnimationTrack { x: u64 }
#[verifier::external_body]
pub struct TaffyTree { x: u64 }
pub mod taffy { #[verifier::external_body] pub struct Style { x: u64 } }
//@item src/css/model.rs Style
//@item src/animation.rs AnimationDirection
//@item src/animation.rs AnimationFillMode
//@item src/animation.rs AnimationIterations
//@item src/animation.rs Jump
//@item src/animation.rs TimingFunction
//@item src/animation.rs Animator
//@item src/animation.rs Transition
//@item src/element.rs ElementStyle
//@item src/element.rs Element keep styles,style,animators,transitions add look:Look
//@item src/styles/mod.rs CascadeError
pub type Cstyle = Map<PropertyDescriptor, ComputedValue>;
pub struct Duration { x: u64 }
impl Duration {
    pub uninterp spec fn secs(&self) -> real;
    #[verifier::external_body]
    pub fn as_secs_f32(&self) -> (r: F) ensures r == f_of(self.secs()) { unimplemented!() }
}
//@item src/input.rs Input keep time
pub open spec fn time_of(i: Input) -> F { f_of(i.time.secs()) }
#[verifier::external_body]
pub struct Animations { x: u64 }
impl Animations {
    pub uninterp spec fn map(&self) -> Map<Text, Animation>;
    #[verifier::external_body]
    pub fn get(&self, k: &Text) -> (r: Option<&Animation>)
        ensures match r { Some(v) => self.map().contains_key(*k) && *v == self.map()[*k], None => !self.map().contains_key(*k) }
    { unimplemented!() }
}
pub struct Css { pub animations: Animations }
//@item src/styles/mod.rs Sizes derive(Clone,Copy)
pub struct Cascade<'c> { pub css: &'c Css, pub variables: Variables, pub sizes: Sizes }
pub trait PseudoClassMatcher { }
/// C09: the rule applies to the element now
pub uninterp spec fn applies<M>(s: Style, n: NodeId, t: TaffyTree, m: M) -> bool;
#[verifier::external_body]
pub fn match_style<M: PseudoClassMatcher>(style: &Style, node: NodeId, tree: &TaffyTree, matcher: &M) -> (r: bool) ensures r == applies(*style, node, *tree, *matcher) { unimplemented!() }
/// C20 (unit looks)
pub uninterp spec fn initially(l: Look) -> Look;
pub uninterp spec fn inheriting(parent: Look, l: Look) -> Look;
#[verifier::external_body]
pub fn reset_element_style(element: &mut Element) ensures *final(element) == (Element { look: initially(old(element).look), ..*old(element) }) { unimplemented!() }
pub mod inherit {
    use super::*;
    #[verifier::external_body]
    pub fn inherit(parent: &Element, element: &mut Element) ensures *final(element) == (Element { look: inheriting(parent.look, old(element).look), ..*old(element) }) { unimplemented!() }
}
/// C16 (unit tracks), C15 and C16 (unit playback), C17 (unit playback), C12 (unit apply)
pub uninterp spec fn tracks_of(a: Animation, m: Cstyle, r: Seq<AnimationTrack>) -> bool;
pub uninterp spec fn animated(time: F, t: Seq<AnimationTrack>, a0: Animator, m0: Cstyle, a1: Animator, m1: Cstyle) -> bool;
pub uninterp spec fn moved(time: F, t0: Transition, m0: Cstyle, t1: Transition, m1: Cstyle) -> bool;
pub uninterp spec fn captured(m: Cstyle, t0: Transition, t1: Transition) -> bool;
pub uninterp spec fn applied(d: PropertyDescriptor, v: ComputedValue, s: Sizes, l0: taffy::Style, e0: Element, l1: taffy::Style, e1: Element) -> bool;
impl ComputedStyle {
    #[verifier::external_body]
    pub fn new() -> (r: ComputedStyle) ensures r.map() == Map::<PropertyDescriptor, ComputedValue>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: Vec<(PropertyDescriptor, ComputedValue)>) ensures lists(self.map(), r@) { unimplemented!() }
}
/// every entry once, in some order
pub open spec fn lists(m: Cstyle, s: Seq<(PropertyDescriptor, ComputedValue)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|d: PropertyDescriptor| #[trigger] m.contains_key(d) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == d
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 != s[j].0
}
/// the number of layers the style gives a property
pub open spec fn layers(m: Cstyle, key: PropertyKey, n: usize) -> bool {
    &&& forall|d: PropertyDescriptor| #[trigger] m.contains_key(d) && d.key == key ==> d.index < n
    &&& n > 0 ==> m.contains_key(PropertyDescriptor { key, index: (n - 1) as usize })
}
#[verifier::external_body]
pub fn vx_layers(m: &ComputedStyle, key: PropertyKey) -> (r: usize) ensures layers(m.map(), key, r) { unimplemented!() }
pub proof fn layers_one(m: Cstyle, key: PropertyKey)
    ensures forall|a: usize, b: usize| #[trigger] layers(m, key, a) && #[trigger] layers(m, key, b) ==> a == b
{
    assert forall|a: usize, b: usize| #[trigger] layers(m, key, a) && #[trigger] layers(m, key, b) implies a == b by {
        let x = m.contains_key(PropertyDescriptor { key, index: (a - 1) as usize });
        let y = m.contains_key(PropertyDescriptor { key, index: (b - 1) as usize });
    }
}
pub open spec fn f0() -> F { f_of(0.0real) }
pub open spec fn plain() -> Animator {
    Animator { name: text_with(Seq::empty()), delay: f0(), direction: AnimationDirection::Normal, duration: f0(), fill_mode: AnimationFillMode::None, timing: TimingFunction::Linear, iterations: AnimationIterations::Number(f_of(1.0real)), running: true, time: f0() }
}
impl Default for Animator {
//@fn src/animation.rs Default for Animator::default
//@ret r
    ensures r == plain(),
//@start
    broadcast use {f_of_view, f_ext, text_ext, text_with_view};
//@end
}
#[verifier::external_body]
pub fn vx_taken(t: &mut Text) -> (r: Text) ensures r == *old(t) { unimplemented!() }
impl Animator {
//@fn src/animation.rs Animator::reset_settings
//@rewrite std::mem::take(&mut self.name) => vx_taken(&mut self.name)
    ensures *final(self) == (Animator { name: old(self).name, time: old(self).time, ..plain() }),
//@end
    #[verifier::external_body]
    pub fn play(&mut self, time: F, tracks: &Vec<AnimationTrack>, style: &mut ComputedStyle)
        ensures animated(time, tracks@, *old(self), old(style).map(), *final(self), final(style).map())
    { unimplemented!() }
}
impl Transition {
    #[verifier::external_body]
    pub fn play(&mut self, time: F, style: &mut ComputedStyle) ensures moved(time, *old(self), old(style).map(), *final(self), final(style).map()) { unimplemented!() }
    #[verifier::external_body]
    pub fn init_after_style_applied(&mut self, style: &mut ComputedStyle) ensures captured(old(style).map(), *old(self), *final(self)), final(style).map() == old(style).map() { unimplemented!() }
}

// ---- the rules ----
pub open spec fn block_of(s: ElementStyle) -> Seq<Declaration> { match s { ElementStyle::Static(x) => x.declaration@, ElementStyle::Dynamic(x) => x.declaration@ } }
pub open spec fn chosen<M>(s: ElementStyle, n: NodeId, t: TaffyTree, m: M) -> bool { match s { ElementStyle::Static(_) => true, ElementStyle::Dynamic(x) => applies(x, n, t, m) } }
/// the declarations of the rules that apply now, in their order
pub open spec fn rules<M>(s: Seq<ElementStyle>, n: NodeId, t: TaffyTree, m: M) -> Seq<Declaration>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { rules(s.drop_last(), n, t, m) + if chosen(s.last(), n, t, m) { block_of(s.last()) } else { Seq::empty() } }
}
pub open spec fn later(a: Given, b: Given) -> Given { match b { Given::Nothing => a, g => g } }
pub proof fn vars_join(vars: Map<Text, Seq<Definition>>, a: Seq<Declaration>, b: Seq<Declaration>)
    ensures vars_after(vars, a + b) == vars_after(vars_after(vars, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { vars_join(vars, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn winner_join(vars: Map<Text, Seq<Definition>>, a: Seq<Declaration>, b: Seq<Declaration>, d: PropertyDescriptor)
    ensures winner(vars, a + b, d) == later(winner(vars, a, d), winner(vars_after(vars, a), b, d))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        winner_join(vars, a, b.drop_last(), d);
        vars_join(vars, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn settled_join(m0: Cstyle, m1: Cstyle, m2: Cstyle, vars: Map<Text, Seq<Definition>>, a: Seq<Declaration>, b: Seq<Declaration>)
    requires settled(m0, m1, vars, a), settled(m1, m2, vars_after(vars, a), b)
    ensures settled(m0, m2, vars, a + b), vars_after(vars, a + b) == vars_after(vars_after(vars, a), b)
{
    vars_join(vars, a, b);
    assert forall|d: PropertyDescriptor| #![trigger m2.contains_key(d)] #![trigger m2[d]] !shorthand(d.key) implies took(m0, m2, d, winner(vars, a + b, d)) by {
        winner_join(vars, a, b, d);
        assert(took(m0, m1, d, winner(vars, a, d)) || m1.contains_key(d) || true);
        let x = m1.contains_key(d);
        let y = m2.contains_key(d);
    }
}
// ---- animations and transitions of the update ----
pub open spec fn animates(css: Css, time: F, a0: Animator, m0: Cstyle, a1: Animator, m1: Cstyle) -> bool {
    if css.animations.map().contains_key(a0.name) {
        exists|t: Seq<AnimationTrack>| tracks_of(css.animations.map()[a0.name], m0, t) && #[trigger] animated(time, t, a0, m0, a1, m1)
    } else { a1 == a0 && m1 == m0 }
}
pub open spec fn animated_upto(css: Css, time: F, a0: Seq<Animator>, a1: Seq<Animator>, m: Seq<Cstyle>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> animates(css, time, #[trigger] a0[i], m[i], a1[i], m[i + 1])
}
pub open spec fn moved_upto(time: F, t0: Seq<Transition>, t1: Seq<Transition>, m: Seq<Cstyle>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> moved(time, #[trigger] t0[i], m[i], t1[i], m[i + 1])
}
pub open spec fn rest_kept<T>(s: Seq<T>, s0: Seq<T>, n: int) -> bool { s.len() == s0.len() && forall|i: int| n <= i < s0.len() ==> s[i] == #[trigger] s0[i] }
pub open spec fn all_applied(c: Cascade, order: Seq<(PropertyDescriptor, ComputedValue)>, l: Seq<taffy::Style>, e: Seq<Element>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> applied((#[trigger] order[i]).0, order[i].1, c.sizes, l[i], e[i], l[i + 1], e[i + 1])
}
pub open spec fn all_captured(m: Cstyle, t0: Seq<Transition>, t1: Seq<Transition>, n: int) -> bool { forall|i: int| 0 <= i < n ==> captured(m, #[trigger] t0[i], t1[i]) }
/// every animator is played once, in its order, with the time of the update
pub open spec fn all_animated(css: Css, time: F, a0: Seq<Animator>, a1: Seq<Animator>, m: Seq<Cstyle>) -> bool {
    &&& a1.len() == a0.len() && m.len() == a0.len() + 1
    &&& animated_upto(css, time, a0, a1, m, a0.len() as int)
}
pub open spec fn all_moved(time: F, t0: Seq<Transition>, t1: Seq<Transition>, m: Seq<Cstyle>) -> bool {
    &&& t1.len() == t0.len() && m.len() == t0.len() + 1
    &&& moved_upto(time, t0, t1, m, t0.len() as int)
}
pub open spec fn cleared(a: Animator) -> Animator { Animator { name: a.name, time: a.time, ..plain() } }
pub open spec fn kept<T>(s: Seq<T>, n: usize) -> Seq<T> { if s.len() <= n { s } else { s.take(n as int) } }
/// what happens to an element in an update, in between its beginning and its end
pub ghost struct Passage {
    pub m1: Cstyle, pub n_a: usize, pub n_t: usize,
    pub a1: Seq<Animator>, pub ma: Seq<Cstyle>, pub t1: Seq<Transition>, pub mt: Seq<Cstyle>,
    pub start: Element, pub order: Seq<(PropertyDescriptor, ComputedValue)>, pub layouts: Seq<taffy::Style>, pub elements: Seq<Element>,
}
pub open spec fn passage<M>(w: Passage, c: Cascade, time: F, n: NodeId, t: TaffyTree, m: M, parent: Element, l0: taffy::Style, e0: Element, l1: taffy::Style, e1: Element) -> bool {
    // the values of the element: those of the rules that apply in their order, then its own style (C13)
    &&& settled(Map::empty(), w.m1, c.variables.map(), rules(e0.styles@, n, t, m) + e0.style@)
    // animations and transitions that it no longer has end; the others are played (C15, C16, C17)
    &&& layers(w.m1, PropertyKey::AnimationName, w.n_a) && layers(w.m1, PropertyKey::TransitionProperty, w.n_t)
    &&& all_animated(*c.css, time, kept(e0.animators@, w.n_a), w.a1, w.ma) && w.ma[0] == w.m1
    &&& all_moved(time, kept(e0.transitions@, w.n_t), w.t1, w.mt) && w.mt[0] == w.ma.last()
    // it starts from the initial look and what it inherits (C20), its animations and transitions from the settings of none
    &&& w.start.look == inheriting(parent.look, initially(e0.look))
    &&& w.start.styles == e0.styles && w.start.style == e0.style
    &&& w.start.animators@ == w.a1.map_values(|a: Animator| cleared(a))
    &&& w.start.transitions@ == w.t1.map_values(|t: Transition| Transition { animator: cleared(t.animator), ..t })
    // every value is applied exactly once (C10, C12)
    &&& lists(w.mt.last(), w.order)
    &&& w.layouts.len() == w.order.len() + 1 && w.elements.len() == w.order.len() + 1
    &&& w.layouts[0] == l0 && w.elements[0] == w.start
    &&& all_applied(c, w.order, w.layouts, w.elements, w.order.len() as int)
    &&& l1 == w.layouts.last()
    // transitions keep what they arrived at
    &&& e1.look == w.elements.last().look && e1.styles == w.elements.last().styles && e1.style == w.elements.last().style && e1.animators == w.elements.last().animators
    &&& e1.transitions@.len() == w.elements.last().transitions@.len()
    &&& all_captured(w.mt.last(), w.elements.last().transitions@, e1.transitions@, e1.transitions@.len() as int)
}
impl<'c> Cascade<'c> {
    // (proved in the unit `cascade`)
    #[verifier::external_body]
    pub fn compute_declaration_block(&mut self, block: &Vec<Declaration>, style: &mut ComputedStyle)
        ensures
            final(self).css == old(self).css, final(self).sizes == old(self).sizes,
            final(self).variables.map() == vars_after(old(self).variables.map(), block@),
            settled(old(style).map(), final(style).map(), old(self).variables.map(), block@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_animation_tracks(&mut self, animation: &Animation, style: &ComputedStyle) -> (r: Vec<AnimationTrack>)
        ensures *final(self) == *old(self), tracks_of(*animation, style.map(), r@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn apply(&mut self, key: PropertyKey, index: usize, value: &ComputedValue, layout: &mut taffy::Style, element: &mut Element) -> (r: Result<(), CascadeError>)
        ensures
            *final(self) == *old(self),
            applied(PropertyDescriptor { key, index }, *value, old(self).sizes, *old(layout), *old(element), *final(layout), *final(element)),
    { unimplemented!() }
//@fn src/styles/mod.rs Cascade::apply_styles
//@generics <M: PseudoClassMatcher>
//@param matcher: &M
//@param tree: &TaffyTree
//@rewrite self.stats.matches_static += 1; => 
//@rewrite self.stats.matches_dynamic += 1; => 
//@rewrite self.stats.apply_ok += 1; => 
//@rewrite self.stats.apply_error += 1; => 
//@rewrite HashMap::new() => ComputedStyle::new()
//@rewrite in &computed_style => in computed_style.vx_list().iter()
//@rewrite computed_style.keys().filter(|property: &&PropertyDescriptor| property.key == key).map(|property| property.index + 1).max().unwrap_or(0) => vx_layers(&computed_style, key)
    ensures
        final(self).css == old(self).css, final(self).sizes == old(self).sizes,
        final(self).variables.map() == vars_after(old(self).variables.map(), rules(old(element).styles@, node, *tree, *matcher) + old(element).style@),
        exists|w: Passage| #[trigger] passage(w, *old(self), time_of(*input), node, *tree, *matcher, *parent, *old(layout), *old(element), *final(layout), *final(element)),
//@loop 0
    invariant
        self.css == old(self).css, self.sizes == old(self).sizes,
        *__vx_c0 == element.styles, __vx_i0 <= __vx_c0@.len(),
        self.variables.map() == vars_after(old(self).variables.map(), rules(__vx_c0@.take(__vx_i0 as int), node, *tree, *matcher)),
        settled(Map::empty(), computed_style.map(), old(self).variables.map(), rules(__vx_c0@.take(__vx_i0 as int), node, *tree, *matcher)),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    let ghost before = computed_style.map(); let ghost vars = self.variables.map();
//@loop 0 end
    proof {
        let s = __vx_c0@.take(__vx_i0 as int);
        assert(s.drop_last() =~= __vx_c0@.take(__vx_i0 - 1));
        let a = rules(s.drop_last(), node, *tree, *matcher);
        if chosen(s.last(), node, *tree, *matcher) { settled_join(Map::empty(), before, computed_style.map(), old(self).variables.map(), a, block_of(s.last())); }
        else { assert(a + Seq::<Declaration>::empty() =~= a); }
    }
//@before call is_empty 0
    let ghost e_rules = *element; let ghost m_rules = computed_style.map(); let ghost v_rules = self.variables.map();
    proof { assert(element.styles@.take(element.styles@.len() as int) =~= element.styles@); }
//@before call truncate 0
    let ghost m1 = computed_style.map(); let ghost vars1 = self.variables.map(); let ghost (mut n_a, mut n_t) = (0usize, 0usize);
    let ghost (mut ma, mut mt): (Seq<Cstyle>, Seq<Cstyle>) = (Seq::empty(), Seq::empty());
    let ghost (mut a0, mut t0, mut a1, mut t1) = (Seq::<Animator>::empty(), Seq::<Transition>::empty(), Seq::<Animator>::empty(), Seq::<Transition>::empty()); let ghost mut start = *element;
    let ghost (mut order, mut ls, mut es): (Seq<(PropertyDescriptor, ComputedValue)>, Seq<taffy::Style>, Seq<Element>) = (Seq::empty(), Seq::empty(), Seq::empty());
    proof {
        let a = rules(old(element).styles@, node, *tree, *matcher);
        if old(element).style@.len() == 0 { assert(a + old(element).style@ =~= a); }
        else { settled_join(Map::empty(), m_rules, m1, old(self).variables.map(), a, old(element).style@); }
    }
//@before call as_secs_f32 0
    proof {
        n_a = choose|n: usize| layers(m1, PropertyKey::AnimationName, n); n_t = choose|n: usize| layers(m1, PropertyKey::TransitionProperty, n);
        layers_one(m1, PropertyKey::AnimationName); layers_one(m1, PropertyKey::TransitionProperty);
        a0 = element.animators@; t0 = element.transitions@;
        assert(a0 == kept(old(element).animators@, n_a)); assert(t0 == kept(old(element).transitions@, n_t));
    }
//@loop 1
    invariant
        self.css == old(self).css, self.sizes == old(self).sizes, self.variables.map() == vars1,
        a0.len() == __vx_c1@.len(), __vx_i1 <= __vx_c1@.len(), time == time_of(*input),
        rest_kept(__vx_c1@, a0, __vx_i1 as int),
        ma.len() == __vx_i1, ma.push(computed_style.map())[0] == m1,
        animated_upto(*self.css, time, a0, __vx_c1@, ma.push(computed_style.map()), __vx_i1 as int),
    decreases __vx_c1@.len() - __vx_i1
//@loop 1 start
    proof { assert(a0[__vx_i1 as int] == __vx_c1@[__vx_i1 as int]); ma = ma.push(computed_style.map()); }
//@loop 2
    invariant
        self.css == old(self).css, self.sizes == old(self).sizes, self.variables.map() == vars1,
        t0.len() == __vx_c2@.len(), __vx_i2 <= __vx_c2@.len(), time == time_of(*input),
        rest_kept(__vx_c2@, t0, __vx_i2 as int),
        mt.len() == __vx_i2, mt.push(computed_style.map())[0] == ma.last(),
        moved_upto(time, t0, __vx_c2@, mt.push(computed_style.map()), __vx_i2 as int),
    decreases __vx_c2@.len() - __vx_i2
//@loop 2 start
    proof { assert(t0[__vx_i2 as int] == __vx_c2@[__vx_i2 as int]); mt = mt.push(computed_style.map()); }
//@before call play 1
    proof { }
//@loop 2 before
    proof { ma = ma.push(computed_style.map()); a1 = element.animators@; }
//@loop 3 before
    proof { mt = mt.push(computed_style.map()); t1 = element.transitions@; }
//@loop 3
    invariant
        a1.len() == __vx_c3@.len(), __vx_i3 <= __vx_c3@.len(), rest_kept(__vx_c3@, a1, __vx_i3 as int),
        forall|i: int| 0 <= i < __vx_i3 ==> __vx_c3@[i] == cleared(#[trigger] a1[i]),
    decreases __vx_c3@.len() - __vx_i3
//@loop 3 start
    proof { assert(a1[__vx_i3 as int] == __vx_c3@[__vx_i3 as int]); }
//@loop 4
    invariant
        t1.len() == __vx_c4@.len(), __vx_i4 <= __vx_c4@.len(), rest_kept(__vx_c4@, t1, __vx_i4 as int),
        forall|i: int| 0 <= i < __vx_i4 ==> __vx_c4@[i] == (Transition { animator: cleared(t1[i].animator), ..#[trigger] t1[i] }),
    decreases __vx_c4@.len() - __vx_i4
//@loop 4 start
    proof { assert(t1[__vx_i4 as int] == __vx_c4@[__vx_i4 as int]); }
//@loop 5 before
    proof { start = *element; }
//@loop 5
    invariant
        self.css == old(self).css, self.sizes == old(self).sizes, self.variables.map() == vars1,
        lists(mt.last(), __vx_c5@), __vx_i5 <= __vx_c5@.len(),
        ls.len() == __vx_i5, es.len() == __vx_i5, ls.push(*layout)[0] == *old(layout), es.push(*element)[0] == start,
        all_applied(*old(self), __vx_c5@, ls.push(*layout), es.push(*element), __vx_i5 as int),
    decreases __vx_c5@.len() - __vx_i5
//@loop 5 start
    proof { ls = ls.push(*layout); es = es.push(*element); }
//@loop 5 after
    proof { order = __vx_c5@; ls = ls.push(*layout); es = es.push(*element); }
//@loop 6
    invariant
        es.last().transitions@.len() == __vx_c6@.len(), __vx_i6 <= __vx_c6@.len(), rest_kept(__vx_c6@, es.last().transitions@, __vx_i6 as int),
        computed_style.map() == mt.last(),
        all_captured(mt.last(), es.last().transitions@, __vx_c6@, __vx_i6 as int),
    decreases __vx_c6@.len() - __vx_i6
//@loop 6 start
    proof { assert(es.last().transitions@[__vx_i6 as int] == __vx_c6@[__vx_i6 as int]); }
//@loop 6 after
    proof {
        let w = Passage { m1, n_a, n_t, a1, ma, t1, mt, start, order, layouts: ls, elements: es };
        assert(start.animators@ =~= a1.map_values(|a: Animator| cleared(a)));
        assert(start.transitions@ =~= t1.map_values(|t: Transition| Transition { animator: cleared(t.animator), ..t }));
        assert(passage(w, *old(self), time, node, *tree, *matcher, *parent, *old(layout), *old(element), *layout, *element));
    }
//@end
}
}
fn main() {}
