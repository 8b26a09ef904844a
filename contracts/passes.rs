use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// the passes of an update: data, styles, layout, places, events, in this order and from these beginnings
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@type TaffyTree<Element> => Tree
//@type Bindings => Dict<Vec<Binding>>
#[verifier::external_body]
pub struct Value { x: u64 }
#[verifier::external_body]
pub struct ModelRest { x: u64 }
#[verifier::external_body]
pub struct ViewRest { x: u64 }
#[verifier::external_body]
pub struct DragContext { x: u64 }
pub struct Duration { pub x: u64 }
pub mod taffy { use super::*; pub struct Style { pub size: Size<Dimension>, pub rest: u64 } impl Clone for Style { #[verifier::external_body] fn clone(&self) -> (r: Style) ensures r == *self { unimplemented!() } } }
#[derive(Debug)]
pub enum ViewError { Other }
#[verifier::external_body]
pub struct Variables { x: u64 }
impl Variables {
    pub uninterp spec fn empty(&self) -> bool;
    #[verifier::external_body]
    pub fn default() -> (r: Variables) ensures r.empty() { unimplemented!() }
}
#[verifier::external_body]
pub fn length(v: F) -> (r: Dimension) { unimplemented!() }
pub struct Dimension { pub x: u64 }
#[derive(Clone, Copy)]
pub struct Size<T> { pub width: T, pub height: T }
#[derive(Clone, Copy)]
pub struct Point<T> { pub x: T, pub y: T }
pub struct Layout { pub x: u64 }
pub open spec fn f0() -> F { f_of(0.0real) }
#[verifier::external_body]
pub fn vx_origin() -> (r: Point<F>) ensures r == (Point { x: f0(), y: f0() }) { unimplemented!() }
//@item src/element.rs Pointer derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs Element keep pointer
//@include tree.inc
//@item src/view_model.rs Reaction
//@item src/view_model.rs BindingParams
//@item src/view_model.rs Binding
//@item src/output.rs Output
//@item src/input.rs MouseButtons derive(Clone,Copy)
//@item src/input.rs Keys derive(Clone,Copy)
//@item src/input.rs InputEvent derive(Clone,Copy)
//@item src/input.rs Input
//@item src/styles/mod.rs Sizes derive(Clone,Copy)
//@item src/view_model.rs ViewModel keep bindings,mouse,elements_under_mouse,elements_in_action,output,drag,focus add rest:ModelRest
//@item src/view.rs View keep model,tree,root,body add rest:ViewRest

// ---- C05: the events of an update ----
/// the position of the last pointer move, the known one if there was none
pub open spec fn pointed(events: Seq<InputEvent>, mouse: [F; 2]) -> [F; 2]
    decreases events.len()
{
    if events.len() == 0 { mouse } else { match events.last() { InputEvent::MouseMove(p) => p, _ => pointed(events.drop_last(), mouse) } }
}
pub open spec fn moves(events: Seq<InputEvent>) -> bool
    decreases events.len()
{
    events.len() > 0 && (events.last() is MouseMove || moves(events.drop_last()))
}
/// the events that are handled: a still pointer is looked at anew, as what is under it may have changed
pub open spec fn heard(events: Seq<InputEvent>, mouse: [F; 2]) -> Seq<InputEvent> {
    if moves(events) { events } else { seq![InputEvent::MouseMove(mouse)] + events }
}
/// unit events: handle_elements_input
pub uninterp spec fn handled(m0: ViewModel, events: Seq<InputEvent>, body: NodeId, t0: Tree, m1: ViewModel, t1: Tree) -> bool;
pub open spec fn silent(o: Output) -> bool { !o.is_input_captured && o.pointer == Pointer::Auto && o.messages@.len() == 0 }
pub open spec fn same_but_output(a: ViewModel, b: ViewModel) -> bool { a == (ViewModel { output: a.output, ..b }) }
/// what handle_output does
pub open spec fn answers(m0: ViewModel, input: Input, body: NodeId, t0: Tree, m1: ViewModel, t1: Tree, o: Output, a: ViewModel, b: ViewModel) -> bool {
    &&& a == (ViewModel { mouse: pointed(input.events@, m0.mouse), output: a.output, ..m0 }) && silent(a.output)
    &&& handled(a, heard(input.events@, m0.mouse), body, t0, b, t1)
    &&& same_but_output(m1, b) && silent(m1.output)
    &&& o.messages == b.output.messages
}
impl Output {
    #[verifier::external_body]
    pub fn new() -> (r: Output) ensures silent(r) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_taken(o: &mut Output) -> (r: Output) ensures r == *old(o), silent(*final(o)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_events(e: &Vec<InputEvent>) -> (r: Vec<InputEvent>) ensures r@ == e@ { unimplemented!() }
impl ViewModel {
    #[verifier::external_body]
    pub fn handle_elements_input(&mut self, events: Vec<InputEvent>, body: NodeId, tree: &mut Tree) -> (r: Result<(), ViewError>)
        ensures r is Ok ==> handled(*old(self), events@, body, *old(tree), *final(self), *final(tree))
    { unimplemented!() }
//@fn src/view_model.rs ViewModel::handle_output
//@ret r
//@rewrite input.events.clone() => vx_events(&input.events)
//@rewrite take(&mut self.output) => vx_taken(&mut self.output)
    ensures
        r matches Ok(o) ==> exists|a: ViewModel, b: ViewModel| #[trigger] handled(a, heard(input.events@, old(self).mouse), body, *old(tree), b, *final(tree)) && answers(*old(self), *input, body, *old(tree), *final(self), *final(tree), o, a, b),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == input.events@,
        self.mouse == pointed(__vx_c0@.take(__vx_i0 as int), old(self).mouse), has_mouse_move == moves(__vx_c0@.take(__vx_i0 as int)),
        *self == (ViewModel { mouse: self.mouse, ..*old(self) }),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 end
    proof { let s = __vx_c0@.take(__vx_i0 as int); assert(s.drop_last() =~= __vx_c0@.take(__vx_i0 - 1)); }
//@loop 0 after
    proof { assert(__vx_c0@.take(__vx_c0@.len() as int) =~= __vx_c0@); assert(moves(input.events@) || pointed(input.events@, old(self).mouse) == old(self).mouse) by { still(input.events@, old(self).mouse); } }
//@before call handle_elements_input 0
    let ghost a = *self;
    proof { assert(events@ =~= heard(input.events@, old(self).mouse)); }
//@loop 1 before
    let ghost b = *self;
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), __vx_c1@ == b.elements_under_mouse@,
        same_but_output(*self, b), self.output.messages == b.output.messages,
    decreases __vx_c1@.len() - __vx_i1
//@end
}
// ---- the passes of an update ----
pub uninterp spec fn styles(rest: TreeRest) -> Map<NodeId, taffy::Style>;
impl Tree {
    #[verifier::external_body]
    pub fn style(&self, node: NodeId) -> (r: Result<&taffy::Style, ViewError>) ensures r is Ok && *r->Ok_0 == styles(self.rest())[node] { unimplemented!() }
    #[verifier::external_body]
    pub fn set_style(&mut self, node: NodeId, style: taffy::Style) -> (r: Result<(), ViewError>)
        ensures
            r is Ok ==> final(self).elems() == old(self).elems() && final(self).kids() == old(self).kids() && final(self).parents() == old(self).parents()
                && styles(final(self).rest()) == styles(old(self).rest()).insert(node, style),
    { unimplemented!() }
}
/// whether the viewport has another size than the root (which is not laid out: any answer will do)
#[verifier::external_body]
pub fn vx_resized(s: &taffy::Style, width: F, height: F) -> bool { unimplemented!() }
/// unit bind: the value is taken over
pub uninterp spec fn bound(m0: ViewModel, value: Value, m1: ViewModel, r: Seq<Reaction>) -> bool;
/// units reactions and spans: a reaction is carried out
pub uninterp spec fn carried(v0: View, r: Reaction, v1: View) -> bool;
/// unit walk: n and what is below it is dressed
pub uninterp spec fn dressed(v0: View, n: NodeId, input: Input, sizes: Sizes, vars: Variables, v1: View) -> bool;
/// the layout engine
pub uninterp spec fn laid(t0: Tree, n: NodeId, t1: Tree) -> bool;
/// unit geometry: n and what is below it is placed
pub uninterp spec fn placed(v0: View, n: NodeId, origin: Point<F>, opacity: F, clip: Option<Layout>, v1: View) -> bool;
#[verifier::external_body]
pub fn vx_layout(tree: &mut Tree, body: NodeId) -> (r: Result<(), ViewError>) ensures r is Ok ==> laid(*old(tree), body, *final(tree)) { unimplemented!() }
pub open spec fn same_ends(a: View, b: View) -> bool { a.root == b.root && a.body == b.body }
pub ghost struct Passes { pub model: ViewModel, pub reactions: Seq<Reaction>, pub views: Seq<View>, pub grown: View, pub dressed: View, pub laid: View, pub placed: View }
pub open spec fn all_carried(views: Seq<View>, reactions: Seq<Reaction>, n: int) -> bool { forall|i: int| 0 <= i < n ==> carried(#[trigger] views[i], reactions[i], views[i + 1]) }
pub open spec fn is_sizes(s: Sizes, input: Input) -> bool {
    &&& s.root_font_size@ == 16.0real && s.parent_font_size@ == 16.0real
    &&& s.viewport_width == input.viewport[0] && s.viewport_height == input.viewport[1]
}
/// every reaction to the value is carried out, in order, before anything else
pub open spec fn pass_data(w: Passes, v0: View, input: Input, value: Value, v1: View, o: Output) -> bool {
    &&& bound(v0.model, value, w.model, w.reactions)
    &&& w.views.len() == w.reactions.len() + 1 && w.views[0] == (View { model: w.model, ..v0 }) && all_carried(w.views, w.reactions, w.reactions.len() as int)
    &&& w.grown.model == w.views.last().model && w.grown.tree.elems() == w.views.last().tree.elems() && w.grown.tree.kids() == w.views.last().tree.kids()
}
/// the body is dressed with the sizes of the viewport, no variables being in scope
pub open spec fn pass_looks(w: Passes, v0: View, input: Input, value: Value, v1: View, o: Output) -> bool {
    exists|s: Sizes, vars: Variables| is_sizes(s, input) && vars.empty() && #[trigger] dressed(w.grown, v0.body, input, s, vars, w.dressed)
}
/// the body is placed at the origin, opaque and clipped by nothing, from the layout of the styles just given
pub open spec fn pass_places(w: Passes, v0: View, input: Input, value: Value, v1: View, o: Output) -> bool {
    &&& laid(w.dressed.tree, v0.body, w.laid.tree) && w.laid == (View { tree: w.laid.tree, ..w.dressed })
    &&& placed(w.laid, v0.body, Point { x: f0(), y: f0() }, f_of(1.0real), None, w.placed)
}
/// the events are answered with what is under the pointer then
pub open spec fn pass_events(w: Passes, v0: View, input: Input, value: Value, v1: View, o: Output) -> bool {
    &&& exists|a: ViewModel, b: ViewModel| #[trigger] handled(a, heard(input.events@, w.placed.model.mouse), v0.body, w.placed.tree, b, v1.tree)
            && answers(w.placed.model, input, v0.body, w.placed.tree, v1.model, v1.tree, o, a, b)
    &&& v1 == (View { model: v1.model, tree: v1.tree, ..w.placed })
}
// ---- C04: before any data is bound ----
/// what a place shows before a value is bound to it: null
pub open spec fn by_default(p: BindingParams) -> Option<Reaction> {
    match p {
        BindingParams::Visibility(parent, node, polarity) => Some(Reaction::Reattach { parent, node, visible: !polarity }),
        BindingParams::Repeat(parent, start, size) => Some(Reaction::Repeat { parent, start, cursor: start, end: (start + size) as usize }),
        _ => None,
    }
}
pub open spec fn listed(m: Map<Seq<char>, Vec<Binding>>, v: Vec<Binding>) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && m[k] == v }
impl Dict<Vec<Binding>> {
    /// every value once, in some order
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: Vec<Vec<Binding>>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> listed(self.map(), #[trigger] r@[i]),
            forall|k: Seq<char>| #[trigger] self.map().contains_key(k) ==> r@.contains(self.map()[k]),
    { unimplemented!() }
}
pub open spec fn registered(m: Map<Seq<char>, Vec<Binding>>, b: Binding) -> bool { exists|k: Seq<char>, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() && #[trigger] m[k]@[i] == b }
/// the reactions are those of all conditions and lists to null
pub open spec fn defaults(m: Map<Seq<char>, Vec<Binding>>, rs: Seq<Reaction>) -> bool {
    &&& forall|i: int| 0 <= i < rs.len() ==> origin(m, #[trigger] rs[i])
    &&& forall|k: Seq<char>, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() ==> covered(rs, #[trigger] m[k]@[i])
}
pub open spec fn origin(m: Map<Seq<char>, Vec<Binding>>, r: Reaction) -> bool { exists|b: Binding| #[trigger] registered(m, b) && by_default(b.params) == Some(r) }
pub open spec fn covered(rs: Seq<Reaction>, b: Binding) -> bool { by_default(b.params) matches Some(r) ==> rs.contains(r) }
pub open spec fn countable(m: Map<Seq<char>, Vec<Binding>>) -> bool {
    forall|k: Seq<char>, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() ==> bounded((#[trigger] m[k]@[i]).params)
}
pub open spec fn bounded(p: BindingParams) -> bool { p matches BindingParams::Repeat(_, start, size) ==> start + size <= usize::MAX }
pub open spec fn all_covered(rs: Seq<Reaction>, lists: Seq<Vec<Binding>>, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < lists[i]@.len() ==> covered(rs, #[trigger] lists[i]@[j]) }
pub open spec fn all_from(m: Map<Seq<char>, Vec<Binding>>, rs: Seq<Reaction>) -> bool { forall|i: int| 0 <= i < rs.len() ==> origin(m, #[trigger] rs[i]) }
pub open spec fn some_covered(rs: Seq<Reaction>, list: Seq<Binding>, n: int) -> bool { forall|j: int| 0 <= j < n ==> covered(rs, #[trigger] list[j]) }
proof fn covered_more(a: Seq<Reaction>, r: Reaction)
    ensures forall|b: Binding| covered(a, b) ==> #[trigger] covered(a.push(r), b), a.push(r).contains(r)
{
    assert(a.push(r)[a.len() as int] == r);
    assert forall|b: Binding| covered(a, b) implies #[trigger] covered(a.push(r), b) by {
        if let Some(x) = by_default(b.params) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(a.push(r)[i] == x); }
    }
}
pub ghost struct Settled { pub reactions: Seq<Reaction>, pub views: Seq<View> }
pub open spec fn settled(w: Settled, v0: View, v1: View) -> bool {
    &&& defaults(v0.model.bindings.map(), w.reactions)
    &&& w.views.len() == w.reactions.len() + 1 && w.views[0] == v0 && w.views.last() == v1 && all_carried(w.views, w.reactions, w.reactions.len() as int)
}
impl View {
//@fn src/view.rs View::apply_default_bindings_state
//@ret r
//@rewrite self.model.bindings.values() => self.model.bindings.vx_values().iter()
    requires countable(old(self).model.bindings.map()),
    ensures r is Ok ==> exists|w: Settled| #[trigger] settled(w, *old(self), *final(self)),
//@start
    let ghost m = self.model.bindings.map(); let ghost v0 = *self; let ghost mut __vx_list = Seq::<Vec<Binding>>::empty(); let ghost mut views = Seq::<View>::empty();
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), *self == v0, m == v0.model.bindings.map(), countable(m),
        forall|i: int| 0 <= i < __vx_c0@.len() ==> listed(m, #[trigger] __vx_c0@[i]),
        forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> __vx_c0@.contains(m[k]),
        all_from(m, reactions@), all_covered(reactions@, __vx_c0@, __vx_i0 as int),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    assert(listed(m, __vx_c0@[__vx_i0 as int]));
    let ghost key = choose|k: Seq<char>| #[trigger] m.contains_key(k) && m[k] == __vx_c0@[__vx_i0 as int];
    let ghost lists = __vx_c0@; let ghost done = __vx_i0 as int;
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), m.contains_key(key), m[key]@ == __vx_c1@, countable(m),
        all_from(m, reactions@), all_covered(reactions@, lists, done), some_covered(reactions@, __vx_c1@, __vx_i1 as int),
    decreases __vx_c1@.len() - __vx_i1
//@loop 1 start
    let ghost rs0 = reactions@; let ghost b = __vx_c1@[__vx_i1 as int];
    proof { assert(m[key]@[__vx_i1 as int] == b); assert(bounded(b.params)); assert(registered(m, b)); }
//@loop 1 end
    proof {
        if let Some(x) = by_default(b.params) {
            assert(reactions@ == rs0.push(x));
            covered_more(rs0, x);
            assert(origin(m, x));
        }
        assert(covered(reactions@, b));
    }
//@loop 0 after
    proof { __vx_list = __vx_c0@; }
//@loop 2 before
    proof {
        assert forall|k: Seq<char>, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() implies covered(reactions@, #[trigger] m[k]@[i]) by {
            let j = choose|j: int| 0 <= j < __vx_list.len() && __vx_list[j] == m[k];
            assert(covered(reactions@, __vx_list[j]@[i]));
        }
        assert(defaults(m, reactions@));
    }
//@loop 2
    invariant
        __vx_i2 <= __vx_c2@.len(), views.len() == __vx_i2, views.push(*self)[0] == v0, defaults(m, __vx_c2@),
        all_carried(views.push(*self), __vx_c2@, __vx_i2 as int),
    decreases __vx_c2@.len() - __vx_i2
//@loop 2 start
    proof { views = views.push(*self); }
//@loop 2 after
    proof { assert(settled(Settled { reactions: __vx_c2@, views: views.push(*self) }, v0, *self)); }
//@end
}
impl ViewModel {
    #[verifier::external_body]
    pub fn bind(&mut self, value: &Value) -> (r: Vec<Reaction>) ensures bound(*old(self), *value, *final(self), r@) { unimplemented!() }
}
impl View {
    #[verifier::external_body]
    pub fn update_tree(&mut self, reaction: Reaction) -> (r: Result<(), ViewError>) ensures same_ends(*old(self), *final(self)), r is Ok ==> carried(*old(self), reaction, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_styles(&mut self, node: NodeId, input: &Input, sizes: Sizes, variables: Variables) -> (r: Result<(), ViewError>)
        ensures same_ends(*old(self), *final(self)), r is Ok ==> dressed(*old(self), node, *input, sizes, variables, *final(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_final_positions_and_clipping(&mut self, node: NodeId, location: Point<F>, opacity: F, clipping: Option<Layout>) -> (r: Result<(), ViewError>)
        ensures same_ends(*old(self), *final(self)), r is Ok ==> placed(*old(self), node, location, opacity, clipping, *final(self))
    { unimplemented!() }
//@for X in data looks places events
//@fn src/view.rs View::update
//@rename update_${X}
//@ret r
//@rewrite self.metrics.updates.inc(); => ;
//@rewrite Point::ZERO => vx_origin()
//@rewrite root_layout.size.width != length(viewport_width) && root_layout.size.height != length(viewport_height) => vx_resized(&root_layout, viewport_width, viewport_height)
//@rewrite self.tree.compute_layout_with_measure(self.body, Size::MAX_CONTENT, |size, space, _, view, _| measure_text(self.fonts.as_ref(), size, space, view),) => vx_layout(&mut self.tree, self.body)
    ensures
        r matches Ok(o) ==> exists|w: Passes| #[trigger] whole(w) && pass_${X}(w, *old(self), input, value, *final(self), o),
//@start
    broadcast use {f_of_view, f_ext};
    let ghost v0 = *self; let ghost (mut model, mut views, mut rs) = (self.model, Seq::<View>::empty(), Seq::<Reaction>::empty());
//@loop 0 before
    proof { model = self.model; }
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), views.len() == __vx_i0, views.push(*self)[0] == (View { model, ..v0 }), same_ends(v0, *self),
        all_carried(views.push(*self), __vx_c0@, __vx_i0 as int),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    proof { views = views.push(*self); }
//@loop 0 after
    proof { rs = __vx_c0@; views = views.push(*self); }
//@before call apply_styles 0
    let ghost grown = *self;
//@after call apply_styles 0
    let ghost dressed_ = *self;
//@before call compute_final_positions_and_clipping 0
    let ghost laid_ = *self;
//@before call handle_output 0
    let ghost w = Passes { model, reactions: rs, views, grown, dressed: dressed_, laid: laid_, placed: *self };
    assert(whole(w));
//@end
//@endfor
}
pub open spec fn whole(w: Passes) -> bool { w.views.len() == w.reactions.len() + 1 }
proof fn still(events: Seq<InputEvent>, mouse: [F; 2])
    ensures !moves(events) ==> pointed(events, mouse) == mouse
    decreases events.len()
{
    if events.len() > 0 { still(events.drop_last(), mouse); }
}
fn main() {}
}
