use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C13, C20 (and C12's sizes): how an update passes down the tree: each shown element is dressed after its parent, with
// the parent's variables, font size and colour, and its text takes its look
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@type TaffyTree<Element> => Tree
//@type HashMap<String, Shorthand> => Variables
pub type Rgba = [u8; 4];
// ---- what is proved elsewhere ----
/// what selectors look at besides the shape of the tree: attributes, states, tag (units matching, spans, events)
#[verifier::external_body]
pub struct Who { x: u64 }
/// everything else of an element (its look, animations and transitions)
#[verifier::external_body]
pub struct Look { x: u64 }
#[derive(Copy)]
pub struct FontFace { pub size: F, pub rest: u64 }
impl Clone for FontFace { #[verifier::external_body] fn clone(&self) -> (r: FontFace) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct TextContent { x: u64 }
#[verifier::external_body]
pub struct Input { x: u64 }
#[verifier::external_body]
pub struct Css { x: u64 }
#[verifier::external_body]
pub struct Shorthand { x: u64 }
#[verifier::external_body]
pub struct Variables { x: u64 }
impl Variables {
    pub uninterp spec fn map(&self) -> Map<Text, Shorthand>;
    #[verifier::external_body]
    pub fn default() -> (r: Variables) ensures r.map() == Map::<Text, Shorthand>::empty() { unimplemented!() }
}
impl Clone for Variables { #[verifier::external_body] fn clone(&self) -> (r: Variables) ensures r.map() == self.map() { unimplemented!() } }
pub mod taffy { use super::*; #[verifier::external_body] pub struct Style { x: u64 } impl Clone for Style { #[verifier::external_body] fn clone(&self) -> (r: Style) ensures r == *self { unimplemented!() } } }
pub enum ViewError { ParentNotFound(NodeId), Other }
pub struct Other { pub who: Who, pub look: Look }
//@item src/element.rs Element keep tag,text,font,color add other:Other
impl Clone for Element { #[verifier::external_body] fn clone(&self) -> (r: Element) ensures r == *self { unimplemented!() } }
//@include tree.inc
pub uninterp spec fn styles(rest: TreeRest) -> Map<NodeId, taffy::Style>;
impl Tree {
    #[verifier::external_body]
    pub fn style(&self, node: NodeId) -> (r: Result<&taffy::Style, ViewError>) ensures match r { Ok(s) => styles(self.rest()).contains_key(node) && *s == styles(self.rest())[node], Err(_) => !styles(self.rest()).contains_key(node) } { unimplemented!() }
    #[verifier::external_body]
    pub fn set_style(&mut self, node: NodeId, style: taffy::Style) -> (r: Result<(), ViewError>)
        ensures
            r is Ok ==> final(self).elems() == old(self).elems() && final(self).kids() == old(self).kids() && final(self).parents() == old(self).parents()
                && styles(final(self).rest()) == styles(old(self).rest()).insert(node, style),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_differ(a: &taffy::Style, b: &taffy::Style) -> (r: bool) ensures r == (*a != *b) { unimplemented!() }
// counters, no part of any property
#[verifier::external_body]
pub struct Counter { x: u64 }
impl Counter {
    #[verifier::external_body]
    pub fn inc(&mut self) { }
    #[verifier::external_body]
    pub fn add(&mut self, n: usize) { }
}
#[verifier::external_body]
pub struct Gauge { x: u64 }
impl Gauge {
    #[verifier::external_body]
    pub fn set(&mut self, n: usize) { }
}
//@item src/metrics.rs ViewMetrics
//@item src/metrics.rs CascadeMetrics
//@item src/styles/stats.rs CascadeStats derive(Clone,Copy)
//@item src/styles/mod.rs Sizes derive(Clone,Copy)
impl Css {
    #[verifier::external_body]
    pub fn vx_count(&self) -> usize { unimplemented!() }
}
//@item src/view.rs View keep tree,css,metrics
/// what the matching of selectors depends on
pub ghost struct Scene { pub kids: Map<NodeId, Seq<NodeId>>, pub parents: Map<NodeId, NodeId>, pub who: Map<NodeId, Who>, pub tags: Map<NodeId, Text> }
pub open spec fn scene(t: Tree) -> Scene {
    Scene { kids: t.kids(), parents: t.parents(), who: t.elems().map_values(|e: Element| e.other.who), tags: t.elems().map_values(|e: Element| e.tag) }
}
/// the element after an update of it alone (unit sheet): `passage`
pub uninterp spec fn dressed_as(css: Css, sizes: Sizes, vars: Map<Text, Shorthand>, input: Input, n: NodeId, s: Scene, parent: Element, l0: taffy::Style, e0: Element, l1: taffy::Style, e1: Element) -> bool;
/// the variables in scope for its children (unit cascade): `vars_after`
pub uninterp spec fn declared(css: Css, vars: Map<Text, Shorthand>, n: NodeId, s: Scene, e0: Element) -> Map<Text, Shorthand>;
/// unit looks
pub uninterp spec fn inheriting(parent: Element, e0: Element) -> Element;
pub uninterp spec fn plain_layout() -> taffy::Style;
#[verifier::external_body]
pub fn default_layout() -> (r: taffy::Style) ensures r == plain_layout() { unimplemented!() }
#[verifier::external_body]
pub fn inherit(parent: &Element, element: &mut Element)
    ensures *final(element) == inheriting(*parent, *old(element)), same(*old(element), *final(element))
{ unimplemented!() }
/// what dressing leaves alone
pub open spec fn same(a: Element, b: Element) -> bool { a.tag == b.tag && a.text == b.text && a.other.who == b.other.who }
pub struct Cascade<'c> { pub css: &'c Css, pub variables: Variables, pub sizes: Sizes, pub stats: CascadeStats }
impl<'c> Cascade<'c> {
    #[verifier::external_body]
    pub fn new(css: &'c Css, sizes: Sizes, variables: Variables) -> (r: Self) ensures r.css == css, r.sizes == sizes, r.variables.map() == variables.map() { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_styles(&mut self, input: &Input, node: NodeId, tree: &Tree, parent: &Element, layout: &mut taffy::Style, element: &mut Element, matcher: &View)
        ensures
            final(self).css == old(self).css, final(self).sizes == old(self).sizes,
            final(self).variables.map() == declared(*old(self).css, old(self).variables.map(), node, scene(*tree), *old(element)),
            dressed_as(*old(self).css, old(self).sizes, old(self).variables.map(), *input, node, scene(*tree), *parent, *old(layout), *old(element), *final(layout), *final(element)),
            same(*old(element), *final(element)),
    { unimplemented!() }
//@fn src/styles/mod.rs Cascade::take_variables
//@ret r
    ensures r.map() == self.variables.map(),
//@end
}
/// the element is written through a pointer into the tree: what it holds is what the tree holds
#[verifier::external_body]
pub fn vx_store(tree: &mut Tree, node: NodeId, e: &Element)
    requires old(tree).elems().contains_key(node),
    ensures final(tree).elems() == old(tree).elems().insert(node, *e), final(tree).kids() == old(tree).kids(), final(tree).parents() == old(tree).parents(), final(tree).rest() == old(tree).rest(),
{ unimplemented!() }
// ---- the walk ----
//@include below.inc
/// elements without content
pub open spec fn childless(tag: Text) -> bool {
    tag@ == "img"@ || tag@ == "input"@ || tag@ == "area"@ || tag@ == "base"@ || tag@ == "br"@ || tag@ == "col"@ || tag@ == "command"@ || tag@ == "embed"@ || tag@ == "hr"@
    || tag@ == "keygen"@ || tag@ == "link"@ || tag@ == "meta"@ || tag@ == "param"@ || tag@ == "source"@ || tag@ == "track"@ || tag@ == "wbr"@
}
pub ghost struct Walk { pub css: Css, pub input: Input, pub s: Scene, pub e0: Map<NodeId, Element>, pub e1: Map<NodeId, Element>, pub styles: Map<NodeId, taffy::Style> }
pub open spec fn inner(w: Walk, n: NodeId, sizes: Sizes) -> Sizes { Sizes { parent_font_size: w.e1[n].font.size, parent_color: w.e1[n].color, ..sizes } }
/// n and all that is shown below it are dressed with the styles that apply now
pub open spec fn dressed(w: Walk, n: NodeId, sizes: Sizes, vars: Map<Text, Shorthand>) -> bool
    decreases height(w.s.kids, n), 1nat
{
    let parent = w.e1[w.s.parents[n]];
    if w.e0[n].text is Some { w.e1[n] == inheriting(parent, w.e0[n]) } else {
        &&& dressed_as(w.css, sizes, vars, w.input, n, w.s, parent, plain_layout(), w.e0[n], w.styles[n], w.e1[n])
        &&& !childless(w.e0[n].tag) ==> dressed_some(w, n, w.s.kids[n].len() as nat, inner(w, n, sizes), declared(w.css, vars, n, w.s, w.e0[n]))
    }
}
pub open spec fn dressed_some(w: Walk, n: NodeId, k: nat, sizes: Sizes, vars: Map<Text, Shorthand>) -> bool
    decreases height(w.s.kids, n), 0nat, k via dressed_decreases
{
    if k == 0 || !w.s.kids.contains_key(n) || k > w.s.kids[n].len() { true } else { dressed_some(w, n, (k - 1) as nat, sizes, vars) && dressed(w, w.s.kids[n][k - 1], sizes, vars) }
}
#[via_fn]
proof fn dressed_decreases(w: Walk, n: NodeId, k: nat, sizes: Sizes, vars: Map<Text, Shorthand>) {
    if k == 0 || !w.s.kids.contains_key(n) || k > w.s.kids[n].len() {} else { axiom_height(w.s.kids, n, k - 1); }
}
// the tree is one: a child's parent is the node it is a child of (assumed of the dependency)
#[verifier::external_body]
pub proof fn axiom_child(t: Tree, n: NodeId, i: int)
    requires t.kids().contains_key(n), 0 <= i < t.kids()[n].len(),
    ensures t.parents().contains_key(t.kids()[n][i]), t.parents()[t.kids()[n][i]] == n,
{}
#[verifier::external_body]
pub proof fn axiom_above(t: Tree, n: NodeId)
    requires t.parents().contains_key(n), t.elems().contains_key(t.parents()[n]),
    ensures t.kids().contains_key(t.parents()[n]), t.kids()[t.parents()[n]].contains(n),
{}
proof fn parent_not_below(t: Tree, n: NodeId)
    requires t.parents().contains_key(n), t.elems().contains_key(t.parents()[n]),
    ensures !below(t.kids(), n, t.parents()[n]),
{
    axiom_above(t, n);
    let p = t.parents()[n];
    let i = choose|i: int| 0 <= i < t.kids()[p].len() && t.kids()[p][i] == n;
    if below(t.kids(), n, p) { axiom_parent(t.kids(), p, i, p); }
}
proof fn stored(a: Tree, b: Tree, n: NodeId, e: Element)
    requires a.elems().contains_key(n), b.elems() == a.elems().insert(n, e), b.kids() == a.kids(), b.parents() == a.parents(), same(a.elems()[n], e),
    ensures scene(b) == scene(a),
{
    assert(scene(b).who =~= scene(a).who);
    assert(scene(b).tags =~= scene(a).tags);
}
/// only what is below n, and its parent, matters for `dressed`
proof fn dressed_frame(w: Walk, v: Walk, t: Tree, n: NodeId, sizes: Sizes, vars: Map<Text, Shorthand>)
    requires
        dressed(w, n, sizes, vars), w.s == v.s, w.css == v.css, w.input == v.input, t.kids() == w.s.kids, t.parents() == w.s.parents,
        w.e1[w.s.parents[n]] == v.e1[w.s.parents[n]],
        forall|m: NodeId| below(w.s.kids, n, m) ==> #[trigger] w.e1[m] == #[trigger] v.e1[m] && w.e0[m] == v.e0[m] && w.styles[m] == v.styles[m],
    ensures dressed(v, n, sizes, vars),
    decreases height(w.s.kids, n), 1nat
{
    assert(below(w.s.kids, n, n));
    assert(w.e1[n] == v.e1[n]);
    if w.e0[n].text is Some || childless(w.e0[n].tag) {} else {
        dressed_some_frame(w, v, t, n, w.s.kids[n].len() as nat, inner(w, n, sizes), declared(w.css, vars, n, w.s, w.e0[n]));
    }
}
proof fn dressed_some_frame(w: Walk, v: Walk, t: Tree, n: NodeId, k: nat, sizes: Sizes, vars: Map<Text, Shorthand>)
    requires
        dressed_some(w, n, k, sizes, vars), w.s == v.s, w.css == v.css, w.input == v.input, t.kids() == w.s.kids, t.parents() == w.s.parents,
        w.e1[n] == v.e1[n],
        forall|m: NodeId| below_some(w.s.kids, n, k, m) ==> #[trigger] w.e1[m] == #[trigger] v.e1[m] && w.e0[m] == v.e0[m] && w.styles[m] == v.styles[m],
    ensures dressed_some(v, n, k, sizes, vars),
    decreases height(w.s.kids, n), 0nat, k
{
    if k == 0 || !w.s.kids.contains_key(n) || k > w.s.kids[n].len() {} else {
        axiom_height(w.s.kids, n, k - 1);
        axiom_child(t, n, k - 1);
        dressed_some_frame(w, v, t, n, (k - 1) as nat, sizes, vars);
        dressed_frame(w, v, t, w.s.kids[n][k - 1], sizes, vars);
    }
}
pub open spec fn walk(v: View, i: Input, e0: Map<NodeId, Element>, s: Scene) -> Walk {
    Walk { css: v.css, input: i, s, e0, e1: v.tree.elems(), styles: styles(v.tree.rest()) }
}
/// nothing but looks and layout styles of n and what is below it has changed
pub open spec fn elsewhere(a: Tree, b: Tree, n: NodeId) -> bool {
    &&& forall|m: NodeId| !below(a.kids(), n, m) ==> #[trigger] b.elems()[m] == a.elems()[m] && styles(b.rest())[m] == styles(a.rest())[m]
}
impl View {
//@fn src/view.rs View::apply_styles
//@ret r
//@rewrite unsafe { let ptr = self.tree.parent(node).and_then(|parent| self.tree.get_node_context(parent)).ok_or(ViewError::ParentNotFound(node))? as *const Element; &*ptr } => { let ptr = self.tree.parent(node).and_then(|parent| self.tree.get_node_context(parent)).ok_or(ViewError::ParentNotFound(node))?; ptr.clone() }
//@rewrite let element = unsafe { let ptr = self.tree.get_element_mut(node)? as *mut Element; &mut *ptr }; => let mut element = self.tree.get_element(node)?.clone();
//@rewrite inherit(parent, element); => inherit(&parent, &mut element); vx_store(&mut self.tree, node, &element);
//@rewrite cascade.apply_styles(input, node, &self.tree, parent, &mut layout, element, self); => cascade.apply_styles(input, node, &self.tree, &parent, &mut layout, &mut element, self); vx_store(&mut self.tree, node, &element);
//@rewrite self.css.styles.len() => self.css.vx_count()
//@rewrite self.tree.style(node)? != &layout => vx_differ(self.tree.style(node)?, &layout)
    ensures
        r is Ok ==> scene(final(self).tree) == scene(old(self).tree) && final(self).css == old(self).css,
        r is Ok ==> elsewhere(old(self).tree, final(self).tree, node),
        r is Ok ==> dressed(walk(*final(self), *input, old(self).tree.elems(), scene(old(self).tree)), node, sizes, variables.map()),
    decreases height(old(self).tree.kids(), node)
//@start
    let ghost t0 = self.tree; let ghost e0 = self.tree.elems(); let ghost kids = self.tree.kids(); let ghost s0 = scene(self.tree);
    let ghost sizes0 = sizes; let ghost vars0 = variables.map();
    let ghost mut p0 = node;
//@before call get_element 0
    proof { parent_not_below(t0, node); p0 = t0.parents()[node]; assert(parent == e0[p0]); assert(below(kids, node, node)); }
//@after call vx_store 0
    proof { stored(t0, self.tree, node, element); }
//@after call vx_store 1
    proof { stored(t0, self.tree, node, element); }
//@loop 0 before
    let ghost w0 = walk(*self, *input, e0, s0);
    let ghost sizes1 = inner(w0, node, sizes0); let ghost vars1 = variables.map();
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == kids[node], kids.contains_key(node),
        t0 == old(self).tree, kids == t0.kids(), e0 == t0.elems(), s0 == scene(t0),
        self.css == old(self).css, scene(self.tree) == s0,
        self.tree.elems()[node] == w0.e1[node], element == w0.e1[node], styles(self.tree.rest())[node] == w0.styles[node],
        sizes1 == inner(w0, node, sizes0), sizes.root_font_size == sizes1.root_font_size, sizes.viewport_width == sizes1.viewport_width, sizes.viewport_height == sizes1.viewport_height,
        variables.map() == vars1, p0 != node, p0 == t0.parents()[node], !below(kids, node, p0), self.tree.elems()[p0] == e0[p0],
        dressed_some(walk(*self, *input, e0, s0), node, __vx_i0 as nat, sizes1, vars1),
        forall|m: NodeId| m != node && !below_some(kids, node, __vx_i0 as nat, m) ==> #[trigger] self.tree.elems()[m] == e0[m] && styles(self.tree.rest())[m] == styles(t0.rest())[m],
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    let ghost before = *self;
    let ghost k = __vx_i0;
    proof { axiom_height(kids, node, k as int); axiom_child(t0, node, k as int); }
//@loop 0 end
    proof {
        let w = walk(before, *input, e0, s0); let v = walk(*self, *input, e0, s0);
        let x = walk(*self, *input, before.tree.elems(), s0);
        assert(before.tree.kids() == kids);
        assert(elsewhere(before.tree, self.tree, child));
        assert forall|m: NodeId| !below(kids, child, m) implies #[trigger] self.tree.elems()[m] == before.tree.elems()[m] && styles(self.tree.rest())[m] == styles(before.tree.rest())[m] by {}
        assert forall|m: NodeId| below_some(kids, node, k as nat, m) implies #[trigger] w.e1[m] == #[trigger] v.e1[m] && w.e0[m] == v.e0[m] && w.styles[m] == v.styles[m] by {
            if below(kids, child, m) { axiom_parent(kids, node, k as int, m); }
            assert(self.tree.elems()[m] == before.tree.elems()[m]);
            assert(styles(self.tree.rest())[m] == styles(before.tree.rest())[m]);
        }
        assert(!below(kids, child, node)) by { if below(kids, child, node) { axiom_parent(kids, node, k as int, node); } }
        dressed_some_frame(w, v, t0, node, k as nat, sizes1, vars1);
        assert forall|m: NodeId| below(kids, child, m) implies #[trigger] before.tree.elems()[m] == e0[m] by {
            axiom_parent(kids, node, k as int, m);
            assert(before.tree.elems()[m] == e0[m]);
        }
        dressed_frame(x, v, t0, child, sizes1, vars1);
        assert forall|m: NodeId| m != node && !below_some(kids, node, (k + 1) as nat, m) implies #[trigger] self.tree.elems()[m] == e0[m] && styles(self.tree.rest())[m] == styles(t0.rest())[m] by {
            assert(!below(kids, child, m) && !below_some(kids, node, k as nat, m));
            assert(self.tree.elems()[m] == before.tree.elems()[m]);
            assert(before.tree.elems()[m] == e0[m]);
        }
        assert(!below(kids, child, p0)) by { if below(kids, child, p0) { assert(below_some(kids, node, (k + 1) as nat, p0)); below_some_mono(kids, node, (k + 1) as nat, kids[node].len() as nat, p0); } }
    }
//@end
}
fn main() {}
}
