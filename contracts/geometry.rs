use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C19 (and C05's box test): where elements are on the screen
//@reals
//@include prelude.inc
//@include reals.inc
//@type TaffyTree<Element> => Tree
pub enum ViewError { Other }
// taffy's geometry types
#[derive(Clone, Copy)]
pub struct Point<T> { pub x: T, pub y: T }
#[derive(Clone, Copy)]
pub struct Size<T> { pub width: T, pub height: T }
#[verifier::external_body]
pub struct Rest { x: u8 }
impl Copy for Rest {}
impl Clone for Rest { #[verifier::external_body] fn clone(&self) -> (r: Rest) ensures r == *self { *self } }
#[derive(Copy)]
pub struct Layout { pub location: Point<F>, pub size: Size<F>, pub content_size: Size<F>, pub rest: Rest }
impl Clone for Layout { #[verifier::external_body] fn clone(&self) -> (r: Layout) ensures r == *self { *self } }
pub open spec fn padd(a: Point<F>, b: Point<F>) -> Point<F> { Point { x: f_of(a.x@ + b.x@), y: f_of(a.y@ + b.y@) } }
impl Point<F> {
    #[verifier::external_body]
    pub fn add(self, o: Point<F>) -> (r: Point<F>) ensures r == padd(self, o) { unimplemented!() }
}
//@item src/styles/scrolling.rs Scrolling derive(Clone,Copy)
//@item src/element.rs PointerEvents derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs Element keep node,position,size,content_size,self_opacity,opacity,scrolling,clipping
//@include tree.inc
pub uninterp spec fn layouts(rest: TreeRest) -> Map<NodeId, Layout>;
impl Tree {
    #[verifier::external_body]
    pub fn get_final_layout(&self, node: NodeId) -> (r: &Layout) ensures *r == layouts(self.rest())[node] { unimplemented!() }
}
//@item src/view.rs View keep tree,root,body

// ---- C18 (on real numbers): what `ensure` does to the offset ----
pub open spec fn range(content: F, size: F) -> real { rmax(content@ - size@, 0.0real) }
pub open spec fn overflows(l: Layout) -> bool { l.content_size.width@ > l.size.width@ || l.content_size.height@ > l.size.height@ }
pub open spec fn kept(s: Scrolling) -> bool { 0.0real <= s.x@ <= s.scroll_x@ && 0.0real <= s.y@ <= s.scroll_y@ }
pub open spec fn offset_of(s: Option<Scrolling>) -> (real, real) { match s { Some(s) => (s.x@, s.y@), None => (0.0real, 0.0real) } }
pub open spec fn scrolled(l: Layout, before: Option<Scrolling>, after: Option<Scrolling>) -> bool {
    match after {
        None => !overflows(l),
        Some(s) => {
            &&& overflows(l)
            &&& s.scroll_x@ == range(l.content_size.width, l.size.width) && s.scroll_y@ == range(l.content_size.height, l.size.height)
            &&& s.x@ == rmin(offset_of(before).0, s.scroll_x@) && s.y@ == rmin(offset_of(before).1, s.scroll_y@)
            &&& (before matches Some(b) ==> kept(b)) ==> kept(s)
        }
    }
}
impl Scrolling {
//@fn src/styles/scrolling.rs Scrolling::ensure
//@ret r
//@rewrite .unwrap_or_default() => .unwrap_or([0.0, 0.0])
    ensures scrolled(*layout, *current, r),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/styles/scrolling.rs Scrolling::offset
    requires kept(*old(self)),
    ensures
        kept(*final(self)), final(self).scroll_x == old(self).scroll_x, final(self).scroll_y == old(self).scroll_y,
        wheel[0]@ == 0.0real ==> final(self).x == old(self).x,
        wheel[1]@ == 0.0real ==> final(self).y == old(self).y,
//@start
    broadcast use {f_of_view, f_ext};
//@end
}

// ---- C19 ----
//@include below.inc
/// elements from n down are placed relative to the given origin, opacity and clipping box
pub open spec fn placed(e0: Map<NodeId, Element>, e1: Map<NodeId, Element>, t: Tree, n: NodeId, origin: Point<F>, opacity: F, clip: Option<Layout>) -> bool
    decreases height(t.kids(), n), 1nat
{
    let l = layouts(t.rest())[n];
    let here = padd(l.location, origin);
    let e = e1[n];
    let inner = content_origin(here, e.scrolling);
    &&& e.position[0] == here.x && e.position[1] == here.y
    &&& e.size[0] == l.size.width && e.size[1] == l.size.height
    &&& e.opacity@ == opacity@ * e.self_opacity@
    &&& e.clipping == clip
    &&& scrolled(l, e0[n].scrolling, e.scrolling)
    &&& placed_some(e0, e1, t, n, t.kids()[n].len() as nat, inner, e.opacity, if e.scrolling.is_some() { Some(Layout { location: here, ..l }) } else { clip })
}
pub open spec fn placed_some(e0: Map<NodeId, Element>, e1: Map<NodeId, Element>, t: Tree, n: NodeId, k: nat, origin: Point<F>, opacity: F, clip: Option<Layout>) -> bool
    decreases height(t.kids(), n), 0nat, k via placed_decreases
{
    if k == 0 || !t.kids().contains_key(n) || k > t.kids()[n].len() { true } else {
        placed_some(e0, e1, t, n, (k - 1) as nat, origin, opacity, clip) && placed(e0, e1, t, t.kids()[n][k - 1], origin, opacity, clip)
    }
}
#[via_fn]
proof fn placed_decreases(e0: Map<NodeId, Element>, e1: Map<NodeId, Element>, t: Tree, n: NodeId, k: nat, origin: Point<F>, opacity: F, clip: Option<Layout>) {
    if k == 0 || !t.kids().contains_key(n) || k > t.kids()[n].len() {} else { axiom_height(t.kids(), n, k - 1); }
}
/// the origin of the content of a scrolling element is moved by its scroll offset
pub open spec fn content_origin(here: Point<F>, s: Option<Scrolling>) -> Point<F> {
    match s { Some(s) => Point { x: f_of(here.x@ - s.x@), y: f_of(here.y@ - s.y@) }, None => here }
}
/// only what is below n matters for `placed`, and only the shape of the tree
proof fn placed_frame(e0: Map<NodeId, Element>, e1: Map<NodeId, Element>, t: Tree, f0: Map<NodeId, Element>, f1: Map<NodeId, Element>, u: Tree, n: NodeId, origin: Point<F>, opacity: F, clip: Option<Layout>)
    requires
        placed(e0, e1, t, n, origin, opacity, clip), t.kids() == u.kids(), t.rest() == u.rest(),
        forall|m: NodeId| below(t.kids(), n, m) ==> #[trigger] e1[m] == #[trigger] f1[m] && e0[m] == f0[m],
    ensures placed(f0, f1, u, n, origin, opacity, clip),
    decreases height(t.kids(), n), 1nat
{
    assert(below(t.kids(), n, n));
    assert(e1[n] == f1[n]);
    let l = layouts(t.rest())[n];
    let here = padd(l.location, origin);
    let e = e1[n];
    placed_some_frame(e0, e1, t, f0, f1, u, n, t.kids()[n].len() as nat, content_origin(here, e.scrolling), e.opacity, if e.scrolling.is_some() { Some(Layout { location: here, ..l }) } else { clip });
}
proof fn placed_some_frame(e0: Map<NodeId, Element>, e1: Map<NodeId, Element>, t: Tree, f0: Map<NodeId, Element>, f1: Map<NodeId, Element>, u: Tree, n: NodeId, k: nat, origin: Point<F>, opacity: F, clip: Option<Layout>)
    requires
        placed_some(e0, e1, t, n, k, origin, opacity, clip), t.kids() == u.kids(), t.rest() == u.rest(),
        forall|m: NodeId| below_some(t.kids(), n, k, m) ==> #[trigger] e1[m] == #[trigger] f1[m] && e0[m] == f0[m],
    ensures placed_some(f0, f1, u, n, k, origin, opacity, clip),
    decreases height(t.kids(), n), 0nat, k
{
    if k == 0 || !t.kids().contains_key(n) || k > t.kids()[n].len() {} else {
        axiom_height(t.kids(), n, k - 1);
        placed_some_frame(e0, e1, t, f0, f1, u, n, (k - 1) as nat, origin, opacity, clip);
        placed_frame(e0, e1, t, f0, f1, u, t.kids()[n][k - 1], origin, opacity, clip);
    }
}
impl View {
//@fn src/view.rs View::compute_final_positions_and_clipping
//@ret r
//@rewrite self.metrics.elements_shown.inc(); => ;
    ensures
        r is Ok ==> final(self).tree.kids() == old(self).tree.kids() && final(self).tree.rest() == old(self).tree.rest(),
        r is Ok ==> placed(old(self).tree.elems(), final(self).tree.elems(), final(self).tree, node, location, opacity, clipping),
        r is Ok ==> forall|m: NodeId| !below(old(self).tree.kids(), node, m) ==> #[trigger] final(self).tree.elems()[m] == old(self).tree.elems()[m],
    decreases height(old(self).tree.kids(), node)
//@start
    broadcast use {f_of_view, f_ext};
    let ghost t0 = self.tree;
    let ghost e0 = self.tree.elems();
    let ghost kids = self.tree.kids();
    let ghost origin0 = location;
    let ghost opacity0 = opacity;
    let ghost clip0 = clipping;
//@loop 0 before
    let ghost e_self = self.tree.elems();
    proof { assert(e_self[node].clipping == clip0); }
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == kids[node], kids.contains_key(node),
        t0 == old(self).tree, kids == t0.kids(), e0 == t0.elems(),
        self.tree.kids() == kids, self.tree.rest() == t0.rest(),
        self.tree.elems()[node] == e_self[node],
        placed_some(e0, self.tree.elems(), self.tree, node, __vx_i0 as nat, location, opacity, clipping),
        forall|m: NodeId| m != node && !below_some(kids, node, __vx_i0 as nat, m) ==> #[trigger] self.tree.elems()[m] == e0[m],
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    let ghost before = self.tree;
    let ghost k = __vx_i0;
    proof { axiom_height(kids, node, k as int); }
//@loop 0 end
    proof {
        let e1 = self.tree.elems();
        assert forall|m: NodeId| below_some(kids, node, k as nat, m) implies #[trigger] before.elems()[m] == #[trigger] e1[m] && e0[m] == e0[m] by {
            if below(kids, child, m) { axiom_parent(kids, node, k as int, m); }
        }
        placed_some_frame(e0, before.elems(), before, e0, e1, self.tree, node, k as nat, location, opacity, clipping);
        assert forall|m: NodeId| below(self.tree.kids(), child, m) implies #[trigger] before.elems()[m] == e0[m] by {
            axiom_parent(kids, node, k as int, m);
            assert(before.elems()[m] == e0[m]);
        }
        placed_frame(before.elems(), e1, self.tree, e0, e1, self.tree, child, location, opacity, clipping);
        assert(!below(kids, child, node)) by { if below(kids, child, node) { axiom_parent(kids, node, k as int, node); } }
    }
//@end
}
// ---- C05: the box test, left and top edge inclusive, right and bottom exclusive ----
//@fn src/view_model.rs hovers
//@ret r
    ensures
        r == (element.position[0]@ <= point[0]@ < element.position[0]@ + element.size[0]@
           && element.position[1]@ <= point[1]@ < element.position[1]@ + element.size[1]@),
//@start
    broadcast use {f_of_view, f_ext};
//@end
fn main() {}
}
