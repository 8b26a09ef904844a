use vstd::prelude::*;
verus! {
//@include prelude.inc
//@type TaffyTree<Element> => Tree
pub enum ViewError { Other }
// names of the delivered events: the string literals of the source are written as these constants
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Ev { Enter, Leave, Move, DragEnter, DragLeave, DragOver, Down, Up, Click, Menu, DragStart, DragEnd, Drop, Focus, Blur, KeyDown, KeyUp, Input }
//@item src/element.rs PointerEvents derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/element.rs ElementState derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/input.rs MouseButtons derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/input.rs Keys derive(Clone,Copy,PartialEq,Eq,Structural)
//@item src/input.rs InputEvent derive(Clone,Copy)
//@item src/view_model.rs DragContext
//@type HashMap<String, Handler> => Listeners
//@type HashMap<String, String> => Attrs
//@item src/element.rs Element keep node,attrs,position,size,listeners,pointer_events,visible,state
//@include tree.inc
//@item src/view_model.rs ViewModel keep mouse,elements_under_mouse,elements_in_action,drag,focus add log:Ghost<Seq<(NodeId,Ev)>>

#[verifier::external_body]
pub struct Listeners { x: u64 }
impl Listeners {
    pub uninterp spec fn has(&self, e: Ev) -> bool;
    #[verifier::external_body]
    pub fn contains_key(&self, e: Ev) -> (r: bool) ensures r == self.has(e) { unimplemented!() }
}
#[verifier::external_body]
pub struct Attrs { x: u64 }
pub uninterp spec fn is_draggable(a: Attrs) -> bool;
impl Element {
    #[verifier::external_body]
    pub fn draggable(&self) -> (r: bool) ensures r == is_draggable(self.attrs) { unimplemented!() }
}
// event payloads are data of the messages, their contents are not part of this unit
pub struct MouseEvent { x: u8 }
impl MouseEvent { #[verifier::external_body] pub fn new(position: [f32; 2], element: &Element) -> Self { unimplemented!() } }
pub struct KeyboardEvent { x: u8 }
impl KeyboardEvent { #[verifier::external_body] pub fn new(key: Keys, element: &Element) -> Self { unimplemented!() } }
pub struct TextEvent { x: u8 }
impl TextEvent { #[verifier::external_body] pub fn new(c: char, element: &Element) -> Self { unimplemented!() } }

// ---- vocabulary of the properties ----
pub type Log = Seq<(NodeId, Ev)>;
/// how often event e was delivered to n
pub open spec fn cnt(log: Log, n: NodeId, e: Ev) -> int
    decreases log.len()
{
    if log.len() == 0 { 0 } else { cnt(log.drop_last(), n, e) + if log.last() == (n, e) { 1int } else { 0 } }
}
/// deliveries of a and b to n strictly alternate, starting with a
pub open spec fn alternate(log: Log, n: NodeId, a: Ev, b: Ev) -> bool
    decreases log.len()
{
    0 <= cnt(log, n, a) - cnt(log, n, b) <= 1 && (log.len() == 0 || alternate(log.drop_last(), n, a, b))
}
pub open spec fn paired(log: Log) -> bool {
    forall|n: NodeId| #![trigger cnt(log, n, Ev::Enter)] #![trigger cnt(log, n, Ev::Focus)] #![trigger cnt(log, n, Ev::DragStart)]
        alternate(log, n, Ev::Enter, Ev::Leave) && alternate(log, n, Ev::Focus, Ev::Blur) && alternate(log, n, Ev::DragStart, Ev::DragEnd)
}
pub broadcast proof fn cnt_push(log: Log, x: (NodeId, Ev), n: NodeId, e: Ev)
    ensures #[trigger] cnt(log.push(x), n, e) == cnt(log, n, e) + if x == (n, e) { 1int } else { 0 },
{
    assert(log.push(x).drop_last() =~= log);
}
/// delivering one more event keeps the pairing if it opens what is closed or closes what is open
pub broadcast proof fn paired_push(log: Log, x: (NodeId, Ev))
    requires paired(log),
        x.1 == Ev::Enter ==> cnt(log, x.0, Ev::Enter) == cnt(log, x.0, Ev::Leave),
        x.1 == Ev::Leave ==> cnt(log, x.0, Ev::Enter) == cnt(log, x.0, Ev::Leave) + 1,
        x.1 == Ev::Focus ==> cnt(log, x.0, Ev::Focus) == cnt(log, x.0, Ev::Blur),
        x.1 == Ev::Blur ==> cnt(log, x.0, Ev::Focus) == cnt(log, x.0, Ev::Blur) + 1,
        x.1 == Ev::DragStart ==> cnt(log, x.0, Ev::DragStart) == cnt(log, x.0, Ev::DragEnd),
        x.1 == Ev::DragEnd ==> cnt(log, x.0, Ev::DragStart) == cnt(log, x.0, Ev::DragEnd) + 1,
    ensures #[trigger] paired(log.push(x)),
{
    assert(log.push(x).drop_last() =~= log);
    broadcast use cnt_push;
    assert forall|n: NodeId| alternate(log.push(x), n, Ev::Enter, Ev::Leave) && alternate(log.push(x), n, Ev::Focus, Ev::Blur) && alternate(log.push(x), n, Ev::DragStart, Ev::DragEnd) by {
        assert(cnt(log, n, Ev::Enter) == cnt(log, n, Ev::Enter));
        assert(alternate(log, n, Ev::Enter, Ev::Leave) && alternate(log, n, Ev::Focus, Ev::Blur) && alternate(log, n, Ev::DragStart, Ev::DragEnd));
    }
}
/// b was delivered right after a
pub open spec fn in_a_row(log: Log, a: (NodeId, Ev), b: (NodeId, Ev)) -> bool {
    exists|i: int| 0 <= i && i + 1 < log.len() && #[trigger] log[i] == a && log[i + 1] == b
}
pub broadcast proof fn in_a_row_push(log: Log, x: (NodeId, Ev), a: (NodeId, Ev), b: (NodeId, Ev))
    ensures (in_a_row(log, a, b) || (log.len() > 0 && log.last() == a && x == b)) ==> #[trigger] in_a_row(log.push(x), a, b),
{
    let p = log.push(x);
    if in_a_row(log, a, b) {
        let i = choose|i: int| 0 <= i && i + 1 < log.len() && #[trigger] log[i] == a && log[i + 1] == b;
        assert(p[i] == a && p[i + 1] == b);
    } else if log.len() > 0 && log.last() == a && x == b {
        assert(p[log.len() - 1] == a && p[log.len() - 1 + 1] == b);
    }
}
/// n is among the first i elements of s
pub open spec fn head(s: Seq<NodeId>, i: int, n: NodeId) -> bool { exists|j: int| 0 <= j < i && #[trigger] s[j] == n }
proof fn head_step(s: Seq<NodeId>, i: int)
    requires 0 <= i < s.len(),
    ensures forall|n: NodeId| #[trigger] head(s, i + 1, n) == (head(s, i, n) || s[i] == n),
{
    assert forall|n: NodeId| #[trigger] head(s, i + 1, n) == (head(s, i, n) || s[i] == n) by {
        if head(s, i, n) { let j = choose|j: int| 0 <= j < i && #[trigger] s[j] == n; assert(s[j] == n); }
        if s[i] == n { assert(head(s, i + 1, n)); }
    }
}
proof fn head_ends(s: Seq<NodeId>)
    ensures forall|n: NodeId| !(#[trigger] head(s, 0, n)), forall|n: NodeId| #[trigger] head(s, s.len() as int, n) == s.contains(n),
{
    assert forall|n: NodeId| #[trigger] head(s, s.len() as int, n) == s.contains(n) by {
        if s.contains(n) { let j = choose|j: int| 0 <= j < s.len() && s[j] == n; assert(s[j] == n); }
    }
}
/// n is among the last i elements of s
pub open spec fn tail(s: Seq<NodeId>, i: int, n: NodeId) -> bool { exists|j: int| s.len() - i <= j < s.len() && #[trigger] s[j] == n }
proof fn tail_step(s: Seq<NodeId>, i: int)
    requires 0 <= i < s.len(), s.no_duplicates(),
    ensures forall|n: NodeId| #[trigger] tail(s, i + 1, n) == (tail(s, i, n) || s[s.len() - 1 - i] == n), !tail(s, i, s[s.len() - 1 - i]),
{
    assert forall|n: NodeId| #[trigger] tail(s, i + 1, n) == (tail(s, i, n) || s[s.len() - 1 - i] == n) by {
        if tail(s, i, n) { let j = choose|j: int| s.len() - i <= j < s.len() && #[trigger] s[j] == n; assert(s[j] == n); }
        assert(s[s.len() - 1 - i] == s[s.len() - 1 - i]);
    }
}
proof fn tail_ends(s: Seq<NodeId>)
    ensures forall|n: NodeId| !(#[trigger] tail(s, 0, n)), forall|n: NodeId| #[trigger] tail(s, s.len() as int, n) == s.contains(n),
{
    assert forall|n: NodeId| #[trigger] tail(s, s.len() as int, n) == s.contains(n) by {
        if s.contains(n) { let j = choose|j: int| 0 <= j < s.len() && s[j] == n; assert(s[j] == n); }
    }
}
// ---- hover: the elements under a point, in document order ----
// the box test, proved about the same function by Kani (hovers_is_box)
pub uninterp spec fn inside(p: [f32; 2], position: [f32; 2], size: [f32; 2]) -> bool;
#[verifier::external_body]
pub fn hovers(point: [f32; 2], element: &Element) -> (r: bool)
    ensures r == inside(point, element.position, element.size),
{ unimplemented!() }
pub open spec fn is_hit(elems: Map<NodeId, Element>, p: [f32; 2], n: NodeId) -> bool {
    elems[n].pointer_events == PointerEvents::Auto && elems[n].visible && inside(p, elems[n].position, elems[n].size)
}
pub open spec fn hit(elems: Map<NodeId, Element>, p: [f32; 2]) -> spec_fn(NodeId) -> bool { |n: NodeId| is_hit(elems, p, n) }
// document order of the shown elements below n, n first
pub open spec fn preorder(kids: Map<NodeId, Seq<NodeId>>, n: NodeId) -> Seq<NodeId>
    decreases height(kids, n), 1nat, 0nat
{
    seq![n] + preorder_of(kids, n, kids[n].len() as nat)
}
// of the first k children
pub open spec fn preorder_of(kids: Map<NodeId, Seq<NodeId>>, n: NodeId, k: nat) -> Seq<NodeId>
    decreases height(kids, n), 0nat, k via preorder_of_decreases
{
    if k == 0 || !kids.contains_key(n) || k > kids[n].len() { seq![] } else { preorder_of(kids, n, (k - 1) as nat) + preorder(kids, kids[n][k - 1]) }
}
#[via_fn]
proof fn preorder_of_decreases(kids: Map<NodeId, Seq<NodeId>>, n: NodeId, k: nat) {
    if k == 0 || !kids.contains_key(n) || k > kids[n].len() {} else { axiom_height(kids, n, k - 1); }
}
// a node occurs once in a layout tree (assumed of the dependency)
#[verifier::external_body]
pub proof fn axiom_tree(kids: Map<NodeId, Seq<NodeId>>, n: NodeId)
    ensures preorder(kids, n).no_duplicates(),
{}
proof fn filter_add(a: Seq<NodeId>, b: Seq<NodeId>, p: spec_fn(NodeId) -> bool)
    ensures (a + b).filter(p) == a.filter(p) + b.filter(p)
{
    Seq::filter_distributes_over_add(a, b, p);
}
proof fn filter_one(n: NodeId, p: spec_fn(NodeId) -> bool)
    ensures seq![n].filter(p) == if p(n) { seq![n] } else { seq![] }
{
    reveal(Seq::filter);
    assert(seq![n].drop_last() =~= seq![]);
    assert(Seq::<NodeId>::empty().filter(p) =~= Seq::empty());
}
proof fn filter_members(s: Seq<NodeId>, p: spec_fn(NodeId) -> bool)
    requires s.no_duplicates(),
    ensures s.filter(p).no_duplicates(), forall|n: NodeId| #[trigger] s.filter(p).contains(n) == (s.contains(n) && p(n)),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        filter_members(d, p);
        let last = s.last();
        assert(s =~= d.push(last));
        assert(!d.contains(last));
        assert forall|n: NodeId| #[trigger] s.filter(p).contains(n) == (s.contains(n) && p(n)) by {
            assert(s.contains(n) == (d.contains(n) || n == last)) by {
                if d.contains(n) { let j = choose|j: int| 0 <= j < d.len() && d[j] == n; assert(s[j] == n); }
                if n == last { assert(s[s.len() - 1] == n); }
                if s.contains(n) { let j = choose|j: int| 0 <= j < s.len() && s[j] == n; if j < d.len() { assert(d[j] == n); } }
            }
            let f = d.filter(p);
            if p(last) {
                assert(s.filter(p) =~= f.push(last));
                assert(f.push(last).contains(n) == (f.contains(n) || n == last)) by {
                    if f.contains(n) { let j = choose|j: int| 0 <= j < f.len() && f[j] == n; assert(f.push(last)[j] == n); }
                    assert(f.push(last)[f.len() as int] == last);
                    if f.push(last).contains(n) { let j = choose|j: int| 0 <= j < f.push(last).len() && f.push(last)[j] == n; if j < f.len() { assert(f[j] == n); } }
                }
            } else {
                assert(s.filter(p) =~= f);
            }
        }
        if p(last) { assert(s.filter(p) =~= d.filter(p).push(last)); assert(!d.filter(p).contains(last)); }
        else { assert(s.filter(p) =~= d.filter(p)); }
    }
}

// ---- representation invariant of the interaction state ----
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn source(d: Option<DragContext>) -> Option<NodeId> { match d { Some(d) => Some(d.source), None => None } }
/// the first element in document order that accepts input
pub open spec fn first_input(elems: Map<NodeId, Element>, s: Seq<NodeId>) -> Option<NodeId>
    decreases s.len()
{
    if s.len() == 0 { None } else if elems[s[0]].listeners.has(Ev::Input) { Some(s[0]) } else { first_input(elems, s.drop_first()) }
}
/// the last element in document order with the property: the innermost / topmost one
pub open spec fn last_with(s: Seq<NodeId>, p: spec_fn(NodeId) -> bool) -> Option<NodeId>
    decreases s.len()
{
    if s.len() == 0 { None } else if p(s.last()) { Some(s.last()) } else { last_with(s.drop_last(), p) }
}
impl ViewModel {
    /// C05 C06 C07: flags of elements, pairing of events and the interaction state agree at any moment
    pub open spec fn ok(&self, tree: &Tree) -> bool {
        let log = self.log@;
        &&& paired(log)
        &&& self.elements_under_mouse@.no_duplicates()
        &&& forall|n: NodeId| #[trigger] cnt(log, n, Ev::Enter) - cnt(log, n, Ev::Leave) == one(self.elements_under_mouse@.contains(n))
        &&& forall|n: NodeId| #[trigger] cnt(log, n, Ev::Focus) - cnt(log, n, Ev::Blur) == one(self.focus == Some(n))
        &&& forall|n: NodeId| #[trigger] cnt(log, n, Ev::DragStart) - cnt(log, n, Ev::DragEnd) == one(source(self.drag) == Some(n))
        &&& forall|n: NodeId| #[trigger] tree.elems().contains_key(n) ==> {
            let e = tree.elems()[n];
            &&& e.node == n
            &&& e.state.hover == self.elements_under_mouse@.contains(n)
            &&& e.state.focus == (self.focus == Some(n))
            &&& e.state.active == self.elements_in_action@.contains(n)
        }
        &&& match self.focus { Some(n) => tree.elems().contains_key(n) ==> tree.elems()[n].listeners.has(Ev::Input), None => true }
    }
    /// what handling one event delivers and changes, stated from the properties
    pub open spec fn step(v0: &ViewModel, t0: &Tree, event: InputEvent, body: NodeId, v1: &ViewModel, t1: &Tree) -> bool {
        let (under, drag) = (v0.elements_under_mouse@, v0.drag.is_some());
        let d = |n: NodeId, e: Ev| cnt(v1.log@, n, e) - cnt(v0.log@, n, e);
        match event {
            InputEvent::MouseMove(p) => {
                let now = v1.elements_under_mouse@;
                &&& now == preorder(t0.kids(), body).filter(hit(t0.elems(), p))
                &&& v1.focus == v0.focus && v1.drag == v0.drag && v1.elements_in_action@ == v0.elements_in_action@
                &&& forall|n: NodeId, e: Ev| #[trigger] cnt(v1.log@, n, e) == cnt(v0.log@, n, e) + match e {
                        Ev::Enter => one(now.contains(n) && !under.contains(n)),
                        Ev::Leave => one(under.contains(n) && !now.contains(n)),
                        Ev::Move => one(now.contains(n)),
                        Ev::DragEnter => one(drag && now.contains(n) && !under.contains(n)),
                        Ev::DragLeave => one(drag && under.contains(n) && !now.contains(n)),
                        Ev::DragOver => one(drag && now.contains(n)),
                        _ => 0,
                    }
            }
            InputEvent::MouseButtonDown(button) => {
                let start = if button == MouseButtons::Left && !drag { last_with(under, |n: NodeId| is_draggable(t0.elems()[n].attrs)) } else { None };
                &&& v1.elements_under_mouse@ == under
                &&& v1.focus == first_input(t0.elems(), under)
                &&& forall|n: NodeId| #[trigger] v1.elements_in_action@.contains(n) == (v0.elements_in_action@.contains(n) || under.contains(n))
                &&& source(v1.drag) == if start.is_some() { start } else { source(v0.drag) }
                &&& forall|n: NodeId, e: Ev| #![trigger cnt(v1.log@, n, e)] e != Ev::Focus && e != Ev::Blur ==> cnt(v1.log@, n, e) == cnt(v0.log@, n, e) + match e {
                        Ev::Down => one(under.contains(n)),
                        Ev::DragStart => one(start == Some(n)),
                        _ => 0,
                    }
            }
            InputEvent::MouseButtonUp(button) => {
                let drop = if drag { last_with(under, |n: NodeId| t0.elems()[n].listeners.has(Ev::Drop)) } else { None };
                &&& v1.elements_under_mouse@ == under && v1.focus == v0.focus
                &&& v1.elements_in_action@.len() == 0
                &&& v1.drag.is_none()
                &&& forall|n: NodeId, e: Ev| #[trigger] cnt(v1.log@, n, e) == cnt(v0.log@, n, e) + match e {
                        Ev::Up => one(under.contains(n)),
                        Ev::Click => one(button == MouseButtons::Left && !drag && under.contains(n) && v0.elements_in_action@.contains(n)),
                        Ev::Menu => one(button == MouseButtons::Right && !drag && under.contains(n)),
                        Ev::Drop => one(drop == Some(n)),
                        Ev::DragEnd => one(source(v0.drag) == Some(n)),
                        _ => 0,
                    }
                // the drop, if any, comes right before the end of the drag
                &&& drop matches Some(target) ==> in_a_row(v1.log@, (target, Ev::Drop), (v0.drag->0.source, Ev::DragEnd))
            }
            InputEvent::KeyDown(_) => Self::keyboard(v0, v1, Ev::KeyDown),
            InputEvent::KeyUp(_) => Self::keyboard(v0, v1, Ev::KeyUp),
            InputEvent::Char(_) => Self::keyboard(v0, v1, Ev::Input),
            _ => v1.log@ == v0.log@ && Self::same(v0, v1),
        }
    }
    pub open spec fn same(v0: &ViewModel, v1: &ViewModel) -> bool {
        v1.elements_under_mouse@ == v0.elements_under_mouse@ && v1.elements_in_action@ == v0.elements_in_action@ && v1.focus == v0.focus && v1.drag == v0.drag
    }
    /// exactly once to the focused element and to nobody when there is none
    pub open spec fn keyboard(v0: &ViewModel, v1: &ViewModel, e: Ev) -> bool {
        &&& Self::same(v0, v1)
        &&& v1.log@ == match v0.focus { Some(n) => v0.log@.push((n, e)), None => v0.log@ }
    }

    // delivery: the message itself is the contract of unit emit
    #[verifier::external_body]
    pub fn emit<T>(&mut self, element: &Element, handler: Ev, event: T)
        ensures
            final(self).log@ == old(self).log@.push((element.node, handler)),
            final(self).mouse == old(self).mouse, final(self).elements_under_mouse == old(self).elements_under_mouse,
            final(self).elements_in_action == old(self).elements_in_action, final(self).drag == old(self).drag, final(self).focus == old(self).focus,
    { unimplemented!() }

//@fn src/view_model.rs ViewModel::calculate_mouse_hovers
//@ret r
    ensures
        r is Ok ==> final(self).elements_under_mouse@ == old(self).elements_under_mouse@ + preorder(tree.kids(), node).filter(hit(tree.elems(), position)),
        final(self).mouse == old(self).mouse, final(self).elements_in_action == old(self).elements_in_action,
        final(self).drag == old(self).drag, final(self).focus == old(self).focus, final(self).log == old(self).log,
    decreases height(tree.kids(), node)
//@start
    proof { filter_one(node, hit(tree.elems(), position)); }
    let ghost under0 = self.elements_under_mouse@;
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(),
        tree.kids().contains_key(node), __vx_c0@ == tree.kids()[node],
        self.mouse == old(self).mouse, self.elements_in_action == old(self).elements_in_action,
        self.drag == old(self).drag, self.focus == old(self).focus, self.log == old(self).log,
        self.elements_under_mouse@ == under0 + (seq![node] + preorder_of(tree.kids(), node, __vx_i0 as nat)).filter(hit(tree.elems(), position)),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    proof { axiom_height(tree.kids(), node, __vx_i0 as int); }
//@loop 0 end
    proof {
        let k = (__vx_i0 - 1) as nat;
        let done = seq![node] + preorder_of(tree.kids(), node, k);
        let next = tree.kids()[node][k as int];
        filter_add(done, preorder(tree.kids(), next), hit(tree.elems(), position));
        assert(seq![node] + preorder_of(tree.kids(), node, __vx_i0 as nat) =~= done + preorder(tree.kids(), next));
        assert(self.elements_under_mouse@ =~= under0 + (seq![node] + preorder_of(tree.kids(), node, __vx_i0 as nat)).filter(hit(tree.elems(), position)));
    }
//@loop 0 before
    proof {
        assert(seq![node] + preorder_of(tree.kids(), node, 0) =~= seq![node]);
        assert(self.elements_under_mouse@ =~= under0 + seq![node].filter(hit(tree.elems(), position)));
    }
//@end

//@fn src/view_model.rs ViewModel::handle_elements_input
//@ret r
//@rewrite "onmouseleave" => Ev::Leave
//@rewrite "onmouseenter" => Ev::Enter
//@rewrite "onmousemove" => Ev::Move
//@rewrite "ondragleave" => Ev::DragLeave
//@rewrite "ondragenter" => Ev::DragEnter
//@rewrite "ondragover" => Ev::DragOver
//@rewrite "onmousedown" => Ev::Down
//@rewrite "onmouseup" => Ev::Up
//@rewrite "onclick" => Ev::Click
//@rewrite "oncontextmenu" => Ev::Menu
//@rewrite "ondragstart" => Ev::DragStart
//@rewrite "ondragend" => Ev::DragEnd
//@rewrite "ondrop" => Ev::Drop
//@rewrite "onfocus" => Ev::Focus
//@rewrite "onblur" => Ev::Blur
//@rewrite "onkeydown" => Ev::KeyDown
//@rewrite "onkeyup" => Ev::KeyUp
//@rewrite "oninput" => Ev::Input
//@rewrite self.drag.as_mut() => &self.drag
//@rewrite self.elements_under_mouse.clone() => vx_copy(&self.elements_under_mouse)
//@rewrite self.elements_under_mouse.contains(node) => vx_contains(&self.elements_under_mouse, node)
//@rewrite self.elements_under_mouse.contains(&focus) => vx_contains(&self.elements_under_mouse, &focus)
//@rewrite previous_update.contains(node) => vx_contains(&previous_update, node)
    requires old(self).ok(old(tree)),
    ensures r is Ok ==> final(self).ok(final(tree)) && unchanged(old(tree), final(tree)),
//@start
    broadcast use {cnt_push, paired_push, in_a_row_push};
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(),
        self.ok(tree), unchanged(old(tree), tree),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    broadcast use {cnt_push, paired_push, in_a_row_push};
    let ghost v0 = *self;
    let ghost t0 = *tree;
//@loop 0 end
    assert(unchanged(&t0, tree));
    proof { unchanged_trans(old(tree), &t0, tree); }
    assert(self.ok(tree));
    assert(ViewModel::step(&v0, &t0, event, body, self, tree));
//@after call calculate_mouse_hovers 0
    let ghost now = self.elements_under_mouse@;
    let ghost prev = previous_update@;
    proof {
        axiom_tree(t0.kids(), body);
        filter_members(preorder(t0.kids(), body), hit(t0.elems(), position));
        assert(now =~= preorder(t0.kids(), body).filter(hit(t0.elems(), position)));
        tail_ends(prev);
        tail_ends(now);
    }
//@loop 1
    invariant
        v0.ok(&t0), prev == v0.elements_under_mouse@, prev == __vx_c1@, __vx_i1 <= __vx_c1@.len(),
        self.elements_under_mouse@ == now, self.focus == v0.focus, self.drag == v0.drag, self.elements_in_action == v0.elements_in_action,
        paired(self.log@),
        forall|n: NodeId, e: Ev| #[trigger] cnt(self.log@, n, e) == cnt(v0.log@, n, e) + match e {
            Ev::Leave => one(tail(prev, __vx_i1 as int, n) && !now.contains(n)),
            Ev::DragLeave => one(v0.drag.is_some() && tail(prev, __vx_i1 as int, n) && !now.contains(n)),
            _ => 0 },
        unchanged(&t0, tree),
        forall|n: NodeId| #[trigger] t0.elems().contains_key(n) ==> tree.elems()[n].state
            == (ElementState { hover: t0.elems()[n].state.hover && !(tail(prev, __vx_i1 as int, n) && !now.contains(n)), ..t0.elems()[n].state }),
    decreases __vx_c1@.len() - __vx_i1
//@loop 1 start
    broadcast use {cnt_push, paired_push, in_a_row_push};
    proof { tail_step(prev, __vx_i1 as int); }
//@loop 2 before
    proof { tail_ends(prev); tail_ends(now); }
//@loop 2
    invariant
        v0.ok(&t0), prev == v0.elements_under_mouse@, now == __vx_c2@, previous_update@ == prev, __vx_i2 <= __vx_c2@.len(), now.no_duplicates(),
        self.elements_under_mouse@ == now, self.focus == v0.focus, self.drag == v0.drag, self.elements_in_action == v0.elements_in_action,
        paired(self.log@),
        forall|n: NodeId, e: Ev| #[trigger] cnt(self.log@, n, e) == cnt(v0.log@, n, e) + match e {
            Ev::Leave => one(prev.contains(n) && !now.contains(n)),
            Ev::DragLeave => one(v0.drag.is_some() && prev.contains(n) && !now.contains(n)),
            Ev::Enter => one(tail(now, __vx_i2 as int, n) && !prev.contains(n)),
            Ev::DragEnter => one(v0.drag.is_some() && tail(now, __vx_i2 as int, n) && !prev.contains(n)),
            Ev::Move => one(tail(now, __vx_i2 as int, n)),
            Ev::DragOver => one(v0.drag.is_some() && tail(now, __vx_i2 as int, n)),
            _ => 0 },
        unchanged(&t0, tree),
        forall|n: NodeId| #[trigger] t0.elems().contains_key(n) ==> tree.elems()[n].state
            == (ElementState { hover: (prev.contains(n) && now.contains(n)) || tail(now, __vx_i2 as int, n), ..t0.elems()[n].state }),
    decreases __vx_c2@.len() - __vx_i2
//@loop 2 start
    broadcast use {cnt_push, paired_push, in_a_row_push};
    proof {
        tail_step(now, __vx_i2 as int);
        assert(now.contains(now[now.len() - 1 - __vx_i2]));
    }
//@loop 2 after
    proof { tail_ends(now); }
//@loop 3 before
    let ghost under = v0.elements_under_mouse@;
    let ghost starts = |n: NodeId| is_draggable(t0.elems()[n].attrs);
    let ghost allowed = button == MouseButtons::Left && v0.drag.is_none();
    let ghost focus1 = self.focus;
    proof {
        tail_ends(under);
        suffix_ends(under);
    }
//@loop 3
    invariant
        v0.ok(&t0), under == v0.elements_under_mouse@, under == __vx_c3@, __vx_i3 <= __vx_c3@.len(),
        starts == (|n: NodeId| is_draggable(t0.elems()[n].attrs)), allowed == (button == MouseButtons::Left && v0.drag.is_none()),
        focus1 is Some ==> focus1 == v0.focus && under.contains(focus1->0),
        self.ok(tree), unchanged(&t0, tree),
        self.elements_under_mouse@ == under,
        self.focus == match first_input(t0.elems(), suffix(under, __vx_i3 as int)) { Some(n) => Some(n), None => focus1 },
        forall|n: NodeId| #[trigger] self.elements_in_action@.contains(n) == (v0.elements_in_action@.contains(n) || tail(under, __vx_i3 as int, n)),
        forall|n: NodeId| #[trigger] tail(under, __vx_i3 as int, n) ==> t0.elems().contains_key(n),
        source(self.drag) == if allowed && last_with(suffix(under, __vx_i3 as int), starts).is_some() { last_with(suffix(under, __vx_i3 as int), starts) } else { source(v0.drag) },
        forall|n: NodeId, e: Ev| #![trigger cnt(self.log@, n, e)] e != Ev::Focus && e != Ev::Blur ==> cnt(self.log@, n, e) == cnt(v0.log@, n, e) + match e {
            Ev::Down => one(tail(under, __vx_i3 as int, n)),
            Ev::DragStart => one(allowed && last_with(suffix(under, __vx_i3 as int), starts) == Some(n)),
            _ => 0 },
    decreases __vx_c3@.len() - __vx_i3
//@loop 3 start
    broadcast use {cnt_push, paired_push, contains_push};
    proof {
        tail_step(under, __vx_i3 as int);
        suffix_step(under, __vx_i3 as int, t0.elems(), starts);
    }
//@loop 3 after
    proof {
        tail_ends(under);
        suffix_ends(under);
        if focus1 is Some { assert(tail(under, under.len() as int, focus1->0)); first_input_some(t0.elems(), under, focus1->0); }
    }
//@loop 4 before
    let ghost under = v0.elements_under_mouse@;
    let ghost accepts = |n: NodeId| t0.elems()[n].listeners.has(Ev::Drop);
    proof { tail_ends(under); suffix_ends(under); }
//@loop 4
    invariant
        v0.ok(&t0), under == v0.elements_under_mouse@, under == __vx_c4@, __vx_i4 <= __vx_c4@.len(), is_drag == v0.drag.is_some(),
        accepts == (|n: NodeId| t0.elems()[n].listeners.has(Ev::Drop)),
        self.elements_under_mouse@ == under, self.focus == v0.focus, self.elements_in_action == v0.elements_in_action,
        paired(self.log@), unchanged(&t0, tree),
        forall|n: NodeId| #[trigger] t0.elems().contains_key(n) ==> tree.elems()[n] == t0.elems()[n],
        source(self.drag) == if last_with(suffix(under, __vx_i4 as int), accepts).is_some() { None } else { source(v0.drag) },
        is_drag ==> (last_with(suffix(under, __vx_i4 as int), accepts) matches Some(target) ==> in_a_row(self.log@, (target, Ev::Drop), (v0.drag->0.source, Ev::DragEnd))),
        forall|n: NodeId, e: Ev| #[trigger] cnt(self.log@, n, e) == cnt(v0.log@, n, e) + match e {
            Ev::Up => one(tail(under, __vx_i4 as int, n)),
            Ev::Click => one(button == MouseButtons::Left && !is_drag && tail(under, __vx_i4 as int, n) && v0.elements_in_action@.contains(n)),
            Ev::Menu => one(button == MouseButtons::Right && !is_drag && tail(under, __vx_i4 as int, n)),
            Ev::Drop => one(is_drag && last_with(suffix(under, __vx_i4 as int), accepts) == Some(n)),
            Ev::DragEnd => one(last_with(suffix(under, __vx_i4 as int), accepts).is_some() && source(v0.drag) == Some(n)),
            _ => 0 },
    decreases __vx_c4@.len() - __vx_i4
//@loop 4 start
    broadcast use {cnt_push, paired_push, in_a_row_push};
    proof {
        tail_step(under, __vx_i4 as int);
        suffix_step(under, __vx_i4 as int, t0.elems(), accepts);
    }
//@loop 4 after
    proof { tail_ends(under); suffix_ends(under); }
//@loop 5 before
    let ghost pressed = v0.elements_in_action@;
    let ghost t5 = *tree;
    let ghost v5 = *self;
    assert(unchanged(&t0, &t5));
    proof { head_ends(pressed); }
//@loop 5
    invariant
        __vx_c5@ == pressed, __vx_i5 <= __vx_c5@.len(),
        *self == v5, unchanged(&t5, tree),
        forall|n: NodeId| #[trigger] t5.elems().contains_key(n) ==> tree.elems()[n].state == (ElementState { active: t5.elems()[n].state.active && !head(pressed, __vx_i5 as int, n), ..t5.elems()[n].state }),
    decreases __vx_c5@.len() - __vx_i5
//@loop 5 start
    broadcast use {cnt_push, paired_push, in_a_row_push};
    proof { head_step(pressed, __vx_i5 as int); }
//@loop 5 after
    proof { head_ends(pressed); unchanged_trans(&t0, &t5, tree); }
//@end
}
pub open spec fn unchanged(t0: &Tree, t1: &Tree) -> bool {
    &&& t1.kids() == t0.kids()
    &&& forall|n: NodeId| #[trigger] t1.elems().contains_key(n) == t0.elems().contains_key(n)
    &&& forall|n: NodeId| #[trigger] t0.elems().contains_key(n) ==> t1.elems()[n] == (Element { state: ElementState { checked: t0.elems()[n].state.checked, ..t1.elems()[n].state }, ..t0.elems()[n] })
}
proof fn unchanged_trans(t0: &Tree, t1: &Tree, t2: &Tree)
    requires unchanged(t0, t1), unchanged(t1, t2),
    ensures unchanged(t0, t2),
{
    assert forall|n: NodeId| #[trigger] t0.elems().contains_key(n) implies t2.elems()[n] == (Element { state: ElementState { checked: t0.elems()[n].state.checked, ..t2.elems()[n].state }, ..t0.elems()[n] }) by {
        assert(t1.elems().contains_key(n));
    }
}
pub broadcast proof fn contains_push(s: Seq<NodeId>, x: NodeId, n: NodeId)
    ensures #[trigger] s.push(x).contains(n) == (s.contains(n) || n == x),
{
    assert(s.push(x)[s.len() as int] == x);
    if s.contains(n) { let j = choose|j: int| 0 <= j < s.len() && s[j] == n; assert(s.push(x)[j] == n); }
}
pub open spec fn suffix(s: Seq<NodeId>, i: int) -> Seq<NodeId> { s.subrange(s.len() - i, s.len() as int) }
proof fn suffix_ends(s: Seq<NodeId>)
    ensures suffix(s, 0) == Seq::<NodeId>::empty(), suffix(s, s.len() as int) == s,
{ assert(suffix(s, 0) =~= Seq::<NodeId>::empty()); assert(suffix(s, s.len() as int) =~= s); }
proof fn last_with_front(x: NodeId, t: Seq<NodeId>, p: spec_fn(NodeId) -> bool)
    ensures last_with(seq![x] + t, p) == if last_with(t, p).is_some() { last_with(t, p) } else if p(x) { Some(x) } else { None },
    decreases t.len()
{
    let s = seq![x] + t;
    if t.len() == 0 {
        assert(s.last() == x);
        assert(s.drop_last() =~= Seq::<NodeId>::empty());
        assert(last_with(s.drop_last(), p) is None);
    } else {
        assert(s.last() == t.last());
        assert(s.drop_last() =~= seq![x] + t.drop_last());
        last_with_front(x, t.drop_last(), p);
    }
}
proof fn last_with_member(s: Seq<NodeId>, p: spec_fn(NodeId) -> bool)
    ensures match last_with(s, p) { Some(n) => s.contains(n) && p(n), None => true },
    decreases s.len()
{
    if s.len() > 0 {
        if p(s.last()) { assert(s[s.len() - 1] == s.last()); } else {
            last_with_member(s.drop_last(), p);
            match last_with(s.drop_last(), p) { Some(n) => { let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == n; assert(s[j] == n); } None => {} }
        }
    }
}
proof fn suffix_step(s: Seq<NodeId>, i: int, elems: Map<NodeId, Element>, p: spec_fn(NodeId) -> bool)
    requires 0 <= i < s.len(),
    ensures
        first_input(elems, suffix(s, i + 1)) == if elems[s[s.len() - 1 - i]].listeners.has(Ev::Input) { Some(s[s.len() - 1 - i]) } else { first_input(elems, suffix(s, i)) },
        last_with(suffix(s, i + 1), p) == if last_with(suffix(s, i), p).is_some() { last_with(suffix(s, i), p) } else if p(s[s.len() - 1 - i]) { Some(s[s.len() - 1 - i]) } else { None },
{
    let x = s[s.len() - 1 - i];
    assert(suffix(s, i + 1) =~= seq![x] + suffix(s, i));
    assert(suffix(s, i + 1).drop_first() =~= suffix(s, i));
    last_with_front(x, suffix(s, i), p);
}
proof fn first_input_some(elems: Map<NodeId, Element>, s: Seq<NodeId>, n: NodeId)
    requires s.contains(n), elems[n].listeners.has(Ev::Input),
    ensures first_input(elems, s) is Some,
    decreases s.len()
{
    if !elems[s[0]].listeners.has(Ev::Input) {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == n;
        assert(s.drop_first()[j - 1] == n);
        first_input_some(elems, s.drop_first(), n);
    }
}
impl DragContext {
//@fn src/view_model.rs DragContext::new
//@ret r
    ensures source(r) == Some(node),
//@end
}
}
fn main() {}
