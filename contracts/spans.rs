#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C22: texts and attributes made of spans; C23: the index of identifiers (update_tree, the cases Type, Bind and Tag)
//@texts
//@include prelude.inc
//@include texts.inc
//@type TaffyTree<Element> => Tree
//@type HashMap<String, String> => Dict<Text>
//@type HashMap<String, TextContent> => Dict<TextContent>
//@type HashMap<String, Vec<NodeId>> => Dict<Vec<NodeId>>
pub enum ViewError { ElementNotFound(NodeId), ChildNotFound(NodeId), ElementTextContentNotFound, AttributeBindingNotFound(Text), Other }
#[verifier::external_body]
pub struct Declaration { x: u64 }
//@item src/element.rs TextContent
//@item src/element.rs Background keep image,is_src
//@item src/element.rs Element keep node,tag,text,attrs,attrs_bindings,backgrounds,style
//@include tree.inc
//@item src/view_model.rs Reaction
//@const src/controls/img.rs BACKGROUND background_index usize
    ensures r == 0,
//@end
pub struct ViewModel { pub x: u64 }
//@item src/view.rs View keep tree,identified,model
impl Tree {
    #[verifier::external_body]
    pub fn child_at_index(&self, node: NodeId, i: usize) -> (r: Result<NodeId, ViewError>)
        ensures match r { Ok(c) => self.kids().contains_key(node) && i < self.kids()[node].len() && c == self.kids()[node][i as int], Err(_) => !(self.kids().contains_key(node) && i < self.kids()[node].len()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_node_context_mut(&mut self, node: NodeId) -> (r: Option<&mut Element>)
        ensures match r {
            Some(e) => old(self).elems().contains_key(node) && *e == old(self).elems()[node] && final(self).elems() == old(self).elems().insert(node, *final(e)) && final(self).kids() == old(self).kids(),
            None => *final(self) == *old(self) && !old(self).elems().contains_key(node),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mark_dirty(&mut self, node: NodeId) -> (r: Result<(), ViewError>)
        ensures final(self).elems() == old(self).elems(), final(self).kids() == old(self).kids(), old(self).elems().contains_key(node) ==> r is Ok,
    { unimplemented!() }
}
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut() -> T>[Vec::<T, A>::resize_with](v: &mut Vec<T, A>, n: usize, f: F)
    requires call_requires(f, ()),
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> if i < old(v)@.len() { final(v)@[i] == old(v)@[i] } else { call_ensures(f, (), #[trigger] final(v)@[i]) };
pub open spec fn no_image(b: Background) -> bool { b.image is None && !b.is_src }
impl Default for Background {
//@fn src/element.rs Default for Background::default
//@ret r
    ensures no_image(r),
//@end
}
impl Element {
//@fn src/element.rs Element::get_background_mut
//@ret r
    requires index < usize::MAX,
    ensures
        if index < old(self).backgrounds@.len() { *r == old(self).backgrounds@[index as int] } else { no_image(*r) },
        index < old(self).backgrounds@.len() ==> final(self).backgrounds@ == old(self).backgrounds@.update(index as int, *final(r)),
        index >= old(self).backgrounds@.len() ==> final(self).backgrounds@.len() == index + 1 && final(self).backgrounds@[index as int] == *final(r),
        *final(self) == (Element { backgrounds: final(self).backgrounds, ..*old(self) }),
//@end
}
/// C22: the element shows the source, and is as it was besides
pub open spec fn sourced(a: Element, b: Element, src: Seq<char>) -> bool {
    &&& b == (Element { backgrounds: b.backgrounds, ..a })
    &&& b.backgrounds@.len() > 0 && b.backgrounds@[0].image is Some && b.backgrounds@[0].image->0@ == src && b.backgrounds@[0].is_src
    &&& a.backgrounds@.len() > 0 ==> b.backgrounds@ =~= a.backgrounds@.update(0, b.backgrounds@[0])
}
/// the child that shows an image's source
pub open spec fn canvas(t: Tree, img: NodeId) -> Option<NodeId> { if t.kids().contains_key(img) && t.kids()[img].len() > 0 { Some(t.kids()[img][0]) } else { None } }
impl ViewModel {
//@fn src/controls/img.rs ViewModel::update_img_src
//@rewrite BACKGROUND => background_index()
//@ret r
    ensures
        final(tree).kids() == old(tree).kids(), *final(self) == *old(self),
        match canvas(*old(tree), img) {
            Some(c) => if old(tree).elems().contains_key(c) {
                r is Ok && final(tree).elems() == old(tree).elems().insert(c, final(tree).elems()[c]) && sourced(old(tree).elems()[c], final(tree).elems()[c], src@)
            } else { r is Err && final(tree).elems() == old(tree).elems() },
            None => r is Err && final(tree).elems() == old(tree).elems(),
        },
//@end
}
/// what an inline style means, none if it cannot be read
pub uninterp spec fn inline(s: Seq<char>) -> Option<Vec<Declaration>>;
#[verifier::external_body]
pub fn read_inline_css(s: &Text) -> (r: Result<Vec<Declaration>, ()>) ensures match r { Ok(d) => inline(s@) == Some(d), Err(_) => inline(s@) is None } { unimplemented!() }
/// the texts one after another
pub open spec fn joined(s: Seq<Text>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last()@ } }
pub trait Joins { spec fn items(&self) -> Seq<Text>; fn join(&self, sep: &Text) -> (r: Text) ensures sep@.len() == 0 ==> r@ == joined(self.items()); }
impl Joins for Vec<Text> { open spec fn items(&self) -> Seq<Text> { self@ } #[verifier::external_body] fn join(&self, sep: &Text) -> Text { unimplemented!() } }
impl Dict<Vec<NodeId>> {
    /// `entry(k).or_default()`
    #[verifier::external_body]
    pub fn vx_entry(&mut self, k: Text) -> (r: &mut Vec<NodeId>)
        ensures
            old(self).map().contains_key(k@) ==> *r == old(self).map()[k@], !old(self).map().contains_key(k@) ==> (*r)@.len() == 0,
            final(self).map() == old(self).map().insert(k@, *final(r)),
    { unimplemented!() }
}
impl Dict<Text> {
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: Text, v: Text) -> (r: Option<Text>)
        ensures final(self).map() == old(self).map().insert(k@, v), match r { Some(x) => old(self).map().contains_key(k@) && old(self).map()[k@] == x, None => !old(self).map().contains_key(k@) },
    { unimplemented!() }
}
// ---- the properties ----
pub open spec fn span_set(s: Seq<Text>, i: int, t: Text) -> Seq<Text> { if 0 <= i < s.len() { s.update(i, t) } else { s } }
/// an attribute that has bound parts shows all its parts in order
pub open spec fn shows_spans(e: Element, k: Seq<char>) -> bool { e.attrs.map().contains_key(k) && e.attrs_bindings.map().contains_key(k) && e.attrs.map()[k]@ == joined(e.attrs_bindings.map()[k].spans@) }
pub open spec fn same_text(a: Element, b: Element) -> bool { a.node == b.node && a.tag == b.tag && a.text == b.text && a.backgrounds == b.backgrounds }
pub open spec fn node_of(r: Reaction) -> NodeId {
    match r { Reaction::Type { node, .. } => node, Reaction::Tag { node, .. } => node, Reaction::Bind { node, .. } => node, _ => NodeId(0) }
}
/// the element's content after the reaction
pub open spec fn written(r: Reaction, a: Element, b: Element) -> bool {
    match r {
        Reaction::Type { span, text, .. } => {
            &&& a.text is Some && b.text is Some && b.text->0.spans@ == span_set(a.text->0.spans@, span as int, text)
            &&& a.node == b.node && a.tag == b.tag && a.attrs == b.attrs && a.attrs_bindings == b.attrs_bindings && a.style == b.style && a.backgrounds == b.backgrounds
        },
        Reaction::Tag { key, tag, .. } => {
            &&& same_text(a, b) && a.attrs_bindings == b.attrs_bindings && a.style == b.style && a.backgrounds == b.backgrounds
            &&& b.attrs.map() == if tag { a.attrs.map().insert(key@, key) } else { a.attrs.map().remove(key@) }
        },
        Reaction::Bind { key, span, text, .. } => {
            &&& same_text(a, b) && a.attrs_bindings.map().contains_key(key@) && b.attrs_bindings.map().contains_key(key@)
            &&& b.attrs_bindings.map()[key@].spans@ == span_set(a.attrs_bindings.map()[key@].spans@, span as int, text)
            &&& shows_spans(b, key@)
            &&& forall|k: Seq<char>| k != key@ ==> (#[trigger] b.attrs_bindings.map().contains_key(k) == a.attrs_bindings.map().contains_key(k)) && (a.attrs_bindings.map().contains_key(k) ==> b.attrs_bindings.map()[k] == a.attrs_bindings.map()[k])
            &&& forall|k: Seq<char>| k != key@ ==> (#[trigger] b.attrs.map().contains_key(k) == a.attrs.map().contains_key(k)) && (a.attrs.map().contains_key(k) ==> b.attrs.map()[k] == a.attrs.map()[k])
            &&& b.style == if key@ == "style"@ { match inline(b.attrs.map()[key@]@) { Some(d) => d, None => a.style } } else { a.style }
        },
        _ => false,
    }
}
pub open spec fn possible(r: Reaction, e: Element) -> bool {
    match r {
        Reaction::Type { .. } => e.text is Some,
        Reaction::Bind { key, .. } => e.attrs_bindings.map().contains_key(key@),
        Reaction::Tag { .. } => true,
        _ => false,
    }
}
pub open spec fn bears(e: Element, id: Seq<char>) -> bool { e.attrs.map().contains_key("id"@) && e.attrs.map()["id"@]@ == id }
pub open spec fn is_source(r: Reaction, e: Element) -> bool { match r { Reaction::Bind { key, .. } => key@ == "src"@ && e.tag@ == "img"@, _ => false } }
/// C22: an image shows its source; no other element changes
pub open spec fn painted(r: Reaction, t: Tree, a: Map<NodeId, Element>, b: Map<NodeId, Element>) -> bool {
    let n = node_of(r);
    if is_source(r, t.elems()[n]) && canvas(t, n) is Some && t.elems().contains_key(canvas(t, n)->0) {
        let c = canvas(t, n)->0;
        b == a.insert(c, b[c]) && sourced(a[c], b[c], a[n].attrs.map()["src"@]@)
    } else { b == a }
}
/// whose identifiers are kept: elements with a static id and those whose bound id has got a value
pub open spec fn indexed(v: View, who: Set<NodeId>) -> bool {
    forall|id: Seq<char>, n: NodeId| #![trigger listed(v.identified.map(), id, n)] #![trigger bears(v.tree.elems()[n], id)] listed(v.identified.map(), id, n) <==> (who.contains(n) && v.tree.elems().contains_key(n) && bears(v.tree.elems()[n], id))
}
pub open spec fn listed(m: Map<Seq<char>, Vec<NodeId>>, id: Seq<char>, n: NodeId) -> bool { m.contains_key(id) && m[id]@.contains(n) }
pub open spec fn gets_id(r: Reaction) -> bool { match r { Reaction::Bind { key, .. } => key@ == "id"@, _ => false } }
pub open spec fn id_flag(r: Reaction) -> bool { match r { Reaction::Tag { key, .. } => key@ == "id"@, _ => false } }
pub open spec fn whose(r: Reaction, who: Set<NodeId>) -> Set<NodeId> { if gets_id(r) { who.insert(node_of(r)) } else { who } }
pub open spec fn value_before(e: Element) -> Option<Text> { if e.attrs.map().contains_key("id"@) { Some(e.attrs.map()["id"@]) } else { None } }
pub proof fn distinct_names() ensures "id"@ != "style"@, "id"@ != "src"@, "style"@ != "src"@ {
    reveal_strlit("id"); reveal_strlit("style"); reveal_strlit("src");
    assert("id"@.len() == 2 && "style"@.len() == 5 && "src"@.len() == 3);
}
impl TextContent {
//@fn src/element.rs TextContent::set
    ensures final(self).spans@ == span_set(old(self).spans@, span as int, value),
//@end
//@fn src/element.rs TextContent::to_string
//@ret r
    ensures r@ == joined(self.spans@),
//@start
    proof { reveal_strlit(""); assert(""@.len() == 0); }
//@end
}
impl View {
//@fn src/view.rs View::update_tree
//@rename update_spans
//@arms Type, Bind, Tag
//@rewrite element.attrs.insert(key.clone(), value.clone()) => element.attrs.vx_insert(key.clone(), value.clone())
//@ret r
    requires
        old(self).tree.elems().contains_key(node_of(reaction)), possible(reaction, old(self).tree.elems()[node_of(reaction)]),
    ensures
        r is Ok || is_source(reaction, old(self).tree.elems()[node_of(reaction)]) && !(canvas(old(self).tree, node_of(reaction)) is Some && old(self).tree.elems().contains_key(canvas(old(self).tree, node_of(reaction))->0)),
        final(self).tree.kids() == old(self).tree.kids(),
        final(self).tree.elems().contains_key(node_of(reaction)), written(reaction, old(self).tree.elems()[node_of(reaction)], final(self).tree.elems()[node_of(reaction)]),
        painted(reaction, old(self).tree, old(self).tree.elems().insert(node_of(reaction), final(self).tree.elems()[node_of(reaction)]), final(self).tree.elems()),
        forall|who: Set<NodeId>| #[trigger] indexed(*old(self), who) && !id_flag(reaction) ==> indexed(*final(self), whose(reaction, who)),
//@start
    proof { if canvas(self.tree, node_of(reaction)) is Some { axiom_height(self.tree.kids(), node_of(reaction), 0); } }
    let ghost map0 = self.identified.map();
    let ghost elems0 = self.tree.elems();
    let ghost node0 = node_of(reaction);
    proof { distinct_names(); assert(indexed(*self, Set::empty()) || true); }
//@before call push 0
    let ghost text0 = value;
    let ghost map1 = self.identified.map();
    proof {
        let prev = value_before(elems0[node]);
        assert forall|id: Seq<char>, n: NodeId| #[trigger] listed(map1, id, n) <==> listed(map0, id, n) && !(n == node && prev is Some && prev->0@ == id) by {}
    }
//@after call push 0
    proof {
        let prev = value_before(elems0[node]);
        let map2 = self.identified.map();
        let was = if map1.contains_key(text0@) { map1[text0@]@ } else { Seq::empty() };
        assert(map2[text0@]@ == was.push(node));
        assert forall|n: NodeId| #[trigger] was.push(node).contains(n) <==> was.contains(n) || n == node by {
            let w = was.push(node);
            if was.contains(n) { let j = choose|j: int| 0 <= j < was.len() && was[j] == n; assert(w[j] == n); }
            if n == node { assert(w[was.len() as int] == n); }
        }
        assert forall|id: Seq<char>, n: NodeId| #[trigger] listed(map2, id, n) <==> listed(map1, id, n) || (n == node && id == text0@) by {}
    }
//@ end
    proof {
        let e1 = self.tree.elems();
        assert forall|who: Set<NodeId>| #[trigger] indexed(*old(self), who) && !id_flag(reaction) implies indexed(*self, whose(reaction, who)) by {
            assert forall|id: Seq<char>, n: NodeId| listed(self.identified.map(), id, n) <==> (whose(reaction, who).contains(n) && e1.contains_key(n) && bears(e1[n], id)) by {
                assert(listed(map0, id, n) <==> (who.contains(n) && elems0.contains_key(n) && bears(elems0[n], id)));
            }
        }
    }
//@loop 0 before
    let ghost items0 = nodes@;
//@loop 0
    invariant
        0 <= __vx_i0 <= nodes@.len(), forall|n: NodeId| #[trigger] nodes@.contains(n) ==> items0.contains(n),
        forall|n: NodeId| n != node && items0.contains(n) ==> #[trigger] nodes@.contains(n),
        forall|i: int| 0 <= i < __vx_i0 ==> #[trigger] nodes@[i] != node,
    decreases nodes@.len() - __vx_i0
//@loop 0 start
    let ghost items1 = nodes@;
//@loop 0 end
    proof {
        if !__vx_r0 {
            assert forall|n: NodeId| n != node && items0.contains(n) implies #[trigger] nodes@.contains(n) by {
                assert(items1.contains(n));
                let j = choose|j: int| 0 <= j < items1.len() && items1[j] == n;
                if j < __vx_i0 { assert(nodes@[j] == n); } else { assert(nodes@[j - 1] == n); }
            }
            assert forall|n: NodeId| #[trigger] nodes@.contains(n) implies items0.contains(n) by {
                let j = choose|j: int| 0 <= j < nodes@.len() && nodes@[j] == n;
                if j < __vx_i0 { assert(items1[j] == n); } else { assert(items1[j + 1] == n); }
                assert(items1.contains(n));
            }
        }
    }
//@end
//@fn src/view.rs View::get_element_by_id
//@ret r
    ensures
        forall|who: Set<NodeId>| #[trigger] indexed(*self, who) ==> match r {
            Some(e) => exists|n: NodeId| who.contains(n) && #[trigger] self.tree.elems().contains_key(n) && *e == self.tree.elems()[n] && bears(self.tree.elems()[n], id@),
            None => forall|n: NodeId| who.contains(n) && #[trigger] self.tree.elems().contains_key(n) ==> !bears(self.tree.elems()[n], id@),
        },
//@start
    proof {
        let m = self.identified.map();
        if m.contains_key(id@) && m[id@]@.len() > 0 { let n = m[id@]@.last(); assert(m[id@]@.contains(n)); assert(listed(m, id@, n)); }
        assert forall|who: Set<NodeId>, n: NodeId| #[trigger] indexed(*self, who) && who.contains(n) && #[trigger] self.tree.elems().contains_key(n) && bears(self.tree.elems()[n], id@) implies listed(m, id@, n) by {}
    }
//@end
}
}
fn main() {}
