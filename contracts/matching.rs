use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C09: selectors match as CSS defines
//@texts
//@include prelude.inc
//@include texts.inc
//@type TaffyTree<Element> => Tree
//@type HashMap<String, String> => Dict<Text>
pub enum ViewError { Other }
//@item src/element.rs ElementState
//@item src/css/model.rs Matcher derive(Clone,Copy)
//@item src/css/model.rs Simple
//@item src/css/model.rs Complex
#[verifier::external_body]
pub struct Declaration { x: u8 }
//@item src/css/model.rs Style
impl Clone for Style { #[verifier::external_body] fn clone(&self) -> (r: Style) ensures r == *self { unimplemented!() } }
//@item src/element.rs ElementStyleHints
impl Clone for ElementStyleHints { #[verifier::external_body] fn clone(&self) -> (r: ElementStyleHints) ensures r == *self { unimplemented!() } }
//@item src/element.rs ElementStyle
//@item src/element.rs Element keep node,tag,attrs,state,style_hints,styles
//@include tree.inc
//@include below.inc
#[verifier::external_body]
pub struct Animations { x: u8 }
//@type HashMap<String, Animation> => Animations
//@item src/css/model.rs Css
//@item src/view.rs View keep tree,css

// ---- the property ----
pub trait PseudoClassMatcher {
    spec fn has(&self, e: Element, class: Seq<char>) -> bool;
    fn has_pseudo_class(&self, element: &Element, class: &Text) -> (r: bool) ensures r == self.has(*element, class@);
}
/// what `[name op value]` asks of the attribute
pub open spec fn attr_holds(op: Matcher, attr: Seq<char>, v: Seq<char>) -> bool {
    match op {
        Matcher::Exist => true,
        Matcher::Equal => attr == v,
        Matcher::Include => is_word(attr, v),
        Matcher::DashMatch => attr == v || begins(attr, v + "-"@),
        Matcher::Prefix => v.len() > 0 && begins(attr, v),
        Matcher::Suffix => v.len() > 0 && ends(attr, v),
        Matcher::Substring => v.len() > 0 && exists|i: int| contains_at(attr, v, i),
    }
}
pub open spec fn has_attr(e: Element, name: Seq<char>, op: Matcher, v: Seq<char>) -> bool {
    e.attrs.map().contains_key(name) && attr_holds(op, e.attrs.map()[name]@, v)
}
pub open spec fn part_holds<M: PseudoClassMatcher>(part: Simple, e: Element, m: M) -> bool {
    match part {
        Simple::All => true,
        Simple::Type(name) => e.tag@ == name@,
        Simple::Id(id) => has_attr(e, "id"@, Matcher::Equal, id@),
        Simple::Class(class) => has_attr(e, "class"@, Matcher::Include, class@),
        Simple::Attribute(name, op, v) => has_attr(e, name@, op, v@),
        Simple::Root => e.tag@ == ":root"@,
        Simple::PseudoClass(class) => m.has(e, class@),
        Simple::PseudoElement(_) => false,
        Simple::Combinator(_) => false,
    }
}
/// assumed of the dependency and the renderer: parents and children of a node with an element have elements, children are distinct
pub open spec fn tree_ok(t: Tree) -> bool {
    &&& forall|n: NodeId| #[trigger] t.elems().contains_key(n) && t.parents().contains_key(n) ==> t.elems().contains_key(t.parents()[n]) && t.kids().contains_key(t.parents()[n])
    &&& forall|p: NodeId, i: int| t.kids().contains_key(p) && 0 <= i < t.kids()[p].len() ==> t.elems().contains_key(#[trigger] t.kids()[p][i])
    &&& forall|p: NodeId, i: int| t.kids().contains_key(p) && 0 <= i < t.kids()[p].len() ==> t.parents().contains_key(#[trigger] t.kids()[p][i]) && t.parents()[t.kids()[p][i]] == p
    &&& forall|p: NodeId| #[trigger] t.kids().contains_key(p) ==> t.kids()[p].no_duplicates()
}
/// the shown sibling immediately before n
pub open spec fn after_at(s: Seq<NodeId>, n: NodeId, i: int) -> bool { 0 < i < s.len() && s[i] == n }
pub open spec fn before(s: Seq<NodeId>, n: NodeId) -> Option<NodeId> {
    if exists|i: int| after_at(s, n, i) { Some(s[(choose|i: int| after_at(s, n, i)) - 1]) } else { None }
}
/// where a combinator leads
pub open spec fn leads(c: char, n: NodeId, t: Tree) -> Option<NodeId> {
    if !t.parents().contains_key(n) { None }
    else if c == '>' { Some(t.parents()[n]) }
    else if c == '+' { before(t.kids()[t.parents()[n]], n) }
    else { None }
}
/// the first k parts of a selector, read from the right, hold at n
pub open spec fn parts_hold<M: PseudoClassMatcher>(parts: Seq<Simple>, k: nat, n: NodeId, t: Tree, m: M) -> bool
    decreases k
{
    if k == 0 || k > parts.len() { true } else {
        match parts[k - 1] {
            Simple::Combinator(c) => match leads(c, n, t) { Some(x) => parts_hold(parts, (k - 1) as nat, x, t, m), None => false },
            part => part_holds(part, t.elems()[n], m) && parts_hold(parts, (k - 1) as nat, n, t, m),
        }
    }
}
pub open spec fn selector_matches<M: PseudoClassMatcher>(s: Complex, n: NodeId, t: Tree, m: M) -> bool { parts_hold(s.selectors@, s.selectors@.len(), n, t, m) }
pub open spec fn rule_applies<M: PseudoClassMatcher>(s: Style, n: NodeId, t: Tree, m: M) -> bool {
    exists|i: int| 0 <= i < s.selectors@.len() && selector_matches(#[trigger] s.selectors@[i], n, t, m)
}

// ---- the functions ----
impl Simple {
//@fn src/css/model.rs Simple::as_combinator
//@ret r
    ensures r == (match *self { Simple::Combinator(c) => Some(c), _ => None }),
//@end
}
//@fn src/css/matching.rs match_class
//@ret r
    ensures r == is_word(classes@, ident@),
//@loop 0 before
    let ghost all = __vx_c0@;
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == all,
        forall|w: Seq<char>| is_word(classes@, w) <==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i])@ == w,
        __vx_r0 ==> is_word(classes@, ident@),
        !__vx_r0 ==> forall|i: int| 0 <= i < __vx_i0 ==> (#[trigger] all[i])@ != ident@,
    decreases __vx_c0@.len() - __vx_i0
//@end
//@fn src/css/matching.rs match_simple_selector
//@generics <M: PseudoClassMatcher>
//@param matcher: &M
//@ret r
    ensures r == part_holds(*component, *element, *matcher),
//@loop 0 before
    let ghost all = __vx_c0@;
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == all,
        forall|w: Seq<char>| is_word(attr@, w) <==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i])@ == w,
        __vx_r0 ==> is_word(attr@, value@),
        !__vx_r0 ==> forall|i: int| 0 <= i < __vx_i0 ==> (#[trigger] all[i])@ != value@,
    decreases __vx_c0@.len() - __vx_i0
//@end
//@fn src/css/matching.rs find_next_target
//@ret r
    requires tree_ok(*tree), tree.elems().contains_key(*old(target)),
    ensures
        match leads(combinator, *old(target), *tree) { Some(x) => r && *final(target) == x, None => !r },
        r ==> tree.elems().contains_key(*final(target)),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(),
        __vx_r0 matches Some(i) ==> i < __vx_c0@.len() && __vx_c0@[i as int] == *target,
        __vx_r0 is None ==> forall|i: int| 0 <= i < __vx_i0 ==> __vx_c0@[i] != *target,
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 after
    proof {
        let s = __vx_c0@;
        assert(s == tree.kids()[tree.parents()[*target]]);
        assert forall|j: int| after_at(s, *target, j) implies __vx_r0 == Some(j as usize) by {}
        match __vx_r0 { Some(i) => { if i > 0 { assert(after_at(s, *target, i as int)); } }, None => {} }
    }
//@end
//@fn src/css/matching.rs match_complex_selector
//@generics <M: PseudoClassMatcher>
//@param matcher: &M
//@ret r
    requires tree_ok(*tree), tree.elems().contains_key(node),
    ensures r == selector_matches(*selector, node, *tree, *matcher),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == selector.selectors@, tree_ok(*tree),
        tree.elems().contains_key(target), *element == tree.elems()[target],
        selector_matches(*selector, node, *tree, *matcher) == parts_hold(selector.selectors@, (__vx_c0@.len() - __vx_i0) as nat, target, *tree, *matcher),
    decreases __vx_c0@.len() - __vx_i0
//@end
//@fn src/css/matching.rs match_style
//@generics <M: PseudoClassMatcher>
//@param matcher: &M
//@ret r
    requires tree_ok(*tree), tree.elems().contains_key(node),
    ensures r == rule_applies(*style, node, *tree, *matcher),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == style.selectors@, tree_ok(*tree), tree.elems().contains_key(node),
        __vx_r0 ==> rule_applies(*style, node, *tree, *matcher),
        !__vx_r0 ==> forall|i: int| 0 <= i < __vx_i0 ==> !selector_matches(#[trigger] style.selectors@[i], node, *tree, *matcher),
    decreases __vx_c0@.len() - __vx_i0
//@end
pub open spec fn in_state(s: ElementState, class: Seq<char>) -> bool {
    (class == "hover"@ && s.hover) || (class == "active"@ && s.active) || (class == "checked"@ && s.checked) || (class == "focus"@ && s.focus)
}
impl PseudoClassMatcher for View {
    open spec fn has(&self, e: Element, class: Seq<char>) -> bool { in_state(e.state, class) }
//@fn src/view.rs PseudoClassMatcher for View::has_pseudo_class
//@ret r
//@start
    proof {
        reveal_strlit("hover"); reveal_strlit("active"); reveal_strlit("checked"); reveal_strlit("focus"); reveal_strlit("blank");
        assert("hover"@.len() == 5 && "active"@.len() == 6 && "checked"@.len() == 7 && "focus"@.len() == 5 && "blank"@.len() == 5);
        assert("hover"@[0] != "focus"@[0] && "hover"@[0] != "blank"@[0] && "focus"@[0] != "blank"@[0]);
    }
//@end
}

// ---- C10: rules are sorted out at load time ----
pub open spec fn is_combinator(p: Simple) -> bool { p is Combinator }
pub open spec fn is_plus(p: Simple) -> bool { p == Simple::Combinator('+') }
pub open spec fn is_id(p: Simple) -> bool { p is Id }
pub open spec fn is_class(p: Simple) -> bool { p is Class }
pub open spec fn is_pseudo(p: Simple) -> bool { p is PseudoClass }
pub open spec fn is_attr_in(p: Simple, names: Set<Seq<char>>) -> bool { match p { Simple::Attribute(name, _, _) => names.contains(name@), _ => false } }
pub open spec fn some_part(s: Style, p: spec_fn(Simple) -> bool) -> bool {
    exists|i: int, j: int| 0 <= i < s.selectors@.len() && 0 <= j < s.selectors@[i].selectors@.len() && p(#[trigger] s.selectors@[i].selectors@[j])
}
impl ElementStyleHints {
//@fn src/element.rs ElementStyleHints::has_dynamic_attrs
//@ret r
    ensures r == exists|k: Seq<char>| self.dynamic_attrs.set().contains(k),
//@end
//@fn src/element.rs ElementStyleHints::has_dynamic_properties
//@ret r
    ensures r == ((exists|k: Seq<char>| self.dynamic_attrs.set().contains(k)) || self.has_dynamic_classes || self.has_dynamic_id),
//@end
//@fn src/element.rs ElementStyleHints::merge
//@ret r
//@rewrite self.dynamic_attrs.union(&other.dynamic_attrs).cloned().collect() => vx_union(&self.dynamic_attrs, &other.dynamic_attrs)
    ensures covers(r, *self), covers(r, *other),
//@end
}
pub open spec fn covers(a: ElementStyleHints, b: ElementStyleHints) -> bool {
    &&& forall|k: Seq<char>| b.dynamic_attrs.set().contains(k) ==> a.dynamic_attrs.set().contains(k)
    &&& b.has_dynamic_classes ==> a.has_dynamic_classes
    &&& b.has_dynamic_id ==> a.has_dynamic_id
}
impl Style {
//@fn src/css/matching.rs Style::has_combinator
//@ret r
    ensures r == some_part(*self, |p: Simple| is_combinator(p)),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == self.selectors@,
        __vx_r0 ==> some_part(*self, |p: Simple| is_combinator(p)),
        !__vx_r0 ==> forall|i: int, j: int| 0 <= i < __vx_i0 && 0 <= j < self.selectors@[i].selectors@.len() ==> !(is_combinator(#[trigger] self.selectors@[i].selectors@[j])),
    decreases __vx_c0@.len() - __vx_i0
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), 0 < __vx_i0 <= self.selectors@.len(), __vx_c1@ == self.selectors@[__vx_i0 - 1].selectors@,
        __vx_r1 ==> some_part(*self, |p: Simple| is_combinator(p)),
        !__vx_r1 ==> forall|j: int| 0 <= j < __vx_i1 ==> !(is_combinator(#[trigger] self.selectors@[__vx_i0 - 1].selectors@[j])),
    decreases __vx_c1@.len() - __vx_i1
//@end
//@fn src/css/matching.rs Style::has_sibling_combinator
//@ret r
    ensures r == some_part(*self, |p: Simple| is_plus(p)),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == self.selectors@,
        __vx_r0 ==> some_part(*self, |p: Simple| is_plus(p)),
        !__vx_r0 ==> forall|i: int, j: int| 0 <= i < __vx_i0 && 0 <= j < self.selectors@[i].selectors@.len() ==> !(is_plus(#[trigger] self.selectors@[i].selectors@[j])),
    decreases __vx_c0@.len() - __vx_i0
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), 0 < __vx_i0 <= self.selectors@.len(), __vx_c1@ == self.selectors@[__vx_i0 - 1].selectors@,
        __vx_r1 ==> some_part(*self, |p: Simple| is_plus(p)),
        !__vx_r1 ==> forall|j: int| 0 <= j < __vx_i1 ==> !(is_plus(#[trigger] self.selectors@[__vx_i0 - 1].selectors@[j])),
    decreases __vx_c1@.len() - __vx_i1
//@end
//@fn src/css/matching.rs Style::has_id_selector
//@ret r
    ensures r == some_part(*self, |p: Simple| is_id(p)),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == self.selectors@,
        __vx_r0 ==> some_part(*self, |p: Simple| is_id(p)),
        !__vx_r0 ==> forall|i: int, j: int| 0 <= i < __vx_i0 && 0 <= j < self.selectors@[i].selectors@.len() ==> !(is_id(#[trigger] self.selectors@[i].selectors@[j])),
    decreases __vx_c0@.len() - __vx_i0
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), 0 < __vx_i0 <= self.selectors@.len(), __vx_c1@ == self.selectors@[__vx_i0 - 1].selectors@,
        __vx_r1 ==> some_part(*self, |p: Simple| is_id(p)),
        !__vx_r1 ==> forall|j: int| 0 <= j < __vx_i1 ==> !(is_id(#[trigger] self.selectors@[__vx_i0 - 1].selectors@[j])),
    decreases __vx_c1@.len() - __vx_i1
//@end
//@fn src/css/matching.rs Style::has_class_selector
//@ret r
    ensures r == some_part(*self, |p: Simple| is_class(p)),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == self.selectors@,
        __vx_r0 ==> some_part(*self, |p: Simple| is_class(p)),
        !__vx_r0 ==> forall|i: int, j: int| 0 <= i < __vx_i0 && 0 <= j < self.selectors@[i].selectors@.len() ==> !(is_class(#[trigger] self.selectors@[i].selectors@[j])),
    decreases __vx_c0@.len() - __vx_i0
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), 0 < __vx_i0 <= self.selectors@.len(), __vx_c1@ == self.selectors@[__vx_i0 - 1].selectors@,
        __vx_r1 ==> some_part(*self, |p: Simple| is_class(p)),
        !__vx_r1 ==> forall|j: int| 0 <= j < __vx_i1 ==> !(is_class(#[trigger] self.selectors@[__vx_i0 - 1].selectors@[j])),
    decreases __vx_c1@.len() - __vx_i1
//@end
//@fn src/css/matching.rs Style::has_attrs_selector
//@ret r
    ensures r == some_part(*self, |p: Simple| is_attr_in(p, attrs.set())),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == self.selectors@,
        __vx_r0 ==> some_part(*self, |p: Simple| is_attr_in(p, attrs.set())),
        !__vx_r0 ==> forall|i: int, j: int| 0 <= i < __vx_i0 && 0 <= j < self.selectors@[i].selectors@.len() ==> !(is_attr_in(#[trigger] self.selectors@[i].selectors@[j], attrs.set())),
    decreases __vx_c0@.len() - __vx_i0
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), 0 < __vx_i0 <= self.selectors@.len(), __vx_c1@ == self.selectors@[__vx_i0 - 1].selectors@,
        __vx_r1 ==> some_part(*self, |p: Simple| is_attr_in(p, attrs.set())),
        !__vx_r1 ==> forall|j: int| 0 <= j < __vx_i1 ==> !(is_attr_in(#[trigger] self.selectors@[__vx_i0 - 1].selectors@[j], attrs.set())),
    decreases __vx_c1@.len() - __vx_i1
//@end
//@fn src/css/matching.rs Style::has_pseudo_class_selector
//@ret r
    ensures r == some_part(*self, |p: Simple| is_pseudo(p)),
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == self.selectors@,
        __vx_r0 ==> some_part(*self, |p: Simple| is_pseudo(p)),
        !__vx_r0 ==> forall|i: int, j: int| 0 <= i < __vx_i0 && 0 <= j < self.selectors@[i].selectors@.len() ==> !(is_pseudo(#[trigger] self.selectors@[i].selectors@[j])),
    decreases __vx_c0@.len() - __vx_i0
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), 0 < __vx_i0 <= self.selectors@.len(), __vx_c1@ == self.selectors@[__vx_i0 - 1].selectors@,
        __vx_r1 ==> some_part(*self, |p: Simple| is_pseudo(p)),
        !__vx_r1 ==> forall|j: int| 0 <= j < __vx_i1 ==> !(is_pseudo(#[trigger] self.selectors@[__vx_i0 - 1].selectors@[j])),
    decreases __vx_c1@.len() - __vx_i1
//@end
}
pub struct Anything;
impl PseudoClassMatcher for Anything {
    open spec fn has(&self, e: Element, class: Seq<char>) -> bool { true }
    #[verifier::external_body]
    fn has_pseudo_class(&self, element: &Element, class: &Text) -> (r: bool) { true }
}
/// a is n or above it
pub open spec fn above(parents: Map<NodeId, NodeId>, a: NodeId, n: NodeId) -> bool
    decreases depth(parents, n) via above_decreases
{
    a == n || (parents.contains_key(n) && above(parents, a, parents[n]))
}
#[via_fn]
proof fn above_decreases(parents: Map<NodeId, NodeId>, a: NodeId, n: NodeId) { if parents.contains_key(n) { axiom_depth(parents, n); } }
/// what may differ later: the attributes the template binds
pub open spec fn later(e0: Element, e1: Element) -> bool {
    &&& e1.tag@ == e0.tag@
    &&& forall|k: Seq<char>| !e0.style_hints.dynamic_attrs.set().contains(k) ==> (#[trigger] e0.attrs.map().contains_key(k)) == e1.attrs.map().contains_key(k) && (e0.attrs.map().contains_key(k) ==> e0.attrs.map()[k]@ == e1.attrs.map()[k]@)
}
/// t1 is a later state of the tree t0 in which n is shown
pub open spec fn follows(t0: Tree, t1: Tree, n: NodeId) -> bool {
    forall|a: NodeId| #[trigger] above(t0.parents(), a, n) ==> later(t0.elems()[a], t1.elems()[a])
        && t0.parents().contains_key(a) == t1.parents().contains_key(a) && (t0.parents().contains_key(a) ==> t0.parents()[a] == t1.parents()[a])
}
/// whatever happens later, the rule applies to n (does not apply to n)
pub open spec fn always(s: Style, n: NodeId, t0: Tree, b: bool) -> bool {
    forall|t1: Tree, m: View| #[trigger] follows(t0, t1, n) ==> #[trigger] rule_applies(s, n, t1, m) == b
}
/// the list kept for an element stands for the whole style sheet
pub open spec fn stands_for(list: Seq<ElementStyle>, css: Seq<Style>, n: NodeId, t0: Tree) -> bool
    decreases css.len()
{
    if css.len() == 0 { list.len() == 0 } else {
        let s = css.last();
        ||| list.len() > 0 && list.last() == ElementStyle::Dynamic(s) && stands_for(list.drop_last(), css.drop_last(), n, t0)
        ||| list.len() > 0 && list.last() == ElementStyle::Static(s) && always(s, n, t0, true) && stands_for(list.drop_last(), css.drop_last(), n, t0)
        ||| always(s, n, t0, false) && stands_for(list, css.drop_last(), n, t0)
    }
}
/// the rules that apply now, chosen from the kept list
pub open spec fn chosen(list: Seq<ElementStyle>, n: NodeId, t: Tree, m: View) -> Seq<Style>
    decreases list.len()
{
    if list.len() == 0 { seq![] } else {
        let before = chosen(list.drop_last(), n, t, m);
        match list.last() {
            ElementStyle::Static(s) => before.push(s),
            ElementStyle::Dynamic(s) => if rule_applies(s, n, t, m) { before.push(s) } else { before },
        }
    }
}
/// the rules of the style sheet that apply now
pub open spec fn matching(css: Seq<Style>, n: NodeId, t: Tree, m: View) -> Seq<Style>
    decreases css.len()
{
    if css.len() == 0 { seq![] } else {
        let before = matching(css.drop_last(), n, t, m);
        if rule_applies(css.last(), n, t, m) { before.push(css.last()) } else { before }
    }
}
/// C10: the kept list chooses, in every later state, exactly the rules of the style sheet that apply then
pub proof fn c10(list: Seq<ElementStyle>, css: Seq<Style>, n: NodeId, t0: Tree, t1: Tree, m: View)
    requires stands_for(list, css, n, t0), follows(t0, t1, n),
    ensures chosen(list, n, t1, m) == matching(css, n, t1, m),
    decreases css.len()
{
    if css.len() > 0 {
        let s = css.last();
        let r = rule_applies(s, n, t1, m);
        if always(s, n, t0, false) && stands_for(list, css.drop_last(), n, t0) {
            assert(!r);
            c10(list, css.drop_last(), n, t0, t1, m);
        } else {
            c10(list.drop_last(), css.drop_last(), n, t0, t1, m);
        }
    }
}
pub open spec fn same_looks(t0: Tree, t1: Tree) -> bool {
    &&& t0.parents() == t1.parents() && t0.kids() == t1.kids()
    &&& forall|n: NodeId| #[trigger] t0.elems().contains_key(n) == t1.elems().contains_key(n)
    &&& forall|n: NodeId| (#[trigger] t1.elems()[n]).tag == t0.elems()[n].tag && t1.elems()[n].attrs == t0.elems()[n].attrs && t1.elems()[n].style_hints == t0.elems()[n].style_hints
}
proof fn stands_for_frame(list: Seq<ElementStyle>, css: Seq<Style>, n: NodeId, t0: Tree, t1: Tree)
    requires stands_for(list, css, n, t0), same_looks(t0, t1),
    ensures stands_for(list, css, n, t1),
    decreases css.len()
{
    if css.len() > 0 {
        let s = css.last();
        assert forall|b: bool| always(s, n, t0, b) implies #[trigger] always(s, n, t1, b) by { always_frame(s, n, t0, t1, b); }
        if always(s, n, t0, false) && stands_for(list, css.drop_last(), n, t0) { stands_for_frame(list, css.drop_last(), n, t0, t1); }
        else { stands_for_frame(list.drop_last(), css.drop_last(), n, t0, t1); }
    }
}
proof fn always_frame(s: Style, n: NodeId, t0: Tree, t1: Tree, b: bool)
    requires always(s, n, t0, b), same_looks(t0, t1),
    ensures always(s, n, t1, b),
{
    assert forall|t: Tree, m: View| #[trigger] follows(t1, t, n) implies #[trigger] rule_applies(s, n, t, m) == b by {
        assert(follows(t0, t, n)) by {
            assert forall|a: NodeId| #[trigger] above(t0.parents(), a, n) implies later(t0.elems()[a], t.elems()[a])
                && t0.parents().contains_key(a) == t.parents().contains_key(a) && (t0.parents().contains_key(a) ==> t0.parents()[a] == t.parents()[a]) by {
                assert(above(t1.parents(), a, n));
                assert(t1.elems()[a].tag == t0.elems()[a].tag);
            }
        }
    }
}
/// assumed of the renderer: the hints of an element name its bound attributes
pub open spec fn hints_ok(t: Tree) -> bool {
    forall|n: NodeId| (#[trigger] t.elems()[n]).style_hints.dynamic_attrs.set().contains("class"@) ==> t.elems()[n].style_hints.has_dynamic_classes
} 
pub open spec fn hints_ok_id(t: Tree) -> bool {
    forall|n: NodeId| (#[trigger] t.elems()[n]).style_hints.dynamic_attrs.set().contains("id"@) ==> t.elems()[n].style_hints.has_dynamic_id
}
pub open spec fn covers_above(h: ElementStyleHints, t: Tree, n: NodeId) -> bool {
    forall|a: NodeId| #[trigger] above(t.parents(), a, n) ==> covers(h, t.elems()[a].style_hints)
}
/// no bound attribute matters to this part, nor do siblings
pub open spec fn independent(p: Simple, h: ElementStyleHints) -> bool {
    !is_plus(p) && !is_attr_in(p, h.dynamic_attrs.set()) && (h.has_dynamic_classes ==> !is_class(p)) && (h.has_dynamic_id ==> !is_id(p))
}
proof fn above_up(parents: Map<NodeId, NodeId>, x: NodeId, n: NodeId)
    requires above(parents, x, n), parents.contains_key(x),
    ensures above(parents, parents[x], n),
    decreases depth(parents, n)
{
    assert(above(parents, parents[x], parents[x]));
    if x != n { axiom_depth(parents, n); above_up(parents, x, parents[n]); }
}
proof fn part_later(p: Simple, e0: Element, e1: Element, h: ElementStyleHints, m: View)
    requires
        later(e0, e1), covers(h, e0.style_hints), independent(p, h), !is_combinator(p),
        e0.style_hints.dynamic_attrs.set().contains("class"@) ==> e0.style_hints.has_dynamic_classes,
        e0.style_hints.dynamic_attrs.set().contains("id"@) ==> e0.style_hints.has_dynamic_id,
    ensures
        part_holds(p, e1, m) ==> part_holds(p, e0, Anything),
        !is_pseudo(p) ==> part_holds(p, e1, m) == part_holds(p, e0, Anything),
{
    let k = match p { Simple::Id(_) => "id"@, Simple::Class(_) => "class"@, Simple::Attribute(name, _, _) => name@, _ => "id"@ };
    assert(!e0.style_hints.dynamic_attrs.set().contains(k) || !(p is Id || p is Class || p is Attribute));
    if p is Id || p is Class || p is Attribute { assert(e0.attrs.map().contains_key(k) == e1.attrs.map().contains_key(k)); }
    match p { Simple::Id(_) => {}, Simple::Class(_) => {}, Simple::Attribute(_, _, _) => {}, Simple::PseudoClass(c) => { assert(Anything.has(e0, c@)); }, _ => {} }
}
proof fn parts_later(parts: Seq<Simple>, k: nat, x: NodeId, n: NodeId, t0: Tree, t1: Tree, h: ElementStyleHints, m: View)
    requires
        k <= parts.len(), above(t0.parents(), x, n), follows(t0, t1, n), hints_ok(t0), hints_ok_id(t0), tree_ok(t0), t0.elems().contains_key(x),
        forall|j: int| 0 <= j < parts.len() ==> independent(#[trigger] parts[j], h),
        covers(h, t0.elems()[x].style_hints),
        (exists|j: int| 0 <= j < parts.len() && is_combinator(#[trigger] parts[j])) ==> covers_above(h, t0, n),
    ensures
        parts_hold(parts, k, x, t1, m) ==> parts_hold(parts, k, x, t0, Anything),
        (forall|j: int| 0 <= j < parts.len() ==> !is_pseudo(#[trigger] parts[j])) ==> parts_hold(parts, k, x, t1, m) == parts_hold(parts, k, x, t0, Anything),
    decreases k
{
    if k > 0 {
        let p = parts[k - 1];
        assert(independent(p, h));
        match p {
            Simple::Combinator(c) => {
                assert(is_combinator(parts[k - 1]));
                assert(leads(c, x, t1) == leads(c, x, t0));
                if let Some(y) = leads(c, x, t0) {
                    above_up(t0.parents(), x, n);
                    parts_later(parts, (k - 1) as nat, y, n, t0, t1, h, m);
                }
            }
            _ => {
                part_later(p, t0.elems()[x], t1.elems()[x], h, m);
                parts_later(parts, (k - 1) as nat, x, n, t0, t1, h, m);
            }
        }
    }
}
/// a rule that depends on nothing bound is settled at load time, up to the state pseudo classes
proof fn settled(s: Style, n: NodeId, t0: Tree, h: ElementStyleHints)
    requires
        hints_ok(t0), hints_ok_id(t0), tree_ok(t0), t0.elems().contains_key(n),
        forall|i: int, j: int| 0 <= i < s.selectors@.len() && 0 <= j < s.selectors@[i].selectors@.len() ==> independent(#[trigger] s.selectors@[i].selectors@[j], h),
        covers(h, t0.elems()[n].style_hints),
        some_part(s, |p: Simple| is_combinator(p)) ==> covers_above(h, t0, n),
    ensures
        !rule_applies(s, n, t0, Anything) ==> always(s, n, t0, false),
        rule_applies(s, n, t0, Anything) && !some_part(s, |p: Simple| is_pseudo(p)) ==> always(s, n, t0, true),
{
    let pseudo = some_part(s, |p: Simple| is_pseudo(p));
    assert forall|t1: Tree, m: View| #[trigger] follows(t0, t1, n) implies
        (#[trigger] rule_applies(s, n, t1, m) ==> rule_applies(s, n, t0, Anything)) && (!pseudo ==> rule_applies(s, n, t1, m) == rule_applies(s, n, t0, Anything)) by {
        assert forall|i: int| 0 <= i < s.selectors@.len() implies
            (selector_matches(#[trigger] s.selectors@[i], n, t1, m) ==> selector_matches(s.selectors@[i], n, t0, Anything))
            && (!pseudo ==> selector_matches(s.selectors@[i], n, t1, m) == selector_matches(s.selectors@[i], n, t0, Anything)) by {
            let parts = s.selectors@[i].selectors@;
            assert forall|j: int| 0 <= j < parts.len() implies independent(#[trigger] parts[j], h) by { assert(independent(s.selectors@[i].selectors@[j], h)); }
            if exists|j: int| 0 <= j < parts.len() && is_combinator(#[trigger] parts[j]) {
                let j = choose|j: int| 0 <= j < parts.len() && is_combinator(#[trigger] parts[j]);
                assert(is_combinator(s.selectors@[i].selectors@[j]));
            }
            if !pseudo { assert forall|j: int| 0 <= j < parts.len() implies !is_pseudo(#[trigger] parts[j]) by { assert(!is_pseudo(s.selectors@[i].selectors@[j])); } }
            parts_later(parts, parts.len(), n, n, t0, t1, h, m);
        }
    }
}
proof fn tree_ok_frame(t0: Tree, t1: Tree)
    requires tree_ok(t0), same_looks(t0, t1),
    ensures tree_ok(t1), hints_ok(t0) ==> hints_ok(t1), hints_ok_id(t0) ==> hints_ok_id(t1), forall|h: ElementStyleHints, n: NodeId| covers_above(h, t0, n) ==> #[trigger] covers_above(h, t1, n),
{
    assert forall|n: NodeId| #[trigger] t1.elems().contains_key(n) implies t0.elems().contains_key(n) by {}
    assert forall|p: NodeId, i: int| t1.kids().contains_key(p) && 0 <= i < t1.kids()[p].len() implies t1.elems().contains_key(#[trigger] t1.kids()[p][i]) by { assert(t0.elems().contains_key(t0.kids()[p][i])); }
    assert forall|n: NodeId| #[trigger] t1.elems().contains_key(n) && t1.parents().contains_key(n) implies t1.elems().contains_key(t1.parents()[n]) && t1.kids().contains_key(t1.parents()[n]) by { assert(t0.elems().contains_key(t0.parents()[n])); }
    assert forall|p: NodeId, i: int| t1.kids().contains_key(p) && 0 <= i < t1.kids()[p].len() implies t1.parents().contains_key(#[trigger] t1.kids()[p][i]) && t1.parents()[t1.kids()[p][i]] == p by { assert(t0.parents().contains_key(t0.kids()[p][i])); }
    if hints_ok(t0) { assert forall|n: NodeId| (#[trigger] t1.elems()[n]).style_hints.dynamic_attrs.set().contains("class"@) implies t1.elems()[n].style_hints.has_dynamic_classes by { assert(t0.elems()[n].style_hints.dynamic_attrs.set().contains("class"@)); } }
    if hints_ok_id(t0) { assert forall|n: NodeId| (#[trigger] t1.elems()[n]).style_hints.dynamic_attrs.set().contains("id"@) implies t1.elems()[n].style_hints.has_dynamic_id by { assert(t0.elems()[n].style_hints.dynamic_attrs.set().contains("id"@)); } }
    assert forall|h: ElementStyleHints, n: NodeId| covers_above(h, t0, n) implies #[trigger] covers_above(h, t1, n) by {
        assert forall|a: NodeId| #[trigger] above(t1.parents(), a, n) implies covers(h, t1.elems()[a].style_hints) by { assert(above(t0.parents(), a, n)); assert(t1.elems()[a].style_hints == t0.elems()[a].style_hints); }
    }
}
proof fn parts_frame(parts: Seq<Simple>, k: nat, n: NodeId, t0: Tree, t1: Tree)
    requires same_looks(t0, t1),
    ensures parts_hold(parts, k, n, t1, Anything) == parts_hold(parts, k, n, t0, Anything),
    decreases k
{
    if k == 0 || k > parts.len() {} else {
        assert(t1.elems()[n].tag == t0.elems()[n].tag);
        match parts[k - 1] {
            Simple::Combinator(c) => { assert(leads(c, n, t1) == leads(c, n, t0)); if let Some(x) = leads(c, n, t0) { parts_frame(parts, (k - 1) as nat, x, t0, t1); } }
            _ => { parts_frame(parts, (k - 1) as nat, n, t0, t1); }
        }
    }
}
proof fn rule_frame(s: Style, n: NodeId, t0: Tree, t1: Tree)
    requires same_looks(t0, t1),
    ensures rule_applies(s, n, t1, Anything) == rule_applies(s, n, t0, Anything),
{
    assert forall|i: int| 0 <= i < s.selectors@.len() implies selector_matches(#[trigger] s.selectors@[i], n, t1, Anything) == selector_matches(s.selectors@[i], n, t0, Anything) by {
        parts_frame(s.selectors@[i].selectors@, s.selectors@[i].selectors@.len(), n, t0, t1);
    }
}
pub open spec fn free_of(s: Style, h: ElementStyleHints) -> bool {
    &&& !some_part(s, |p: Simple| is_plus(p))
    &&& (exists|k: Seq<char>| h.dynamic_attrs.set().contains(k)) ==> !some_part(s, |p: Simple| is_attr_in(p, h.dynamic_attrs.set()))
    &&& h.has_dynamic_classes ==> !some_part(s, |p: Simple| is_class(p))
    &&& h.has_dynamic_id ==> !some_part(s, |p: Simple| is_id(p))
}
proof fn settled_if(s: Style, n: NodeId, t0: Tree, own: ElementStyleHints, chain: ElementStyleHints)
    requires hints_ok(t0), hints_ok_id(t0), tree_ok(t0), t0.elems().contains_key(n), covers(own, t0.elems()[n].style_hints), covers_above(chain, t0, n),
    ensures
        (free_of(s, chain) || (!some_part(s, |p: Simple| is_combinator(p)) && free_of(s, own))) ==> {
            &&& !rule_applies(s, n, t0, Anything) ==> always(s, n, t0, false)
            &&& rule_applies(s, n, t0, Anything) && !some_part(s, |p: Simple| is_pseudo(p)) ==> always(s, n, t0, true)
        },
{
    assert(above(t0.parents(), n, n));
    let h = if free_of(s, chain) { chain } else { own };
    if free_of(s, h) && (h == chain || !some_part(s, |p: Simple| is_combinator(p))) {
        assert forall|i: int, j: int| 0 <= i < s.selectors@.len() && 0 <= j < s.selectors@[i].selectors@.len() implies independent(#[trigger] s.selectors@[i].selectors@[j], h) by {
            let p = s.selectors@[i].selectors@[j];
            assert(!is_plus(p));
            if is_attr_in(p, h.dynamic_attrs.set()) { assert(some_part(s, |p: Simple| is_attr_in(p, h.dynamic_attrs.set()))); }
            if is_class(p) { assert(some_part(s, |p: Simple| is_class(p))); }
            if is_id(p) { assert(some_part(s, |p: Simple| is_id(p))); }
        }
        settled(s, n, t0, h);
    }
}
proof fn extends(before: Seq<ElementStyle>, after: Seq<ElementStyle>, css: Seq<Style>, i: int, n: NodeId, t0: Tree)
    requires
        0 <= i < css.len(), stands_for(before, css.take(i), n, t0),
        (after == before && always(css[i], n, t0, false)) || after =~= before.push(ElementStyle::Dynamic(css[i])) || (after =~= before.push(ElementStyle::Static(css[i])) && always(css[i], n, t0, true)),
    ensures stands_for(after, css.take(i + 1), n, t0),
{
    let c = css.take(i + 1);
    assert(c.drop_last() =~= css.take(i));
    assert(c.last() == css[i]);
    if after.len() > 0 && after != before { assert(after.drop_last() =~= before); }
}
pub open spec fn kept_below(e0: Map<NodeId, Element>, e1: Map<NodeId, Element>, css: Seq<Style>, n: NodeId, t0: Tree) -> bool {
    e0[n].styles@.len() <= e1[n].styles@.len() && stands_for(e1[n].styles@.skip(e0[n].styles@.len() as int), css, n, t0)
}
impl View {
//@fn src/view.rs View::calculate_elements_stylesheet
//@ret r
//@rewrite struct Matcher ; impl PseudoClassMatcher for Matcher { fn has_pseudo_class(&self, _element: &Element, _class: &str) -> bool { true } } => let _ = 0;
//@rewrite &Matcher => &Anything
    requires
        tree_ok(old(self).tree), hints_ok(old(self).tree), hints_ok_id(old(self).tree), old(self).tree.elems().contains_key(node),
        old(self).tree.parents().contains_key(node) ==> covers_above(*ancestors_hints, old(self).tree, old(self).tree.parents()[node]),
    ensures
        final(self).css == old(self).css, same_looks(old(self).tree, final(self).tree),
        r is Ok ==> forall|m: NodeId| below(old(self).tree.kids(), node, m) ==> #[trigger] kept_below(old(self).tree.elems(), final(self).tree.elems(), old(self).css.styles@, m, old(self).tree),
        r is Ok ==> forall|m: NodeId| !below(old(self).tree.kids(), node, m) ==> #[trigger] final(self).tree.elems()[m] == old(self).tree.elems()[m],
    decreases height(old(self).tree.kids(), node)
//@start
    let ghost t0 = self.tree;
    let ghost e0 = self.tree.elems();
    let ghost kids = self.tree.kids();
//@loop 0 before
    proof {
        assert forall|a: NodeId| #[trigger] above(t0.parents(), a, node) implies covers(chain_hints, t0.elems()[a].style_hints) by {
            if a != node { assert(above(t0.parents(), a, t0.parents()[node])); assert(covers(*ancestors_hints, t0.elems()[a].style_hints)); } else { assert(covers(chain_hints, element_hints)); }
        }
        assert(e0[node].styles@.skip(e0[node].styles@.len() as int) =~= seq![]);
    }
//@loop 0 start
    let ghost i = __vx_i0 as int;
    let ghost list = self.tree.elems()[node].styles@;
    proof {
        let s = self.css.styles@[i];
        tree_ok_frame(t0, self.tree);
        rule_frame(s, node, t0, self.tree);
        settled_if(s, node, t0, element_hints, chain_hints);
    }
//@loop 0 end
    proof {
        let css = self.css.styles@;
        let now = self.tree.elems()[node].styles@;
        let len = e0[node].styles@.len() as int;
        assert(now =~= list || (now =~= list.push(now.last())));
        if now != list { assert(now.skip(len) =~= list.skip(len).push(now.last())); }
        extends(list.skip(len), now.skip(len), css, i, node, t0);
    }
//@loop 1 before
    proof { assert(self.css.styles@.take(self.css.styles@.len() as int) =~= self.css.styles@); }
//@loop 1 start
    let ghost before = self.tree;
    let ghost k = __vx_i1;
    proof {
        axiom_height(kids, node, k as int);
        tree_ok_frame(t0, self.tree);
    }
//@loop 1 end
    proof {
        let e1 = self.tree.elems();
        let css = self.css.styles@;
        assert(!below(kids, child, node)) by { if below(kids, child, node) { axiom_parent(kids, node, k as int, node); } }
        assert forall|m: NodeId| below_some(kids, node, __vx_i1 as nat, m) implies #[trigger] kept_below(e0, e1, css, m, t0) by {
            if below(kids, child, m) {
                axiom_parent(kids, node, k as int, m);
                assert(before.elems()[m] == e0[m]);
                assert(kept_below(before.elems(), e1, css, m, before));
                stands_for_frame(e1[m].styles@.skip(e0[m].styles@.len() as int), css, m, before, t0);
            } else {
                assert(kept_below(e0, before.elems(), css, m, t0));
                assert(e1[m] == before.elems()[m]);
            }
        }
        assert(e1[node] == before.elems()[node]);
    }
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == self.css.styles@,
        self.css == old(self).css, t0 == old(self).tree, e0 == t0.elems(), kids == t0.kids(), same_looks(t0, self.tree),
        tree_ok(t0), hints_ok(t0), hints_ok_id(t0), t0.elems().contains_key(node),
        covers(element_hints, e0[node].style_hints), covers_above(chain_hints, t0, node),
        forall|m: NodeId| m != node ==> #[trigger] self.tree.elems()[m] == e0[m],
        e0[node].styles@.len() <= self.tree.elems()[node].styles@.len(),
        stands_for(self.tree.elems()[node].styles@.skip(e0[node].styles@.len() as int), self.css.styles@.take(__vx_i0 as int), node, t0),
    decreases __vx_c0@.len() - __vx_i0
//@loop 1
    invariant
        __vx_i1 <= __vx_c1@.len(), __vx_c1@ == kids[node], kids.contains_key(node),
        self.css == old(self).css, t0 == old(self).tree, e0 == t0.elems(), kids == t0.kids(), same_looks(t0, self.tree),
        tree_ok(t0), hints_ok(t0), hints_ok_id(t0), t0.elems().contains_key(node),
        covers_above(chain_hints, t0, node),
        kept_below(e0, self.tree.elems(), self.css.styles@, node, t0),
        forall|m: NodeId| below_some(kids, node, __vx_i1 as nat, m) ==> #[trigger] kept_below(e0, self.tree.elems(), self.css.styles@, m, t0),
        forall|m: NodeId| m != node && !below_some(kids, node, __vx_i1 as nat, m) ==> #[trigger] self.tree.elems()[m] == e0[m],
    decreases __vx_c1@.len() - __vx_i1
//@end
}
fn main() {}
}
