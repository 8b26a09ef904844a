use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C04: shown children keep document order (update_tree, the cases Reattach and Repeat)
//@texts
//@include prelude.inc
//@include texts.inc
//@type TaffyTree<Element> => Tree
//@type HashMap<String, String> => Dict<Text>
pub enum ViewError { ElementNotFound(NodeId), ChildNotFound(NodeId), ElementTextContentNotFound, AttributeBindingNotFound(Text), Other }
//@item src/element.rs Element keep node,children
//@include tree.inc
//@item src/view_model.rs Reaction
//@item src/view.rs View keep tree
impl Tree {
    #[verifier::external_body]
    pub fn insert_child_at_index(&mut self, parent: NodeId, index: usize, node: NodeId) -> (r: Result<(), ViewError>)
        requires old(self).kids().contains_key(parent), index <= old(self).kids()[parent].len(),
        ensures r is Ok, final(self).elems() == old(self).elems(), final(self).kids() == old(self).kids().insert(parent, old(self).kids()[parent].insert(index as int, node)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_child_at_index(&mut self, parent: NodeId, index: usize) -> (r: Result<NodeId, ViewError>)
        requires old(self).kids().contains_key(parent), index < old(self).kids()[parent].len(),
        ensures r is Ok, final(self).elems() == old(self).elems(), final(self).kids() == old(self).kids().insert(parent, old(self).kids()[parent].remove(index as int)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_child(&mut self, parent: NodeId, node: NodeId) -> (r: Result<NodeId, ViewError>)
        requires old(self).kids().contains_key(parent), old(self).kids()[parent].contains(node),
        ensures
            r is Ok, final(self).elems() == old(self).elems(),
            final(self).kids() == old(self).kids().insert(parent, old(self).kids()[parent].remove(old(self).kids()[parent].index_of(node))),
    { unimplemented!() }
}
// ---- the property ----
/// the shown children are children of the document, in its order and without repetition
pub open spec fn in_order(shown: Seq<NodeId>, all: Seq<NodeId>) -> bool {
    &&& all.no_duplicates()
    &&& forall|i: int| 0 <= i < shown.len() ==> all.contains(#[trigger] shown[i])
    &&& forall|i: int, j: int| 0 <= i < j < shown.len() ==> rank(all, #[trigger] shown[i]) < rank(all, #[trigger] shown[j])
}
pub open spec fn rank(all: Seq<NodeId>, n: NodeId) -> int { all.index_of(n) }
pub open spec fn among(all: Seq<NodeId>, n: NodeId, start: int, end: int) -> bool { all.contains(n) && start <= rank(all, n) < end }
/// what a reaction asks for
pub open spec fn shown_after(r: Reaction, all: Seq<NodeId>, before: bool, n: NodeId) -> bool {
    match r {
        Reaction::Reattach { node, visible, .. } => if n == node { visible } else { before },
        Reaction::Repeat { start, cursor, end, .. } => if among(all, n, start as int, end as int) { rank(all, n) < cursor } else { before },
        _ => before,
    }
}
pub open spec fn parent_of(r: Reaction) -> NodeId {
    match r { Reaction::Reattach { parent, .. } => parent, Reaction::Repeat { parent, .. } => parent, _ => NodeId(0) }
}
pub open spec fn fits(r: Reaction, all: Seq<NodeId>) -> bool {
    match r {
        Reaction::Reattach { node, .. } => all.contains(node),
        Reaction::Repeat { start, cursor, end, .. } => start <= cursor <= end <= all.len(),
        _ => false,
    }
}
proof fn rank_at(all: Seq<NodeId>, i: int)
    requires all.no_duplicates(), 0 <= i < all.len(),
    ensures rank(all, all[i]) == i,
{ assert(all.contains(all[i])); }
proof fn rank_of(all: Seq<NodeId>, n: NodeId)
    requires all.contains(n),
    ensures 0 <= rank(all, n) < all.len(), all[rank(all, n)] == n,
{}
proof fn rank_from(shown: Seq<NodeId>, all: Seq<NodeId>, i: int)
    requires in_order(shown, all), 0 <= i < shown.len(),
    ensures i <= rank(all, shown[i]) < all.len(), i < all.len(),
    decreases i
{
    assert(all.contains(shown[i]));
    if i > 0 { rank_from(shown, all, i - 1); }
}
proof fn prefix_rank(all: Seq<NodeId>, k: int, n: NodeId)
    requires all.no_duplicates(), all.contains(n), 0 <= k <= all.len(),
    ensures all.subrange(0, k).contains(n) == (rank(all, n) < k),
{
    let p = all.subrange(0, k);
    if p.contains(n) { let i = choose|i: int| 0 <= i < p.len() && p[i] == n; rank_at(all, i); }
    if rank(all, n) < k { assert(p[rank(all, n)] == n); }
}
proof fn insert_order(shown: Seq<NodeId>, all: Seq<NodeId>, i: int, n: NodeId)
    requires
        in_order(shown, all), all.contains(n), 0 <= i <= shown.len(),
        i > 0 ==> rank(all, shown[i - 1]) < rank(all, n), i < shown.len() ==> rank(all, n) < rank(all, shown[i]),
    ensures
        in_order(shown.insert(i, n), all), forall|x: NodeId| #[trigger] shown.insert(i, n).contains(x) == (shown.contains(x) || x == n),
{
    let s = shown.insert(i, n);
    assert forall|j: int| 0 <= j < s.len() implies all.contains(#[trigger] s[j]) by { if j < i { assert(s[j] == shown[j]); } else if j > i { assert(s[j] == shown[j - 1]); } }
    assert forall|j: int, k: int| 0 <= j < k < s.len() implies rank(all, #[trigger] s[j]) < rank(all, #[trigger] s[k]) by {
        if j < i { assert(s[j] == shown[j]); } else if j > i { assert(s[j] == shown[j - 1]); }
        if k < i { assert(s[k] == shown[k]); } else if k > i { assert(s[k] == shown[k - 1]); }
    }
    assert forall|x: NodeId| #[trigger] s.contains(x) == (shown.contains(x) || x == n) by {
        if shown.contains(x) { let j = choose|j: int| 0 <= j < shown.len() && shown[j] == x; if j < i { assert(s[j] == x); } else { assert(s[j + 1] == x); } }
        if x == n { assert(s[i] == x); }
    }
}
proof fn remove_order(shown: Seq<NodeId>, all: Seq<NodeId>, i: int)
    requires in_order(shown, all), 0 <= i < shown.len(),
    ensures
        in_order(shown.remove(i), all), forall|x: NodeId| #[trigger] shown.remove(i).contains(x) == (shown.contains(x) && x != shown[i]),
{
    let s = shown.remove(i);
    assert forall|j: int| 0 <= j < s.len() implies all.contains(#[trigger] s[j]) by { if j < i { assert(s[j] == shown[j]); } else { assert(s[j] == shown[j + 1]); } }
    assert forall|j: int, k: int| 0 <= j < k < s.len() implies rank(all, #[trigger] s[j]) < rank(all, #[trigger] s[k]) by {
        if j < i { assert(s[j] == shown[j]); } else { assert(s[j] == shown[j + 1]); }
        if k < i { assert(s[k] == shown[k]); } else { assert(s[k] == shown[k + 1]); }
    }
    assert forall|x: NodeId| #[trigger] s.contains(x) == (shown.contains(x) && x != shown[i]) by {
        if shown.contains(x) && x != shown[i] { let j = choose|j: int| 0 <= j < shown.len() && shown[j] == x; if j < i { assert(s[j] == x); } else { assert(s[j - 1] == x); } }
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < i { assert(shown[j] == x); } else { assert(shown[j + 1] == x); } }
    }
}
pub open spec fn others_kept(k1: Map<NodeId, Seq<NodeId>>, k0: Map<NodeId, Seq<NodeId>>, p: NodeId) -> bool {
    forall|q: NodeId| #![trigger k1.contains_key(q)] #![trigger k1[q]] q != p ==> k1.contains_key(q) == k0.contains_key(q) && k1[q] == k0[q]
}
pub open spec fn found(s: Seq<NodeId>, upto: int, n: NodeId, r: Option<usize>) -> bool {
    match r { Some(i) => i < s.len() && s[i as int] == n, None => forall|i: int| 0 <= i < upto ==> s[i] != n }
}
impl View {
//@fn src/view.rs View::update_tree
//@rename update_children
//@arms Reattach, Repeat
//@option result map 0
//@option result map 1
//@ret r
    requires
        ({
            let p = parent_of(reaction);
            let t = old(self).tree;
            t.elems().contains_key(p) && t.kids().contains_key(p) && fits(reaction, t.elems()[p].children@) && in_order(t.kids()[p], t.elems()[p].children@)
        }),
    ensures
        r is Ok,
        final(self).tree.elems() == old(self).tree.elems(),
        ({
            let p = parent_of(reaction);
            let all = old(self).tree.elems()[p].children@;
            let k0 = old(self).tree.kids()[p];
            let k1 = final(self).tree.kids()[p];
            &&& in_order(k1, all)
            &&& forall|n: NodeId| #[trigger] k1.contains(n) == shown_after(reaction, all, k0.contains(n), n)
            &&& others_kept(final(self).tree.kids(), old(self).tree.kids(), p)
        }),
//@start
    let ghost p = parent_of(reaction);
    let ghost all = self.tree.elems()[p].children@;
    let ghost k0 = self.tree.kids()[p];
    let ghost kids0 = self.tree.kids();
//@loop 0
    invariant __vx_i0 <= __vx_c0@.len(), __vx_c0@ == all, found(all, __vx_i0 as int, node, __vx_r0),
    decreases __vx_c0@.len() - __vx_i0
//@loop 1
    invariant __vx_i1 <= __vx_c1@.len(), __vx_c1@ == k0, found(k0, __vx_i1 as int, node, __vx_r1),
    decreases __vx_c1@.len() - __vx_i1
//@loop 2 before
    proof {
        rank_at(all, definition_index as int);
        assert forall|j: int| index <= j < k0.len() implies rank(all, #[trigger] k0[j]) > definition_index by {
            rank_from(k0, all, j);
            assert(k0[j] != node);
            if rank(all, k0[j]) == definition_index { rank_of(all, k0[j]); }
        }
    }
//@loop 2
    invariant_except_break
        index <= k0.len(),
        forall|j: int| index <= j < k0.len() ==> rank(all, #[trigger] k0[j]) > definition_index,
    invariant
        current@ == k0, definition@ == all, in_order(k0, all), definition_index < all.len(), all[definition_index as int] == node, rank(all, node) == definition_index,
        forall|j: int| 0 <= j < k0.len() ==> k0[j] != node,
    ensures
        index <= k0.len(),
        forall|j: int| index <= j < k0.len() ==> rank(all, #[trigger] k0[j]) > definition_index,
        index > 0 ==> rank(all, k0[index - 1]) < definition_index,
    decreases index
//@loop 3
    invariant __vx_i3 <= __vx_c3@.len(), __vx_c3@ == all, found(all, __vx_i3 as int, sibling, __vx_r3),
    decreases __vx_c3@.len() - __vx_i3
//@loop 3 after
    proof {
        assert(all.contains(k0[index as int]));
        if let Some(i) = __vx_r3 { rank_at(all, i as int); }
        if rank(all, sibling) == definition_index { rank_of(all, sibling); }
    }
//@before call insert_child_at_index 0
    proof { insert_order(k0, all, index as int, node); }
//@before call remove_child_at_index 0
    proof { remove_order(k0, all, current_index as int); }
//@after call children 1
    proof { assert(self.tree.elems() =~= old(self).tree.elems()); }
//@loop 4
    invariant_except_break
        index == __vx_i4,
    invariant
        __vx_i4 <= __vx_c4@.len(), __vx_c4@ == k0, children@ == all, in_order(k0, all), start <= all.len(), index <= k0.len(),
        forall|j: int| 0 <= j < index ==> rank(all, #[trigger] k0[j]) < start,
    ensures
        forall|j: int| index <= j < k0.len() ==> rank(all, #[trigger] k0[j]) >= start,
    decreases __vx_c4@.len() - __vx_i4
//@loop 4 start
    proof { assert(all.contains(k0[__vx_i4 as int])); prefix_rank(all, start as int, k0[__vx_i4 as int]); }
//@loop 5 before
    let ghost index0 = index;
//@loop 5
    invariant
        __vx_i5 <= __vx_c5@.len(), __vx_c5@ == all.subrange(start as int, cursor as int), start <= cursor <= all.len(), all.len() <= usize::MAX,
        visible@ == k0, in_order(k0, all), kids0 == old(self).tree.kids(), k0 == kids0[parent],
        self.tree.elems() == old(self).tree.elems(), self.tree.kids().contains_key(parent),
        others_kept(self.tree.kids(), kids0, parent),
        in_order(self.tree.kids()[parent], all), index <= self.tree.kids()[parent].len(),
        forall|n: NodeId| #[trigger] self.tree.kids()[parent].contains(n) == (k0.contains(n) || among(all, n, start as int, start + __vx_i5)),
        forall|j: int| 0 <= j < index ==> rank(all, #[trigger] self.tree.kids()[parent][j]) < start + __vx_i5,
        forall|j: int| index <= j < self.tree.kids()[parent].len() ==> rank(all, #[trigger] self.tree.kids()[parent][j]) >= start + __vx_i5,
    decreases __vx_c5@.len() - __vx_i5
//@loop 5 start
    let ghost k = self.tree.kids()[parent];
    let ghost at = index as int;
    let ghost x = all[start + __vx_i5];
    proof {
        rank_at(all, start + __vx_i5);
        assert(x == all.subrange(start as int, cursor as int)[__vx_i5 as int]);
        assert(all.contains(x));
        if k.len() > 0 { rank_from(k, all, k.len() - 1); }
        if k.contains(x) {
            let j = choose|j: int| 0 <= j < k.len() && k[j] == x;
            assert(j >= at);
            if at < j { assert(rank(all, k[at]) >= start + __vx_i5); assert(rank(all, k[at]) < rank(all, k[j])); }
            assert(k[at] == x);
        } else {
            assert forall|j: int| at <= j < k.len() implies rank(all, #[trigger] k[j]) > start + __vx_i5 by {
                assert(k[j] != x);
                assert(all.contains(k[j]));
                if rank(all, k[j]) == start + __vx_i5 { rank_of(all, k[j]); }
            }
            insert_order(k, all, at, x);
        }
    }
//@loop 5 end
    proof {
        let k1 = self.tree.kids()[parent];
        assert forall|j: int| 0 <= j < index implies rank(all, #[trigger] k1[j]) < start + __vx_i5 by { if j < at { assert(k1[j] == k[j]); } else { assert(k1[j] == x); } }
        assert forall|j: int| index <= j < k1.len() implies rank(all, #[trigger] k1[j]) >= start + __vx_i5 by {
            assert(k1[at] == x);
            assert(rank(all, k1[at]) < rank(all, k1[j]));
        }
        assert forall|n: NodeId| #[trigger] k1.contains(n) == (k0.contains(n) || among(all, n, start as int, start + __vx_i5)) by {
            if all.contains(n) && rank(all, n) == start + __vx_i5 - 1 { rank_of(all, n); assert(n == x); }
            assert(k.contains(n) == (k0.contains(n) || among(all, n, start as int, start + __vx_i5 - 1)));
        }
    }
//@loop 6
    invariant
        __vx_i6 <= __vx_c6@.len(), __vx_c6@ == all.subrange(cursor as int, end as int), start <= cursor <= end <= all.len(),
        visible@ == k0, in_order(k0, all), kids0 == old(self).tree.kids(), k0 == kids0[parent],
        self.tree.elems() == old(self).tree.elems(), self.tree.kids().contains_key(parent),
        others_kept(self.tree.kids(), kids0, parent),
        in_order(self.tree.kids()[parent], all),
        forall|n: NodeId| #[trigger] self.tree.kids()[parent].contains(n) == ((k0.contains(n) || among(all, n, start as int, cursor as int)) && !among(all, n, cursor as int, cursor + __vx_i6)),
    decreases __vx_c6@.len() - __vx_i6
//@loop 6 start
    let ghost k = self.tree.kids()[parent];
    let ghost x = all[cursor + __vx_i6];
    proof {
        rank_at(all, cursor + __vx_i6);
        assert(x == all.subrange(cursor as int, end as int)[__vx_i6 as int]);
        assert(all.contains(x));
        assert(k.contains(x) == k0.contains(x));
        if k.contains(x) { rank_of(k, x); remove_order(k, all, k.index_of(x)); }
    }
//@loop 6 end
    proof {
        let k1 = self.tree.kids()[parent];
        assert forall|n: NodeId| #[trigger] k1.contains(n) == ((k0.contains(n) || among(all, n, start as int, cursor as int)) && !among(all, n, cursor as int, cursor + __vx_i6)) by {
            if all.contains(n) && rank(all, n) == cursor + __vx_i6 - 1 { rank_of(all, n); assert(n == x); }
            assert(k.contains(n) == ((k0.contains(n) || among(all, n, start as int, cursor as int)) && !among(all, n, cursor as int, cursor + __vx_i6 - 1)));
        }
    }
//@end
}
fn main() {}
}
