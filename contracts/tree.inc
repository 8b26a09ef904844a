// ---- the layout tree (taffy::TaffyTree<Element>): assumed contracts of the dependency ----
#[verifier::external_body]
pub struct Tree { x: u64 }
/// what the tree holds besides elements and children: layout styles and results
#[verifier::external_body]
pub struct TreeRest { x: u64 }
impl Tree {
    pub uninterp spec fn elems(&self) -> Map<NodeId, Element>;
    pub uninterp spec fn kids(&self) -> Map<NodeId, Seq<NodeId>>;
    pub uninterp spec fn rest(&self) -> TreeRest;
    #[verifier::external_body]
    pub fn get_element_mut(&mut self, node: NodeId) -> (r: Result<&mut Element, ViewError>)
        ensures match r {
            Ok(e) => old(self).elems().contains_key(node) && *e == old(self).elems()[node]
               && final(self).elems() == old(self).elems().insert(node, *final(e)) && final(self).kids() == old(self).kids() && final(self).parents() == old(self).parents() && final(self).rest() == old(self).rest(),
            Err(_) => *final(self) == *old(self) && !old(self).elems().contains_key(node),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_element(&self, node: NodeId) -> (r: Result<&Element, ViewError>)
        ensures match r { Ok(e) => self.elems().contains_key(node) && *e == self.elems()[node], Err(_) => !self.elems().contains_key(node) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn children(&self, node: NodeId) -> (r: Result<Vec<NodeId>, ViewError>)
        ensures match r { Ok(c) => self.kids().contains_key(node) && c@ == self.kids()[node], Err(_) => !self.kids().contains_key(node) }
    { unimplemented!() }
    pub uninterp spec fn parents(&self) -> Map<NodeId, NodeId>;
    #[verifier::external_body]
    pub fn parent(&self, node: NodeId) -> (r: Option<NodeId>)
        ensures match r { Some(p) => self.parents().contains_key(node) && p == self.parents()[node], None => !self.parents().contains_key(node) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_node_context(&self, node: NodeId) -> (r: Option<&Element>)
        ensures match r { Some(e) => self.elems().contains_key(node) && *e == self.elems()[node], None => !self.elems().contains_key(node) }
    { unimplemented!() }
}
// a layout tree is finite and no node is below itself: every node has a height (assumed of the dependency)
pub uninterp spec fn height(kids: Map<NodeId, Seq<NodeId>>, n: NodeId) -> nat;
#[verifier::external_body]
pub proof fn axiom_height(kids: Map<NodeId, Seq<NodeId>>, n: NodeId, i: int)
    requires kids.contains_key(n), 0 <= i < kids[n].len(),
    ensures height(kids, kids[n][i]) < height(kids, n),
{}
// no node is its own ancestor: every node has a depth (assumed of the dependency)
pub uninterp spec fn depth(parents: Map<NodeId, NodeId>, n: NodeId) -> nat;
#[verifier::external_body]
pub proof fn axiom_depth(parents: Map<NodeId, NodeId>, n: NodeId)
    requires parents.contains_key(n),
    ensures depth(parents, parents[n]) < depth(parents, n),
{}
