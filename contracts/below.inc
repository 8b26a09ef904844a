// ---- what is below a node of the layout tree ----
/// m is n or an element below it
pub open spec fn below(kids: Map<NodeId, Seq<NodeId>>, n: NodeId, m: NodeId) -> bool
    decreases height(kids, n), 1nat
{
    m == n || below_some(kids, n, kids[n].len() as nat, m)
}
/// m is below one of the first k children of n
pub open spec fn below_some(kids: Map<NodeId, Seq<NodeId>>, n: NodeId, k: nat, m: NodeId) -> bool
    decreases height(kids, n), 0nat, k via below_decreases
{
    if k == 0 || !kids.contains_key(n) || k > kids[n].len() { false } else { below_some(kids, n, (k - 1) as nat, m) || below(kids, kids[n][k - 1], m) }
}
#[via_fn]
proof fn below_decreases(kids: Map<NodeId, Seq<NodeId>>, n: NodeId, k: nat, m: NodeId) {
    if k == 0 || !kids.contains_key(n) || k > kids[n].len() {} else { axiom_height(kids, n, k - 1); }
}
// a node has one parent (assumed of the dependency): nothing is below two children, nor is an element below its child
#[verifier::external_body]
pub proof fn axiom_parent(kids: Map<NodeId, Seq<NodeId>>, n: NodeId, i: int, m: NodeId)
    requires kids.contains_key(n), 0 <= i < kids[n].len(), below(kids, kids[n][i], m),
    ensures m != n, !below_some(kids, n, i as nat, m),
{}
proof fn below_some_mono(kids: Map<NodeId, Seq<NodeId>>, n: NodeId, j: nat, k: nat, m: NodeId)
    requires below_some(kids, n, j, m), j <= k <= kids[n].len(), kids.contains_key(n),
    ensures below_some(kids, n, k, m),
    decreases k
{
    if j < k { below_some_mono(kids, n, j, (k - 1) as nat, m); }
}
