// ---- shared prelude: helpers the rewrites refer to (trusted: std definitions) ----
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeId(pub u64);

#[verifier::external_body]
pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len(),
    ensures r == v@[i as int],
{ unimplemented!() }

#[verifier::external_body]
pub fn take<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@.len() == 0,
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_copy(v: &Vec<NodeId>) -> (r: Vec<NodeId>)
    ensures r@ == v@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_contains(v: &Vec<NodeId>, n: &NodeId) -> (r: bool)
    ensures r == v@.contains(*n),
{ unimplemented!() }
// (for types whose equality is structural)
pub assume_specification<T: PartialEq>[<[T]>::contains](s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x);
/// a case that the function's precondition excludes
#[verifier::external_body]
pub fn vx_unreached() requires false { unimplemented!() }
pub assume_specification<T, E: core::marker::Destruct>[Result::<T, E>::unwrap_or](r: Result<T, E>, d: T) -> (v: T) where T: core::marker::Destruct
    ensures v == (match r { Ok(x) => x, Err(_) => d });
#[verifier::external_body]
pub fn vx_never<T>() -> T requires false { unimplemented!() }
