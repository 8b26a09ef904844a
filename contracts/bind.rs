use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C01, C02: binding data to the model, for every history of values
//@texts
//@reals
//@include reals.inc
//@include prelude.inc
//@include texts.inc
//@include json.inc
//@include reacts.inc
//@type HashMap<String, Value> => Dict<Value>
//@type HashSet<String> => Names
//@type Vec<Reaction> => Log
//@type Map<String, Value> => Obj
//@item src/view_model.rs ViewModel keep bindings,model,model_array_default,present_objects,transformers add given:Ghost<Map<Seq<char>,Value>>
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { digits(*self as nat) } #[verifier::external_body] fn vx_show(&self) -> (r: Text) { unimplemented!() } }
/// decimal digits of a number
pub uninterp spec fn digits(n: nat) -> Seq<char>;
pub axiom fn axiom_digits(n: nat) ensures plain(digits(n)), forall|m: nat| #[trigger] digits(m) == digits(n) ==> m == n;
/// the reactions so far: `shown` is the value given last to the bindings of a path, `count` how often any was given one
/// (react, proved in the unit `conversions`, appends one reaction for every binding of its path and is all that touches them)
#[verifier::external_body]
pub struct Log { x: u64 }
impl Log {
    pub uninterp spec fn shown(&self) -> Map<Seq<char>, Value>;
    pub uninterp spec fn count(&self) -> nat;
}
#[verifier::external_body]
pub fn vx_log(given: Ghost<Map<Seq<char>, Value>>) -> (r: Log) ensures r.count() == 0, r.shown() == given@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_object() -> (r: Value) ensures r is Object { unimplemented!() }
// ---- paths ----
pub open spec fn plain(k: Seq<char>) -> bool { forall|i: int| 0 <= i < k.len() ==> #[trigger] k[i] != '/' }
pub open spec fn sub(path: Seq<char>, k: Seq<char>) -> Seq<char> { path + "/"@ + k }
pub open spec fn under(path: Seq<char>, p: Seq<char>) -> bool { p == path || begins(p, path + "/"@) }
pub proof fn slash() ensures "/"@.len() == 1, "/"@[0] == '/', "*"@.len() == 1, plain("*"@) { reveal_strlit("/"); reveal_strlit("*"); assert("*"@[0] == '*'); }
pub proof fn sub_under(path: Seq<char>, k: Seq<char>, p: Seq<char>)
    requires under(sub(path, k), p),
    ensures under(path, p), p != path,
{
    slash();
    let s = sub(path, k);
    let n = path.len() as int;
    assert(s.subrange(0, n + 1) =~= path + "/"@);
    if p == s { assert(p.subrange(0, n + 1) =~= path + "/"@); }
    else { assert(p.subrange(0, s.len() as int + 1) == s + "/"@); assert(p.subrange(0, n + 1) =~= p.subrange(0, s.len() as int + 1).subrange(0, n + 1)); assert((s + "/"@).subrange(0, n + 1) =~= path + "/"@); }
}
pub proof fn sub_apart(path: Seq<char>, k: Seq<char>, l: Seq<char>, p: Seq<char>)
    requires plain(k), plain(l), under(sub(path, k), p), under(sub(path, l), p),
    ensures k == l,
{
    slash();
    let n = path.len() as int + 1;
    sub_char(path, k, p);
    sub_char(path, l, p);
    if k.len() < l.len() { assert(p[n + k.len()] == l[k.len() as int]); }
    if l.len() < k.len() { assert(p[n + l.len()] == k[l.len() as int]); }
    if k.len() == l.len() { assert forall|i: int| 0 <= i < k.len() implies k[i] == l[i] by { assert(p[n + i] == k[i]); assert(p[n + i] == l[i]); } assert(k =~= l); }
}
pub proof fn sub_char(path: Seq<char>, k: Seq<char>, p: Seq<char>)
    requires under(sub(path, k), p),
    ensures
        p.len() >= path.len() + 1 + k.len(), forall|i: int| 0 <= i < k.len() ==> p[path.len() as int + 1 + i] == #[trigger] k[i],
        p.len() > path.len() + 1 + k.len() ==> p[path.len() as int + 1 + k.len()] == '/',
{
    slash();
    let s = sub(path, k);
    let n = path.len() as int + 1;
    assert forall|i: int| 0 <= i < k.len() implies p[n + i] == #[trigger] k[i] by {
        assert(s[n + i] == k[i]);
        if p != s { assert(p.subrange(0, s.len() as int + 1)[n + i] == (s + "/"@)[n + i]); }
    }
    if p != s { assert(p.subrange(0, s.len() as int + 1)[s.len() as int] == (s + "/"@)[s.len() as int]); }
}
// ---- the properties ----
pub open spec fn at(d: Map<Seq<char>, Value>, p: Seq<char>) -> Value { if d.contains_key(p) { d[p] } else { Value::Null } }
pub open spec fn field(s: Value, k: Seq<char>) -> Value { match s { Value::Object(o) => if o.map().contains_key(k) { o.map()[k] } else { Value::Null }, _ => Value::Null } }
/// what the schema says of a path: its structure is given once and for all by the document's bindings
/// (the same path cannot be a list here and an object there)
pub enum Kind { Scalar, List, Object }
pub uninterp spec fn kind(a: Seq<char>) -> Kind;
/// the model has the schema's structure
pub open spec fn formed(m: Value, a: Seq<char>, d: Map<Seq<char>, Value>) -> bool
    decreases size_of(m) via formed_dec
{
    d.contains_key(a) ==> match m {
        Value::Array(items) => kind(a) is List && forall|i: int| 0 <= i < items@.len() ==> formed(#[trigger] items@[i], sub(a, "*"@), d),
        Value::Object(o) => !(kind(a) is List) && forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> plain(k) && formed(o.map()[k], sub(a, k), d),
        _ => false,
    }
}
#[via_fn]
proof fn formed_dec(m: Value, a: Seq<char>, d: Map<Seq<char>, Value>) { broadcast use {size_array, size_object}; }
/// a new item of a list has the schema's structure
pub open spec fn formed_items(d: Map<Seq<char>, Value>) -> bool { forall|a: Seq<char>| kind(a) is List && #[trigger] d.contains_key(a) ==> formed(d[a], sub(a, "*"@), d) }
pub open spec fn items_shown(v: Value, n: nat) -> bool { match v { Value::Null => n == 0, Value::Array(a) => a@.len() == n, _ => false } }
/// every place shows what the model holds
pub open spec fn synced(shown: Map<Seq<char>, Value>, present: Set<Seq<char>>, m: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>) -> bool
    decreases size_of(m) via synced_dec
{
    if !d.contains_key(a) { at(shown, p) == m } else {
        match m {
            Value::Array(items) => items_shown(at(shown, p), items@.len()) && forall|i: int| 0 <= i < items@.len() ==> synced(shown, present, #[trigger] items@[i], sub(p, digits(i as nat)), sub(a, "*"@), d),
            Value::Object(o) => {
                &&& if present.contains(p) { at(shown, p) is Object } else { at(shown, p) is Null }
                &&& forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> synced(shown, present, o.map()[k], sub(p, k), sub(a, k), d)
            },
            _ => at(shown, p) == m,
        }
    }
}
#[via_fn]
proof fn synced_dec(shown: Map<Seq<char>, Value>, present: Set<Seq<char>>, m: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>) { broadcast use {size_array, size_object}; }
/// the model holds the value (a value of the wrong kind in place of a list is not taken)
pub open spec fn holds(m: Value, s: Value, present: Set<Seq<char>>, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>) -> bool
    decreases size_of(m) via holds_dec
{
    if !d.contains_key(a) { m == s } else {
        match m {
            Value::Array(items) => match s {
                Value::Array(n) => items@.len() == n@.len() && forall|i: int| 0 <= i < items@.len() ==> holds(#[trigger] items@[i], n@[i], present, sub(p, digits(i as nat)), sub(a, "*"@), d),
                Value::Null => items@.len() == 0,
                _ => true,
            },
            Value::Object(o) => present.contains(p) == (s is Object) && forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> holds(o.map()[k], field(s, k), present, sub(p, k), sub(a, k), d),
            _ => m == s,
        }
    }
}
#[via_fn]
proof fn holds_dec(m: Value, s: Value, present: Set<Seq<char>>, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>) { broadcast use {size_array, size_object}; }
/// what C01 asks for: every place shows what the latest value prescribes
pub open spec fn prescribed(shown: Map<Seq<char>, Value>, m: Value, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>) -> bool
    decreases size_of(m) via prescribed_dec
{
    if !d.contains_key(a) { at(shown, p) == s } else {
        match m {
            Value::Array(items) => match s {
                Value::Array(n) => items_shown(at(shown, p), n@.len()) && forall|i: int| 0 <= i < items@.len() ==> prescribed(shown, #[trigger] items@[i], n@[i], sub(p, digits(i as nat)), sub(a, "*"@), d),
                Value::Null => items_shown(at(shown, p), 0),
                _ => true,
            },
            Value::Object(o) => {
                &&& if s is Object { at(shown, p) is Object } else { at(shown, p) is Null }
                &&& forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> prescribed(shown, o.map()[k], field(s, k), sub(p, k), sub(a, k), d)
            },
            _ => at(shown, p) == s,
        }
    }
}
#[via_fn]
proof fn prescribed_dec(shown: Map<Seq<char>, Value>, m: Value, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>) { broadcast use {size_array, size_object}; }
pub proof fn c01(shown: Map<Seq<char>, Value>, present: Set<Seq<char>>, m: Value, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>)
    requires synced(shown, present, m, p, a, d), holds(m, s, present, p, a, d),
    ensures prescribed(shown, m, s, p, a, d),
    decreases size_of(m)
{
    broadcast use {size_array, size_object};
    if d.contains_key(a) {
        match m {
            Value::Array(items) => match s {
                Value::Array(n) => { assert forall|i: int| 0 <= i < items@.len() implies prescribed(shown, #[trigger] items@[i], n@[i], sub(p, digits(i as nat)), sub(a, "*"@), d) by { c01(shown, present, items@[i], n@[i], sub(p, digits(i as nat)), sub(a, "*"@), d); } },
                _ => {},
            },
            Value::Object(o) => { assert forall|k: Seq<char>| #[trigger] o.map().contains_key(k) implies prescribed(shown, o.map()[k], field(s, k), sub(p, k), sub(a, k), d) by { c01(shown, present, o.map()[k], field(s, k), sub(p, k), sub(a, k), d); } },
            _ => {},
        }
    }
}
/// nothing outside `path` changes
pub open spec fn elsewhere(d0: Map<Seq<char>, Value>, d1: Map<Seq<char>, Value>, s0: Set<Seq<char>>, s1: Set<Seq<char>>, path: Seq<char>) -> bool {
    forall|p: Seq<char>| #![trigger at(d1, p)] #![trigger s1.contains(p)] !under(path, p) ==> at(d1, p) == at(d0, p) && s1.contains(p) == s0.contains(p)
}
/// nothing under `path` changes
pub open spec fn same_under(d0: Map<Seq<char>, Value>, d1: Map<Seq<char>, Value>, s0: Set<Seq<char>>, s1: Set<Seq<char>>, path: Seq<char>) -> bool {
    forall|p: Seq<char>| #![trigger at(d1, p)] #![trigger s1.contains(p)] under(path, p) ==> at(d1, p) == at(d0, p) && s1.contains(p) == s0.contains(p)
}
pub proof fn same_sub(d0: Map<Seq<char>, Value>, d1: Map<Seq<char>, Value>, s0: Set<Seq<char>>, s1: Set<Seq<char>>, path: Seq<char>, k: Seq<char>)
    requires same_under(d0, d1, s0, s1, path),
    ensures same_under(d0, d1, s0, s1, sub(path, k)),
{
    assert forall|p: Seq<char>| under(sub(path, k), p) implies at(d1, p) == at(d0, p) && s1.contains(p) == s0.contains(p) by { sub_under(path, k, p); }
}
pub proof fn keep(d0: Map<Seq<char>, Value>, d1: Map<Seq<char>, Value>, s0: Set<Seq<char>>, s1: Set<Seq<char>>, m: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>)
    requires same_under(d0, d1, s0, s1, p),
    ensures synced(d0, s0, m, p, a, d) == synced(d1, s1, m, p, a, d),
    decreases size_of(m)
{
    broadcast use {size_array, size_object};
    assert(under(p, p));
    if d.contains_key(a) {
        match m {
            Value::Array(items) => {
                assert forall|i: int| 0 <= i < items@.len() implies synced(d0, s0, #[trigger] items@[i], sub(p, digits(i as nat)), sub(a, "*"@), d) == synced(d1, s1, items@[i], sub(p, digits(i as nat)), sub(a, "*"@), d) by {
                    same_sub(d0, d1, s0, s1, p, digits(i as nat)); keep(d0, d1, s0, s1, items@[i], sub(p, digits(i as nat)), sub(a, "*"@), d);
                }
            },
            Value::Object(o) => {
                assert forall|k: Seq<char>| #[trigger] o.map().contains_key(k) implies synced(d0, s0, o.map()[k], sub(p, k), sub(a, k), d) == synced(d1, s1, o.map()[k], sub(p, k), sub(a, k), d) by {
                    same_sub(d0, d1, s0, s1, p, k); keep(d0, d1, s0, s1, o.map()[k], sub(p, k), sub(a, k), d);
                }
            },
            _ => {},
        }
    }
}
pub proof fn keep_held(d0: Map<Seq<char>, Value>, d1: Map<Seq<char>, Value>, s0: Set<Seq<char>>, s1: Set<Seq<char>>, m: Value, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>)
    requires same_under(d0, d1, s0, s1, p),
    ensures holds(m, s, s0, p, a, d) == holds(m, s, s1, p, a, d),
    decreases size_of(m)
{
    broadcast use {size_array, size_object};
    assert(under(p, p));
    if d.contains_key(a) {
        match m {
            Value::Array(items) => match s {
                Value::Array(n) => if items@.len() == n@.len() {
                    assert forall|i: int| 0 <= i < items@.len() implies holds(#[trigger] items@[i], n@[i], s0, sub(p, digits(i as nat)), sub(a, "*"@), d) == holds(items@[i], n@[i], s1, sub(p, digits(i as nat)), sub(a, "*"@), d) by {
                        same_sub(d0, d1, s0, s1, p, digits(i as nat)); keep_held(d0, d1, s0, s1, items@[i], n@[i], sub(p, digits(i as nat)), sub(a, "*"@), d);
                    }
                },
                _ => {},
            },
            Value::Object(o) => {
                assert forall|k: Seq<char>| #[trigger] o.map().contains_key(k) implies holds(o.map()[k], field(s, k), s0, sub(p, k), sub(a, k), d) == holds(o.map()[k], field(s, k), s1, sub(p, k), sub(a, k), d) by {
                    same_sub(d0, d1, s0, s1, p, k); keep_held(d0, d1, s0, s1, o.map()[k], field(s, k), sub(p, k), sub(a, k), d);
                }
                assert(s0.contains(p) == s1.contains(p));
            },
            _ => {},
        }
    }
}
// ---- the parts of a list or an object ----
pub open spec fn vals_of(o: Obj) -> Seq<Value> { Seq::new(o.keys().len(), |j: int| o.map()[o.keys()[j]]) }
pub open spec fn fields_of(s: Value, keys: Seq<Seq<char>>) -> Seq<Value> { Seq::new(keys.len(), |j: int| field(s, keys[j])) }
pub open spec fn subs(p: Seq<char>, keys: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(keys.len(), |j: int| sub(p, keys[j])) }
pub open spec fn indexes(n: nat) -> Seq<Seq<char>> { Seq::new(n, |j: int| digits(j as nat)) }
pub open spec fn stars(n: nat) -> Seq<Seq<char>> { Seq::new(n, |j: int| "*"@) }
pub open spec fn apart(ps: Seq<Seq<char>>) -> bool { forall|i: int, j: int, p: Seq<char>| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j ==> !(#[trigger] under(ps[i], p) && #[trigger] under(ps[j], p)) }
pub struct Parts { pub vals: Seq<Value>, pub srcs: Seq<Value>, pub ps: Seq<Seq<char>>, pub aps: Seq<Seq<char>>, pub d: Map<Seq<char>, Value> }
/// the parts lo..hi are bound to their values
pub open spec fn done(x: Parts, sh: Map<Seq<char>, Value>, pr: Set<Seq<char>>, lo: int, hi: int) -> bool {
    forall|j: int| lo <= j < hi ==> formed(#[trigger] x.vals[j], x.aps[j], x.d) && synced(sh, pr, x.vals[j], x.ps[j], x.aps[j], x.d) && holds(x.vals[j], x.srcs[j], pr, x.ps[j], x.aps[j], x.d)
}
/// the parts lo..hi are still to be bound, those before `known` are in step
pub open spec fn todo(x: Parts, sh: Map<Seq<char>, Value>, pr: Set<Seq<char>>, lo: int, hi: int, known: int) -> bool {
    forall|j: int| lo <= j < hi ==> formed(#[trigger] x.vals[j], x.aps[j], x.d) && (j < known ==> synced(sh, pr, x.vals[j], x.ps[j], x.aps[j], x.d))
}
pub open spec fn all_held(x: Parts, pr: Set<Seq<char>>) -> bool { forall|j: int| 0 <= j < x.vals.len() ==> holds(#[trigger] x.vals[j], x.srcs[j], pr, x.ps[j], x.aps[j], x.d) }
pub open spec fn shaped(x: Parts) -> bool { x.vals.len() == x.srcs.len() && x.vals.len() == x.ps.len() && x.vals.len() == x.aps.len() && apart(x.ps) }
pub open spec fn put(x: Parts, i: int, v: Value) -> Parts { Parts { vals: x.vals.update(i, v), ..x } }
proof fn advance(x: Parts, i: int, v: Value, known: int, sh1: Map<Seq<char>, Value>, sh2: Map<Seq<char>, Value>, pr1: Set<Seq<char>>, pr2: Set<Seq<char>>)
    requires
        shaped(x), 0 <= i < x.vals.len(), done(x, sh1, pr1, 0, i), todo(x, sh1, pr1, i, x.vals.len() as int, known), elsewhere(sh1, sh2, pr1, pr2, x.ps[i]),
        formed(v, x.aps[i], x.d), synced(sh2, pr2, v, x.ps[i], x.aps[i], x.d), holds(v, x.srcs[i], pr2, x.ps[i], x.aps[i], x.d),
    ensures done(put(x, i, v), sh2, pr2, 0, i + 1), todo(put(x, i, v), sh2, pr2, i + 1, x.vals.len() as int, known),
{
    let y = put(x, i, v);
    assert forall|j: int| 0 <= j < y.vals.len() && j != i implies same_under(sh1, sh2, pr1, pr2, #[trigger] x.ps[j]) by {
        assert forall|p: Seq<char>| under(x.ps[j], p) implies at(sh2, p) == at(sh1, p) && pr2.contains(p) == pr1.contains(p) by { assert(!under(x.ps[i], p)); }
    }
    assert forall|j: int| 0 <= j < i + 1 implies formed(#[trigger] y.vals[j], y.aps[j], y.d) && synced(sh2, pr2, y.vals[j], y.ps[j], y.aps[j], y.d) && holds(y.vals[j], y.srcs[j], pr2, y.ps[j], y.aps[j], y.d) by {
        if j < i { assert(y.vals[j] == x.vals[j]); assert(same_under(sh1, sh2, pr1, pr2, x.ps[j])); keep(sh1, sh2, pr1, pr2, x.vals[j], x.ps[j], x.aps[j], x.d); keep_held(sh1, sh2, pr1, pr2, x.vals[j], x.srcs[j], x.ps[j], x.aps[j], x.d); }
    }
    assert forall|j: int| i + 1 <= j < y.vals.len() implies formed(#[trigger] y.vals[j], y.aps[j], y.d) && (j < known ==> synced(sh2, pr2, y.vals[j], y.ps[j], y.aps[j], y.d)) by {
        assert(y.vals[j] == x.vals[j]); assert(same_under(sh1, sh2, pr1, pr2, x.ps[j])); keep(sh1, sh2, pr1, pr2, x.vals[j], x.ps[j], x.aps[j], x.d); keep_held(sh1, sh2, pr1, pr2, x.vals[j], x.srcs[j], x.ps[j], x.aps[j], x.d);
    }
}
/// a change at the path of the whole does not touch the parts
pub open spec fn only(sh1: Map<Seq<char>, Value>, sh2: Map<Seq<char>, Value>, pr1: Set<Seq<char>>, pr2: Set<Seq<char>>, path: Seq<char>) -> bool {
    forall|p: Seq<char>| #![trigger at(sh2, p)] #![trigger pr2.contains(p)] p != path ==> at(sh2, p) == at(sh1, p) && pr2.contains(p) == pr1.contains(p)
}
proof fn outer(x: Parts, keys: Seq<Seq<char>>, path: Seq<char>, sh1: Map<Seq<char>, Value>, sh2: Map<Seq<char>, Value>, pr1: Set<Seq<char>>, pr2: Set<Seq<char>>)
    requires shaped(x), x.ps == subs(path, keys), only(sh1, sh2, pr1, pr2, path),
    ensures
        forall|lo: int, hi: int| 0 <= lo && hi <= x.vals.len() && done(x, sh1, pr1, lo, hi) ==> #[trigger] done(x, sh2, pr2, lo, hi),
        forall|lo: int, hi: int, known: int| 0 <= lo && hi <= x.vals.len() && todo(x, sh1, pr1, lo, hi, known) ==> #[trigger] todo(x, sh2, pr2, lo, hi, known),
        all_held(x, pr1) ==> all_held(x, pr2),
{
    assert forall|j: int| 0 <= j < x.vals.len() implies synced(sh1, pr1, #[trigger] x.vals[j], x.ps[j], x.aps[j], x.d) == synced(sh2, pr2, x.vals[j], x.ps[j], x.aps[j], x.d)
      && holds(x.vals[j], x.srcs[j], pr1, x.ps[j], x.aps[j], x.d) == holds(x.vals[j], x.srcs[j], pr2, x.ps[j], x.aps[j], x.d) by {
        assert forall|p: Seq<char>| under(x.ps[j], p) implies at(sh2, p) == at(sh1, p) && pr2.contains(p) == pr1.contains(p) by { sub_under(path, keys[j], p); }
        keep(sh1, sh2, pr1, pr2, x.vals[j], x.ps[j], x.aps[j], x.d); keep_held(sh1, sh2, pr1, pr2, x.vals[j], x.srcs[j], x.ps[j], x.aps[j], x.d);
    }
}
proof fn apart_subs(path: Seq<char>, keys: Seq<Seq<char>>)
    requires keys.no_duplicates(), forall|j: int| 0 <= j < keys.len() ==> plain(#[trigger] keys[j]),
    ensures apart(subs(path, keys)),
{
    let ps = subs(path, keys);
    assert forall|i: int, j: int, p: Seq<char>| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j implies !(#[trigger] under(ps[i], p) && #[trigger] under(ps[j], p)) by {
        if under(ps[i], p) && under(ps[j], p) { assert(plain(keys[i]) && plain(keys[j])); sub_apart(path, keys[i], keys[j], p); }
    }
}
proof fn apart_indexes(path: Seq<char>, n: nat)
    ensures apart(subs(path, indexes(n))),
{
    let keys = indexes(n);
    assert forall|j: int| 0 <= j < keys.len() implies plain(#[trigger] keys[j]) by { axiom_digits(j as nat); }
    assert forall|i: int, j: int| 0 <= i < keys.len() && 0 <= j < keys.len() && i != j implies keys[i] != keys[j] by { axiom_digits(i as nat); }
    apart_subs(path, keys);
}
proof fn part_elsewhere(path: Seq<char>, k: Seq<char>, sh0: Map<Seq<char>, Value>, sh1: Map<Seq<char>, Value>, sh2: Map<Seq<char>, Value>, pr0: Set<Seq<char>>, pr1: Set<Seq<char>>, pr2: Set<Seq<char>>)
    requires elsewhere(sh0, sh1, pr0, pr1, path), elsewhere(sh1, sh2, pr1, pr2, sub(path, k)),
    ensures elsewhere(sh0, sh2, pr0, pr2, path), at(sh2, path) == at(sh1, path), pr2.contains(path) == pr1.contains(path),
{
    assert forall|p: Seq<char>| !under(path, p) || p == path implies at(sh2, p) == at(sh1, p) && pr2.contains(p) == pr1.contains(p) by { if under(sub(path, k), p) { sub_under(path, k, p); } }
}
pub open spec fn list_parts(items: Seq<Value>, srcs: Seq<Value>, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>) -> Parts {
    Parts { vals: items, srcs, ps: subs(p, indexes(items.len())), aps: subs(a, stars(items.len())), d }
}
pub open spec fn object_parts(o: Obj, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>) -> Parts {
    Parts { vals: vals_of(o), srcs: fields_of(s, o.keys()), ps: subs(p, o.keys()), aps: subs(a, o.keys()), d }
}
proof fn object_shaped(o: Obj, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>)
    requires formed(Value::Object(o), a, d), d.contains_key(a),
    ensures shaped(object_parts(o, s, p, a, d)), forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> plain(k),
{
    let v = Value::Object(o); assert(v->Object_0 == o);
    broadcast use obj_keys;
    assert forall|j: int| 0 <= j < o.keys().len() implies plain(#[trigger] o.keys()[j]) by { assert(o.map().contains_key(o.keys()[j])); }
    apart_subs(p, o.keys());
}
/// an object of bound parts is bound
proof fn object_done(o: Obj, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>, sh: Map<Seq<char>, Value>, pr: Set<Seq<char>>)
    requires
        d.contains_key(a), !(kind(a) is List), forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> plain(k),
        done(object_parts(o, s, p, a, d), sh, pr, 0, o.keys().len() as int), pr.contains(p) == (s is Object), if pr.contains(p) { at(sh, p) is Object } else { at(sh, p) is Null },
    ensures formed(Value::Object(o), a, d), synced(sh, pr, Value::Object(o), p, a, d), holds(Value::Object(o), s, pr, p, a, d),
{
    let v = Value::Object(o); assert(v->Object_0 == o);
    broadcast use obj_keys;
    let x = object_parts(o, s, p, a, d);
    assert forall|k: Seq<char>| #[trigger] o.map().contains_key(k) implies formed(o.map()[k], sub(a, k), d) && synced(sh, pr, o.map()[k], sub(p, k), sub(a, k), d) && holds(o.map()[k], field(s, k), pr, sub(p, k), sub(a, k), d) by {
        assert(o.keys().contains(k));
        let j = choose|j: int| 0 <= j < o.keys().len() && o.keys()[j] == k;
        assert(formed(x.vals[j], x.aps[j], x.d));
    }
}
proof fn object_todo(o: Obj, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>, sh: Map<Seq<char>, Value>, pr: Set<Seq<char>>, fresh: bool)
    requires d.contains_key(a), formed(Value::Object(o), a, d), !fresh ==> synced(sh, pr, Value::Object(o), p, a, d),
    ensures
        todo(object_parts(o, s, p, a, d), sh, pr, 0, o.keys().len() as int, if fresh { 0 } else { o.keys().len() as int }),
        holds(Value::Object(o), s, pr, p, a, d) ==> all_held(object_parts(o, s, p, a, d), pr),
{
    let v = Value::Object(o); assert(v->Object_0 == o);
    broadcast use obj_keys;
    let x = object_parts(o, s, p, a, d);
    assert forall|j: int| 0 <= j < x.vals.len() implies o.map().contains_key(o.keys()[j]) && #[trigger] x.vals[j] == o.map()[o.keys()[j]] by { assert(o.keys().contains(o.keys()[j])); }
}
proof fn list_part(v: Vec<Value>, i: int, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>)
    requires 0 <= i < v@.len(),
    ensures size_of(v@[i]) < size_of(Value::Array(v)), subs(p, indexes(v@.len()))[i] == sub(p, digits(i as nat)), subs(a, stars(v@.len()))[i] == sub(a, "*"@),
{ broadcast use size_array; }
/// a reaction at the path of the whole does not touch a part
proof fn same_step(sh1: Map<Seq<char>, Value>, sh2: Map<Seq<char>, Value>, pr: Set<Seq<char>>, path: Seq<char>, k: Seq<char>)
    requires only(sh1, sh2, pr, pr, path),
    ensures same_under(sh1, sh2, pr, pr, sub(path, k)),
{
    assert forall|p: Seq<char>| under(sub(path, k), p) implies at(sh2, p) == at(sh1, p) && pr.contains(p) == pr.contains(p) by { sub_under(path, k, p); }
}
proof fn star_text(a: Seq<char>) ensures a + "/*"@ == sub(a, "*"@) {
    reveal_strlit("/"); reveal_strlit("*"); reveal_strlit("/*");
    assert(a + "/*"@ =~= sub(a, "*"@));
}
proof fn entry_put(o: Obj, o2: Obj, i: int, v: Value, s: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>)
    requires 0 <= i < o.keys().len(), o2.keys() == o.keys(), o2.map() == o.map().insert(o.keys()[i], v),
    ensures object_parts(o2, s, p, a, d) == put(object_parts(o, s, p, a, d), i, v),
{
    broadcast use obj_keys;
    assert(vals_of(o2) =~= vals_of(o).update(i, v));
}
proof fn shown_only(sh: Map<Seq<char>, Value>, path: Seq<char>, v: Value, pr: Set<Seq<char>>)
    ensures only(sh, sh.insert(path, v), pr, pr, path),
{ }
proof fn outer_elsewhere(path: Seq<char>, sh0: Map<Seq<char>, Value>, sh1: Map<Seq<char>, Value>, sh2: Map<Seq<char>, Value>, pr0: Set<Seq<char>>, pr1: Set<Seq<char>>, pr2: Set<Seq<char>>)
    requires elsewhere(sh0, sh1, pr0, pr1, path), only(sh1, sh2, pr1, pr2, path),
    ensures elsewhere(sh0, sh2, pr0, pr2, path),
{ assert forall|p: Seq<char>| !under(path, p) implies at(sh2, p) == at(sh0, p) && pr2.contains(p) == pr0.contains(p) by { assert(at(sh1, p) == at(sh0, p)); } }
proof fn list_done(items: Vec<Value>, n: Vec<Value>, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>, sh: Map<Seq<char>, Value>, pr: Set<Seq<char>>)
    requires
        d.contains_key(a), kind(a) is List, items@.len() == n@.len(), items_shown(at(sh, p), items@.len()),
        done(list_parts(items@, n@, p, a, d), sh, pr, 0, items@.len() as int),
    ensures formed(Value::Array(items), a, d), synced(sh, pr, Value::Array(items), p, a, d), holds(Value::Array(items), Value::Array(n), pr, p, a, d),
{
    let v = Value::Array(items); assert(v->Array_0 == items);
    let x = list_parts(items@, n@, p, a, d);
    assert forall|i: int| 0 <= i < items@.len() implies formed(#[trigger] items@[i], sub(a, "*"@), d) && synced(sh, pr, items@[i], sub(p, digits(i as nat)), sub(a, "*"@), d) && holds(items@[i], n@[i], pr, sub(p, digits(i as nat)), sub(a, "*"@), d) by {
        assert(formed(x.vals[i], x.aps[i], x.d));
    }
}
/// before and between binds: the model has the schema's structure and every place shows what it holds
pub open spec fn ready(vm: ViewModel) -> bool {
    let d = vm.model_array_default.map();
    formed(vm.model, ""@, d) && formed_items(d) && synced(vm.given@, vm.present_objects.set(), vm.model, ""@, ""@, d)
}
pub open spec fn held(vm: ViewModel, value: Value) -> bool { holds(vm.model, value, vm.present_objects.set(), ""@, ""@, vm.model_array_default.map()) }
pub open spec fn step(v0: ViewModel, v1: ViewModel, value: Value, r: Log) -> bool {
    held(v1, value) && v1.model_array_default == v0.model_array_default && v1.bindings == v0.bindings && v1.transformers == v0.transformers
}
// ---- the model a view starts with ----
/// the schema's structure: every item of a list alike, leaves undefined (what the renderer's schema builds)
pub open spec fn conforms(m: Value, a: Seq<char>) -> bool
    decreases size_of(m) via conforms_dec
{
    match m {
        Value::Array(items) => kind(a) is List && items@.len() > 0 && forall|i: int| 0 <= i < items@.len() ==> conforms(#[trigger] items@[i], sub(a, "*"@)),
        Value::Object(o) => kind(a) is Object && forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> plain(k) && conforms(o.map()[k], sub(a, k)),
        _ => kind(a) is Scalar && m is Null,
    }
}
#[via_fn]
proof fn conforms_dec(m: Value, a: Seq<char>) { broadcast use {size_array, size_object}; }
/// c is m without the items of its lists
pub open spec fn cleared(m: Value, c: Value) -> bool
    decreases size_of(m) via cleared_dec
{
    match m {
        Value::Array(items) => match c { Value::Array(l) => l@.len() == 0, _ => false },
        Value::Object(o) => match c { Value::Object(q) => q.keys() == o.keys() && forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> cleared(o.map()[k], q.map()[k]), _ => false },
        _ => c == m,
    }
}
#[via_fn]
proof fn cleared_dec(m: Value, c: Value) { broadcast use {size_array, size_object}; }
pub open spec fn covers(m: Value, a: Seq<char>, d: Map<Seq<char>, Value>) -> bool
    decreases size_of(m) via covers_dec
{
    match m {
        Value::Array(items) => d.contains_key(a),
        Value::Object(o) => d.contains_key(a) && forall|k: Seq<char>| #[trigger] o.map().contains_key(k) ==> covers(o.map()[k], sub(a, k), d),
        _ => true,
    }
}
#[via_fn]
proof fn covers_dec(m: Value, a: Seq<char>, d: Map<Seq<char>, Value>) { broadcast use {size_array, size_object}; }
pub open spec fn known(d: Map<Seq<char>, Value>) -> bool {
    forall|a: Seq<char>| #[trigger] d.contains_key(a) ==> !(kind(a) is Scalar) && (kind(a) is List ==> exists|item: Value| conforms(item, sub(a, "*"@)) && #[trigger] cleared(item, d[a]))
}
pub open spec fn grows(d0: Map<Seq<char>, Value>, d1: Map<Seq<char>, Value>) -> bool { forall|a: Seq<char>| #[trigger] d0.contains_key(a) ==> d1.contains_key(a) }
proof fn known_more(d: Map<Seq<char>, Value>, a0: Seq<char>, v: Value, item: Value)
    requires known(d), !(kind(a0) is Scalar), kind(a0) is List ==> conforms(item, sub(a0, "*"@)) && cleared(item, v),
    ensures known(d.insert(a0, v)), grows(d, d.insert(a0, v)),
{
    let e = d.insert(a0, v);
    assert forall|a: Seq<char>| #[trigger] e.contains_key(a) implies !(kind(a) is Scalar) && (kind(a) is List ==> exists|item: Value| conforms(item, sub(a, "*"@)) && #[trigger] cleared(item, e[a])) by {
        if a == a0 { assert(kind(a) is List ==> cleared(item, e[a])); } else { assert(d.contains_key(a)); assert(e[a] == d[a]); }
    }
}
proof fn covers_more(m: Value, a: Seq<char>, d0: Map<Seq<char>, Value>, d1: Map<Seq<char>, Value>)
    requires covers(m, a, d0), grows(d0, d1),
    ensures covers(m, a, d1),
    decreases size_of(m)
{
    broadcast use {size_array, size_object};
    if let Value::Object(o) = m {
        assert(m->Object_0 == o);
        assert forall|k: Seq<char>| #[trigger] o.map().contains_key(k) implies covers(o.map()[k], sub(a, k), d1) by { covers_more(o.map()[k], sub(a, k), d0, d1); }
    }
}
/// the model without items has the schema's structure and is what new elements show
proof fn starts(m: Value, c: Value, p: Seq<char>, a: Seq<char>, d: Map<Seq<char>, Value>)
    requires conforms(m, a), cleared(m, c), known(d),
    ensures formed(c, a, d), covers(m, a, d) ==> synced(Map::empty(), Set::empty(), c, p, a, d),
    decreases size_of(m)
{
    broadcast use {size_array, size_object};
    match m {
        Value::Array(items) => { assert(m->Array_0 == items); let l = c->Array_0; assert(c == Value::Array(l)); }
        Value::Object(o) => {
            assert(m->Object_0 == o);
            let q = c->Object_0;
            assert(c == Value::Object(q));
            broadcast use obj_keys;
            assert forall|k: Seq<char>| #[trigger] q.map().contains_key(k) implies plain(k) && formed(q.map()[k], sub(a, k), d) && (covers(m, a, d) ==> synced(Map::empty(), Set::empty(), q.map()[k], sub(p, k), sub(a, k), d)) by {
                assert(o.keys().contains(k)); assert(o.map().contains_key(k));
                starts(o.map()[k], q.map()[k], sub(p, k), sub(a, k), d);
            }
        }
        _ => {}
    }
}
proof fn starts_items(d: Map<Seq<char>, Value>)
    requires known(d),
    ensures formed_items(d),
{
    assert forall|a: Seq<char>| kind(a) is List && #[trigger] d.contains_key(a) implies formed(d[a], sub(a, "*"@), d) by {
        let item = choose|item: Value| conforms(item, sub(a, "*"@)) && #[trigger] cleared(item, d[a]);
        starts(item, d[a], a, sub(a, "*"@), d);
    }
}
#[verifier::external_body]
pub fn react(path: &Text, value: &Value, bindings: &Dict<Vec<Binding>>, reactions: &mut Log, transformers: &Dict<Func>)
    requires all_fit(bindings.map()),
    ensures final(reactions).shown() == old(reactions).shown().insert(path@, *value), final(reactions).count() == old(reactions).count() + 1,
{ unimplemented!() }
#[verifier::external_body]
pub fn default_transformers() -> (r: Dict<Func>) { unimplemented!() }
impl ViewModel {
#[verifier::loop_isolation(false)]
//@fn src/view_model.rs ViewModel::bind_value_state
//@option mutref current
//@option mutref object
//@rewrite dst != src => *dst != *src
//@rewrite Self::react => react
//@rewrite json!({}) => vx_object()
//@ret r
    requires
        present is Some, all_fit(bindings.map()), formed(*old(dst), arrays_path@, default.map()), formed_items(default.map()),
        !fresh ==> synced(old(reactions).shown(), old(present->0).set(), *old(dst), path@, arrays_path@, default.map()),
    ensures
        formed(*final(dst), arrays_path@, default.map()),
        synced(final(reactions).shown(), final(present->0).set(), *final(dst), path@, arrays_path@, default.map()),
        holds(*final(dst), *src, final(present->0).set(), path@, arrays_path@, default.map()),
        elsewhere(old(reactions).shown(), final(reactions).shown(), old(present->0).set(), final(present->0).set(), path@),
        !fresh && holds(*old(dst), *src, old(present->0).set(), path@, arrays_path@, default.map()) ==>
            !r && final(reactions).count() == old(reactions).count() && final(reactions).shown() == old(reactions).shown() && final(present->0).set() == old(present->0).set(),
    decreases size_of(*src), size_of(*old(dst)),
//@start
    broadcast use {size_array, size_object, size_null};
    let ghost m0 = *dst;
    let ghost s0 = reactions.shown();
    let ghost n0 = reactions.count();
    let ghost pr0 = present->0.set();
    let ghost p0 = path@;
    let ghost fin = *final(present->0);
    let ghost a0 = arrays_path@;
    let ghost d = default.map();
    let ghost from = *src;
    let ghost quiet = !fresh && holds(m0, from, pr0, p0, a0, d);
    proof {
        slash();
        if let Value::Array(l) = m0 { assert(m0->Array_0 == l); if let Value::Array(n) = from { assert(from->Array_0 == n); } }
    }
//@loop 0 before
    let ghost srcs0 = next@;
    let ghost vals0 = __vx_c0@;
    let ghost len0 = __vx_c0@.len();
    proof {
        apart_indexes(p0, len0);
        let v = m0;
        assert(v is Array);
        assert(from->Array_0 == *next);
        let x = list_parts(vals0, srcs0, p0, a0, d);
        assert forall|j: int| 0 <= j < len0 implies formed(#[trigger] x.vals[j], x.aps[j], x.d) && (j < (if fresh { 0 } else { known as int }) ==> synced(reactions.shown(), pr0, x.vals[j], x.ps[j], x.aps[j], x.d)) by {
            if j < known { assert(vals0[j] == v->Array_0@[j]); list_part(v->Array_0, j, p0, a0, d);
                if !fresh { same_step(s0, reactions.shown(), pr0, p0, digits(j as nat)); keep(s0, reactions.shown(), pr0, pr0, vals0[j], x.ps[j], x.aps[j], x.d); } }
        }
        if quiet { assert forall|j: int| 0 <= j < len0 implies holds(#[trigger] x.vals[j], x.srcs[j], pr0, x.ps[j], x.aps[j], x.d) by { assert(vals0[j] == v->Array_0@[j]); } }
    }
//@loop 0
    invariant
        present is Some, *final(present->0) == fin, all_fit(bindings.map()), formed_items(d), d == default.map(), d.contains_key(a0), kind(a0) is List, p0 == path@, a0 == arrays_path@,
        from == Value::Array(*next), srcs0 == next@, size_of(*src) == size_of(from), *src == from,
        __vx_i0 <= __vx_c0@.len(), __vx_c0@.len() == len0, srcs0.len() == len0,
        vals0.len() == len0, items_shown(at(reactions.shown(), p0), len0),
        shaped(list_parts(__vx_c0@, srcs0, p0, a0, d)),
        done(list_parts(__vx_c0@, srcs0, p0, a0, d), reactions.shown(), present->0.set(), 0, __vx_i0 as int),
        todo(list_parts(__vx_c0@, srcs0, p0, a0, d), reactions.shown(), present->0.set(), __vx_i0 as int, len0 as int, if fresh { 0 } else { known as int }),
        elsewhere(s0, reactions.shown(), pr0, present->0.set(), p0),
        forall|j: int| __vx_i0 <= j < len0 ==> __vx_c0@[j] == vals0[j],
        quiet ==> !fresh && known == len0 && !array_changed && reactions.shown() == s0 && reactions.count() == n0 && present->0.set() == pr0 && all_held(list_parts(vals0, srcs0, p0, a0, d), pr0),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    broadcast use {size_array, size_object, size_null};
    let ghost i0 = __vx_i0 as int;
    let ghost vals1 = __vx_c0@;
    let ghost sh1 = reactions.shown();
    let ghost pr1 = present->0.set();
    let ghost parts = list_parts(vals1, srcs0, p0, a0, d);
    proof { star_text(a0); assert(formed(parts.vals[i0], parts.aps[i0], parts.d)); if quiet { let y = list_parts(vals0, srcs0, p0, a0, d); assert(vals1[i0] == vals0[i0]); assert(holds(y.vals[i0], y.srcs[i0], pr0, y.ps[i0], y.aps[i0], y.d)); } }
//@before call bind_value_state 0
    proof { assert(path@ == parts.ps[i0]); assert(arrays_path@ == parts.aps[i0]); }
//@loop 0 end
    proof {
        let v = __vx_c0@[i0];
        assert(__vx_c0@ =~= vals1.update(i0, v));
        advance(parts, i0, v, if fresh { 0 } else { known as int }, sh1, reactions.shown(), pr1, present->0.set());
        part_elsewhere(p0, digits(i0 as nat), s0, sh1, reactions.shown(), pr0, pr1, present->0.set());
        assert(put(parts, i0, v) == list_parts(__vx_c0@, srcs0, p0, a0, d));
    }
//@loop 0 after
    proof { let v = Value::Array(*current); assert(v->Array_0 == *current); list_done(*current, *next, p0, a0, d, reactions.shown(), present->0.set()); }
//@loop 1 before
    let ghost o0 = *__vx_c1;
    let ghost vals0 = vals_of(o0);
    let ghost len0 = o0.keys().len();
    proof {
        broadcast use obj_keys;
        let v = m0;
        assert(v is Object); assert(v->Object_0 == o0); assert(v == Value::Object(o0));
        assert(from->Object_0 == *src);
        object_shaped(o0, from, p0, a0, d); object_todo(o0, from, p0, a0, d, s0, pr0, fresh);
        if pr0.contains(p0) { assert(present->0.set() =~= pr0); }
        outer(object_parts(o0, from, p0, a0, d), o0.keys(), p0, s0, s0, pr0, present->0.set());
    }
//@loop 1
    invariant
        present is Some, *final(present->0) == fin, all_fit(bindings.map()), formed_items(d), d == default.map(), d.contains_key(a0), !(kind(a0) is List), p0 == path@, a0 == arrays_path@,
        from == Value::Object(*src), from->Object_0 == *src, m0 == Value::Object(o0), vals0 == vals_of(o0), len0 == o0.keys().len(),
        m0 == *old(dst), __vx_i1 <= len0, __vx_c1.keys() == o0.keys(), forall|k: Seq<char>| #[trigger] o0.map().contains_key(k) ==> plain(k),
        shaped(object_parts(*__vx_c1, from, p0, a0, d)),
        done(object_parts(*__vx_c1, from, p0, a0, d), reactions.shown(), present->0.set(), 0, __vx_i1 as int),
        todo(object_parts(*__vx_c1, from, p0, a0, d), reactions.shown(), present->0.set(), __vx_i1 as int, len0 as int, if fresh { 0 } else { len0 as int }),
        elsewhere(s0, reactions.shown(), pr0, present->0.set(), p0), at(reactions.shown(), p0) == at(s0, p0), present->0.set().contains(p0), !object_changed ==> pr0.contains(p0),
        forall|j: int| __vx_i1 <= j < len0 ==> #[trigger] vals_of(*__vx_c1)[j] == vals0[j],
        quiet ==> !fresh && !object_changed && reactions.shown() == s0 && reactions.count() == n0 && present->0.set() == pr0 && all_held(object_parts(o0, from, p0, a0, d), pr0),
    decreases len0 - __vx_i1
//@loop 1 start
    broadcast use {size_array, size_object, size_null, obj_keys};
    let ghost i0 = __vx_i1 as int;
    let ghost o1 = *__vx_c1;
    let ghost k0 = o1.keys()[i0];
    let ghost sh1 = reactions.shown();
    let ghost pr1 = present->0.set();
    let ghost parts = object_parts(o1, from, p0, a0, d);
    proof {
        assert(o1.keys().contains(k0)); assert(o1.map().contains_key(k0)); assert(o0.map().contains_key(k0));
        assert(vals_of(o1)[i0] == vals0[i0]); assert(vals0[i0] == o0.map()[k0]);
        assert(formed(parts.vals[i0], parts.aps[i0], parts.d));
        if quiet { let y = object_parts(o0, from, p0, a0, d); assert(holds(y.vals[i0], y.srcs[i0], pr0, y.ps[i0], y.aps[i0], y.d)); }
    }
//@before call bind_value_state 1
    proof { assert(path@ == parts.ps[i0]); assert(arrays_path@ == parts.aps[i0]); assert(parts.srcs[i0] == field(from, k0)); assert(*dst == parts.vals[i0]); }
//@loop 1 end
    proof {
        let v = __vx_c1.map()[k0];
        entry_put(o1, *__vx_c1, i0, v, from, p0, a0, d);
        advance(parts, i0, v, if fresh { 0 } else { len0 as int }, sh1, reactions.shown(), pr1, present->0.set());
        part_elsewhere(p0, k0, s0, sh1, reactions.shown(), pr0, pr1, present->0.set());
    }
//@loop 1 after
    proof {
        broadcast use obj_keys;
        assert forall|k: Seq<char>| #[trigger] object.map().contains_key(k) implies plain(k) by { assert(o0.map().contains_key(k)); }
        assert(o0.keys() == object.keys());
        if !fresh && !object_changed { object_done(*object, from, p0, a0, d, reactions.shown(), present->0.set()); }
    }
//@before call react 3
    let ghost sh1 = reactions.shown();
//@after call react 3
    proof {
        shown_only(sh1, p0, reactions.shown()[p0], present->0.set());
        outer_elsewhere(p0, s0, sh1, reactions.shown(), pr0, present->0.set(), present->0.set());
        outer(object_parts(*object, from, p0, a0, d), object.keys(), p0, sh1, reactions.shown(), present->0.set(), present->0.set());
        object_done(*object, from, p0, a0, d, reactions.shown(), present->0.set());
    }
//@loop 2 before
    let ghost o0 = *__vx_c2;
    let ghost vals0 = vals_of(o0);
    let ghost len0 = o0.keys().len();
    proof {
        broadcast use obj_keys;
        let v = m0;
        assert(v is Object); assert(v->Object_0 == o0); assert(v == Value::Object(o0));
        
        object_shaped(o0, from, p0, a0, d); object_todo(o0, from, p0, a0, d, s0, pr0, fresh);
        if !pr0.contains(p0) { assert(present->0.set() =~= pr0); }
        outer(object_parts(o0, from, p0, a0, d), o0.keys(), p0, s0, s0, pr0, present->0.set());
    }
//@loop 2
    invariant
        present is Some, *final(present->0) == fin, all_fit(bindings.map()), formed_items(d), d == default.map(), d.contains_key(a0), !(kind(a0) is List), p0 == path@, a0 == arrays_path@,
        *src == from, !(from is Object), m0 == Value::Object(o0), vals0 == vals_of(o0), len0 == o0.keys().len(),
        m0 == *old(dst), __vx_i2 <= len0, __vx_c2.keys() == o0.keys(), forall|k: Seq<char>| #[trigger] o0.map().contains_key(k) ==> plain(k),
        shaped(object_parts(*__vx_c2, from, p0, a0, d)),
        done(object_parts(*__vx_c2, from, p0, a0, d), reactions.shown(), present->0.set(), 0, __vx_i2 as int),
        todo(object_parts(*__vx_c2, from, p0, a0, d), reactions.shown(), present->0.set(), __vx_i2 as int, len0 as int, if fresh { 0 } else { len0 as int }),
        elsewhere(s0, reactions.shown(), pr0, present->0.set(), p0), at(reactions.shown(), p0) == at(s0, p0), !present->0.set().contains(p0), !object_changed ==> !pr0.contains(p0),
        forall|j: int| __vx_i2 <= j < len0 ==> #[trigger] vals_of(*__vx_c2)[j] == vals0[j],
        quiet ==> !fresh && !object_changed && reactions.shown() == s0 && reactions.count() == n0 && present->0.set() == pr0 && all_held(object_parts(o0, from, p0, a0, d), pr0),
    decreases len0 - __vx_i2
//@loop 2 start
    broadcast use {size_array, size_object, size_null, obj_keys};
    let ghost i0 = __vx_i2 as int;
    let ghost o1 = *__vx_c2;
    let ghost k0 = o1.keys()[i0];
    let ghost sh1 = reactions.shown();
    let ghost pr1 = present->0.set();
    let ghost parts = object_parts(o1, from, p0, a0, d);
    proof {
        assert(o1.keys().contains(k0)); assert(o1.map().contains_key(k0)); assert(o0.map().contains_key(k0));
        assert(vals_of(o1)[i0] == vals0[i0]); assert(vals0[i0] == o0.map()[k0]);
        assert(formed(parts.vals[i0], parts.aps[i0], parts.d));
        if quiet { let y = object_parts(o0, from, p0, a0, d); assert(holds(y.vals[i0], y.srcs[i0], pr0, y.ps[i0], y.aps[i0], y.d)); }
    }
//@before call bind_value_state 2
    proof { assert(path@ == parts.ps[i0]); assert(arrays_path@ == parts.aps[i0]); assert(parts.srcs[i0] == field(from, k0)); assert(*dst == parts.vals[i0]); }
//@loop 2 end
    proof {
        let v = __vx_c2.map()[k0];
        entry_put(o1, *__vx_c2, i0, v, from, p0, a0, d);
        advance(parts, i0, v, if fresh { 0 } else { len0 as int }, sh1, reactions.shown(), pr1, present->0.set());
        part_elsewhere(p0, k0, s0, sh1, reactions.shown(), pr0, pr1, present->0.set());
    }
//@loop 2 after
    proof {
        broadcast use obj_keys;
        assert forall|k: Seq<char>| #[trigger] object.map().contains_key(k) implies plain(k) by { assert(o0.map().contains_key(k)); }
        assert(o0.keys() == object.keys());
        if !fresh && !object_changed { object_done(*object, from, p0, a0, d, reactions.shown(), present->0.set()); }
    }
//@before call react 4
    let ghost sh1 = reactions.shown();
//@after call react 4
    proof {
        shown_only(sh1, p0, reactions.shown()[p0], present->0.set());
        outer_elsewhere(p0, s0, sh1, reactions.shown(), pr0, present->0.set(), present->0.set());
        outer(object_parts(*object, from, p0, a0, d), object.keys(), p0, sh1, reactions.shown(), present->0.set(), present->0.set());
        object_done(*object, from, p0, a0, d, reactions.shown(), present->0.set());
    }
//@before call react 0
    let ghost sh1 = reactions.shown();
//@after call react 0
    proof {
        let v = *dst; 
        shown_only(sh1, p0, reactions.shown()[p0], pr0);
        outer_elsewhere(p0, s0, sh1, reactions.shown(), pr0, pr0, pr0);
        assert(formed(*dst, a0, d));
        assert(synced(reactions.shown(), pr0, *dst, p0, a0, d));
        assert(holds(*dst, from, pr0, p0, a0, d));
    }
//@before call react 2
    let ghost sh1 = reactions.shown();
//@after call react 2
    proof {
        let v = *dst; let l = v->Array_0; assert(v == Value::Array(l)); assert(l@.len() == 0); assert(items_shown(at(reactions.shown(), p0), 0));
        shown_only(sh1, p0, reactions.shown()[p0], pr0);
        outer_elsewhere(p0, s0, sh1, reactions.shown(), pr0, pr0, pr0);
        assert(formed(*dst, a0, d));
        assert(synced(reactions.shown(), pr0, *dst, p0, a0, d));
        assert(holds(*dst, from, pr0, p0, a0, d));
    }
//@before call react 5
    let ghost sh1 = reactions.shown();
//@after call react 5
    proof {
        let v = **dst; 
        shown_only(sh1, p0, reactions.shown()[p0], pr0);
        outer_elsewhere(p0, s0, sh1, reactions.shown(), pr0, pr0, pr0);
        assert(formed(**dst, a0, d));
        assert(synced(reactions.shown(), pr0, **dst, p0, a0, d));
        assert(holds(**dst, from, pr0, p0, a0, d));
    }
//@end
//@fn src/view_model.rs ViewModel::bind
//@rewrite vec![] => vx_log(self.given)
//@ret r
    requires ready(*old(self)), all_fit(old(self).bindings.map()),
    ensures
        step(*old(self), *final(self), *value, r),
        ready(ViewModel { given: Ghost(r.shown()), ..*final(self) }),
        held(*old(self), *value) ==> r.count() == 0 && r.shown() == old(self).given@ && final(self).present_objects.set() == old(self).present_objects.set(),
        prescribed(r.shown(), final(self).model, *value, ""@, ""@, old(self).model_array_default.map()),
//@ end
    proof { c01(reactions.shown(), self.present_objects.set(), self.model, *value, ""@, ""@, self.model_array_default.map()); }
//@end
//@fn src/view_model.rs ViewModel::clear_arrays
//@option mutref object
    ensures cleared(*old(value), *final(value)),
    decreases size_of(*old(value)),
//@start
    broadcast use {size_array, size_object, obj_keys};
    let ghost m0 = *value;
//@loop 0 before
    let ghost o0 = *__vx_c0;
    proof { assert(m0->Object_0 == o0); assert(m0 == Value::Object(o0)); }
//@loop 0
    invariant
        m0 == *old(value), m0 == Value::Object(o0), __vx_i0 <= o0.keys().len(), __vx_c0.keys() == o0.keys(),
        forall|j: int| 0 <= j < __vx_i0 ==> cleared(o0.map()[#[trigger] o0.keys()[j]], __vx_c0.map()[o0.keys()[j]]),
        forall|j: int| __vx_i0 <= j < o0.keys().len() ==> __vx_c0.map()[#[trigger] o0.keys()[j]] == o0.map()[o0.keys()[j]],
    decreases o0.keys().len() - __vx_i0
//@loop 0 start
    broadcast use {size_array, size_object, obj_keys};
    proof { assert(o0.keys().contains(o0.keys()[__vx_i0 as int])); assert(o0.map().contains_key(o0.keys()[__vx_i0 as int])); }
//@loop 0 after
    proof {
        assert forall|k: Seq<char>| #[trigger] o0.map().contains_key(k) implies cleared(o0.map()[k], object.map()[k]) by {
            assert(o0.keys().contains(k));
            let j = choose|j: int| 0 <= j < o0.keys().len() && o0.keys()[j] == k;
        }
        let c = Value::Object(*object); assert(c->Object_0 == *object); assert(cleared(m0, c));
    }
//@end
//@fn src/view_model.rs ViewModel::memorize_array_default
//@option ref array
//@option ref object
//@option entries object
    requires conforms(*value, type_path@), known(old(default).map()),
    ensures known(final(default).map()), grows(old(default).map(), final(default).map()), covers(*value, type_path@, final(default).map()),
    decreases size_of(*value),
//@start
    broadcast use {size_array, size_object, obj_keys};
    let ghost d0 = default.map();
    let ghost m0 = *value;
    let ghost a0 = type_path@;
    proof { star_text(a0); if let Value::Array(l) = m0 { assert(m0->Array_0 == l); } if let Value::Object(o) = m0 { assert(m0->Object_0 == o); } }
//@after call insert 0
    proof {
        assert(m0->Array_0 == *array); assert(*item == array@[0]); assert(conforms(*item, sub(a0, "*"@))); assert(cleared(*item, default.map()[a0]));
        known_more(d0, a0, default.map()[a0], *item); assert(default.map() == d0.insert(a0, default.map()[a0]));
    }
//@after call insert 1
    proof { assert(m0->Object_0 == *object); known_more(d0, a0, default.map()[a0], Value::Null); assert(default.map() == d0.insert(a0, default.map()[a0])); }
//@loop 0
    invariant
        m0 == *value, m0 == Value::Array(*array), conforms(m0, a0), a0 == type_path@, __vx_i0 <= array@.len(), *__vx_c0 == *array,
        known(default.map()), grows(d0, default.map()), default.map().contains_key(a0),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    broadcast use {size_array, size_object};
    proof { star_text(a0); assert(m0->Array_0 == *array); assert(conforms(array@[__vx_i0 as int], sub(a0, "*"@))); }
//@loop 1
    invariant
        m0 == *value, m0 == Value::Object(*object), conforms(m0, a0), a0 == type_path@, __vx_i1 <= object.keys().len(), *__vx_c1 == *object,
        known(default.map()), grows(d0, default.map()), default.map().contains_key(a0),
        forall|j: int| 0 <= j < __vx_i1 ==> covers(object.map()[#[trigger] object.keys()[j]], sub(a0, object.keys()[j]), default.map()),
    decreases __vx_c1.keys().len() - __vx_i1
//@loop 1 start
    broadcast use {size_array, size_object, obj_keys};
    let ghost i0 = __vx_i1 as int;
    let ghost d1 = default.map();
    proof { assert(m0->Object_0 == *object); assert(object.keys().contains(object.keys()[i0])); assert(object.map().contains_key(object.keys()[i0])); }
//@loop 1 end
    proof {
        assert forall|j: int| 0 <= j < __vx_i1 implies covers(object.map()[#[trigger] object.keys()[j]], sub(a0, object.keys()[j]), default.map()) by {
            if j < i0 { covers_more(object.map()[object.keys()[j]], sub(a0, object.keys()[j]), d1, default.map()); }
        }
    }
//@loop 1 after
    proof {
        broadcast use obj_keys;
        assert(m0->Object_0 == *object);
        assert forall|k: Seq<char>| #[trigger] object.map().contains_key(k) implies covers(object.map()[k], sub(a0, k), default.map()) by {
            assert(object.keys().contains(k));
            let j = choose|j: int| 0 <= j < object.keys().len() && object.keys()[j] == k;
        }
    }
//@end
//@fn src/view_model.rs ViewModel::create
//@rewrite present_objects: => given: Ghost(Map::empty()), present_objects:
//@rewrite HashSet::new() => Names::new()
//@rewrite HashMap::new() => Dict::new()
//@ret r
    requires conforms(model, ""@),
    ensures ready(r), r.bindings == bindings,
//@start
    let ghost m0 = model;
//@after call clear_arrays 0
    proof { starts_items(model_array_default.map()); starts(m0, model, ""@, ""@, model_array_default.map()); }
//@end
}
}
fn main() {}
