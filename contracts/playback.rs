use vstd::prelude::*;
verus! {
// C14 interpolation, C15 animation clock, C16 sampling of key frames, C17 transitions (on real numbers)
//@reals
//@include prelude.inc
//@include reals.inc
//@include values.inc
impl PropertyDescriptor {
//@fn src/css/model.rs PropertyDescriptor::new
//@ret r
    ensures r == (PropertyDescriptor { key, index }),
//@end
}
pub type Rgba = [u8; 4];

// ---- C14 ----
pub open spec fn mix(a: real, b: real, t: real) -> real { a + (b - a) * t }
pub open spec fn mix_byte(a: u8, b: u8, t: real) -> u8 { cut(mix(a as real, b as real, t), 255) as u8 }
pub open spec fn mix_color(a: Rgba, b: Rgba, t: real, c: Rgba) -> bool {
    forall|i: int| 0 <= i < 4 ==> #[trigger] c[i] == mix_byte(a[i], b[i], t)
}
pub open spec fn zero_of(v: ComputedValue) -> ComputedValue {
    match v {
        ComputedValue::Percentage(_) => ComputedValue::Percentage(f_of(0.0real)),
        ComputedValue::Number(_) => ComputedValue::Number(f_of(0.0real)),
        ComputedValue::Dimension(d) => ComputedValue::Dimension(Dim { value: f_of(0.0real), unit: d.unit }),
        _ => ComputedValue::Zero,
    }
}
/// r is the value at progress t of the way from a to b
pub open spec fn interp(a: ComputedValue, b: ComputedValue, t: real, r: ComputedValue) -> bool {
    if t == 0.0real { r == a } else if t == 1.0real { r == b } else {
        let (x, y) = if a is Zero && !(b is Zero) { (zero_of(b), b) } else if b is Zero && !(a is Zero) { (a, zero_of(a)) } else { (a, b) };
        match (x, y) {
            (ComputedValue::Number(p), ComputedValue::Number(q)) => r == ComputedValue::Number(f_of(mix(p@, q@, t))),
            (ComputedValue::Percentage(p), ComputedValue::Percentage(q)) =>
                r == ComputedValue::Percentage(f_of(mix(p@, q@, t))) || (b is Zero && mix(p@, q@, t) == 0.0real && r is Zero),
            (ComputedValue::Dimension(p), ComputedValue::Dimension(q)) =>
                if p.unit == q.unit { r == ComputedValue::Dimension(Dim { value: f_of(mix(p.value@, q.value@, t)), unit: p.unit }) }
                else { r == if t < 0.5real { a } else { b } },
            (ComputedValue::Color(p), ComputedValue::Color(q)) => r matches ComputedValue::Color(c) && mix_color(p, q, t, c),
            _ => r == if t < 0.5real { a } else { b },
        }
    }
}
//@fn src/animation.rs number
//@ret r
    ensures r == ComputedValue::Number(f_of(mix(a@, b@, t@))),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/animation.rs percentage
//@ret r
    ensures r == ComputedValue::Percentage(f_of(mix(a@, b@, t@))),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/animation.rs dimension
//@ret r
    ensures a.unit == b.unit ==> r == ComputedValue::Dimension(Dim { value: f_of(mix(a.value@, b.value@, t@)), unit: a.unit }),
        a.unit != b.unit ==> r == ComputedValue::Dimension(if t@ < 0.5real { *a } else { *b }),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/animation.rs color
//@option float casts
//@ret r
    requires 0.0real <= t@ <= 1.0real,
    ensures r matches ComputedValue::Color(c) && mix_color(*x, *y, t@, c),
//@start
    broadcast use {f_of_view, f_ext};
//@end
//@fn src/animation.rs animate
//@ret r
    requires 0.0real <= t@ <= 1.0real,
    ensures interp(*a, *b, t@, r),
//@start
    broadcast use {f_of_view, f_ext};
//@end
// what `interp` says, in the words of C14
pub open spec fn btw(a: real, b: real, x: real) -> bool { rmin(a, b) <= x <= rmax(a, b) }
proof fn mix_between(a: real, b: real, t: real)
    requires 0.0real <= t <= 1.0real,
    ensures btw(a, b, mix(a, b, t)),
{
    assert(a <= b ==> 0.0real <= (b - a) * t <= b - a) by (nonlinear_arith) requires 0.0real <= t <= 1.0real;
    assert(a >= b ==> b - a <= (b - a) * t <= 0.0real) by (nonlinear_arith) requires 0.0real <= t <= 1.0real;
}
proof fn mix_moves_on(a: real, b: real, t: real, u: real)
    requires 0.0real <= t <= u <= 1.0real,
    ensures btw(mix(a, b, t), b, mix(a, b, u)),
{
    assert(a <= b ==> a + (b - a) * t <= a + (b - a) * u <= b) by (nonlinear_arith) requires 0.0real <= t <= u <= 1.0real;
    assert(a >= b ==> a + (b - a) * t >= a + (b - a) * u >= b) by (nonlinear_arith) requires 0.0real <= t <= u <= 1.0real;
}
proof fn mix_ends(a: real, b: real)
    ensures mix(a, b, 0.0real) == a, mix(a, b, 1.0real) == b,
{
    assert((b - a) * 0.0real == 0.0real && (b - a) * 1.0real == b - a) by (nonlinear_arith);
}
proof fn cut_between(a: int, b: int, x: real)
    requires 0 <= a <= 255, 0 <= b <= 255, btw(a as real, b as real, x),
    ensures (if a <= b { a } else { b }) <= cut(x, 255) <= (if a >= b { a } else { b }),
{}
proof fn cut_monotone(x: real, y: real)
    requires x <= y,
    ensures cut(x, 255) <= cut(y, 255),
{}
/// C14: the kind and unit of the end points, and between them
pub proof fn c14_between(a: ComputedValue, b: ComputedValue, t: real, r: ComputedValue)
    requires 0.0real <= t <= 1.0real, interp(a, b, t, r),
    ensures
        (a matches ComputedValue::Number(p) && b matches ComputedValue::Number(q) && (r matches ComputedValue::Number(z) ==> btw(p@, q@, z@)) && r is Number) || !(a is Number && b is Number),
        (a matches ComputedValue::Percentage(p) && b matches ComputedValue::Percentage(q) && (r matches ComputedValue::Percentage(z) ==> btw(p@, q@, z@)) && r is Percentage) || !(a is Percentage && b is Percentage),
        (a matches ComputedValue::Dimension(p) && b matches ComputedValue::Dimension(q) && r is Dimension && (r matches ComputedValue::Dimension(z) ==> (p.unit == q.unit ==> z.unit == p.unit && btw(p.value@, q.value@, z.value@)) && (p.unit != q.unit ==> z == p || z == q))) || !(a is Dimension && b is Dimension),
        (a matches ComputedValue::Color(p) && b matches ComputedValue::Color(q) && r is Color && (r matches ComputedValue::Color(z) ==> forall|i: int| 0 <= i < 4 ==> (p[i] <= #[trigger] z[i] <= q[i] || q[i] <= z[i] <= p[i]))) || !(a is Color && b is Color),
        t == 0.0real ==> r == a, t == 1.0real ==> r == b,
{
    broadcast use {f_of_view, f_ext};
    match (a, b) {
        (ComputedValue::Number(p), ComputedValue::Number(q)) => { mix_between(p@, q@, t); }
        (ComputedValue::Percentage(p), ComputedValue::Percentage(q)) => { mix_between(p@, q@, t); }
        (ComputedValue::Dimension(p), ComputedValue::Dimension(q)) => { mix_between(p.value@, q.value@, t); }
        (ComputedValue::Color(p), ComputedValue::Color(q)) => {
            if t != 0.0real && t != 1.0real {
                let z = r->Color_0;
                assert forall|i: int| 0 <= i < 4 implies (p[i] <= #[trigger] z[i] <= q[i] || q[i] <= z[i] <= p[i]) by {
                    mix_between(p[i] as real, q[i] as real, t);
                    cut_between(p[i] as int, q[i] as int, mix(p[i] as real, q[i] as real, t));
                }
            }
        }
        _ => {}
    }
}
/// C14: the value never moves back
pub proof fn c14_monotone(a: ComputedValue, b: ComputedValue, t: real, u: real, r: ComputedValue, s: ComputedValue)
    requires 0.0real <= t <= u <= 1.0real, interp(a, b, t, r), interp(a, b, u, s),
    ensures
        a matches ComputedValue::Number(p) ==> b matches ComputedValue::Number(q) ==> (r matches ComputedValue::Number(x) && s matches ComputedValue::Number(y) && btw(x@, q@, y@)),
        a matches ComputedValue::Percentage(p) ==> b matches ComputedValue::Percentage(q) ==> (r matches ComputedValue::Percentage(x) && s matches ComputedValue::Percentage(y) && btw(x@, q@, y@)),
        a matches ComputedValue::Dimension(p) ==> b matches ComputedValue::Dimension(q) ==> p.unit == q.unit ==> (r matches ComputedValue::Dimension(x) && s matches ComputedValue::Dimension(y) && btw(x.value@, q.value@, y.value@)),
        a matches ComputedValue::Color(p) ==> b matches ComputedValue::Color(q) ==> (r matches ComputedValue::Color(x) && s matches ComputedValue::Color(y) && forall|i: int| 0 <= i < 4 ==> (x[i] <= #[trigger] y[i] <= q[i] || q[i] <= y[i] <= x[i])),
{
    broadcast use {f_of_view, f_ext};
    match (a, b) {
        (ComputedValue::Number(p), ComputedValue::Number(q)) => { mix_moves_on(p@, q@, t, u); mix_ends(p@, q@); }
        (ComputedValue::Percentage(p), ComputedValue::Percentage(q)) => { mix_moves_on(p@, q@, t, u); mix_ends(p@, q@); }
        (ComputedValue::Dimension(p), ComputedValue::Dimension(q)) => { mix_moves_on(p.value@, q.value@, t, u); mix_ends(p.value@, q.value@); }
        (ComputedValue::Color(p), ComputedValue::Color(q)) => {
            let (x, y) = (r->Color_0, s->Color_0);
            color_exact(p, q, t, r);
            color_exact(p, q, u, s);
            assert forall|i: int| 0 <= i < 4 implies (x[i] <= #[trigger] y[i] <= q[i] || q[i] <= y[i] <= x[i]) by {
                assert(x[i] == mix_byte(p[i], q[i], t) && y[i] == mix_byte(p[i], q[i], u));
                bytes_move_on(p[i], q[i], t, u);
            }
        }
        _ => {}
    }
}
proof fn color_exact(p: Rgba, q: Rgba, t: real, r: ComputedValue)
    requires 0.0real <= t <= 1.0real, interp(ComputedValue::Color(p), ComputedValue::Color(q), t, r),
    ensures r matches ComputedValue::Color(c) && mix_color(p, q, t, c),
{
    assert forall|i: int| 0 <= i < 4 implies #[trigger] mix_byte(p[i], q[i], 0.0real) == p[i] && mix_byte(p[i], q[i], 1.0real) == q[i] by {
        mix_ends(p[i] as real, q[i] as real);
    }
}
proof fn bytes_move_on(a: u8, b: u8, t: real, u: real)
    requires 0.0real <= t <= u <= 1.0real,
    ensures mix_byte(a, b, t) <= mix_byte(a, b, u) <= b || b <= mix_byte(a, b, u) <= mix_byte(a, b, t),
{
    let (x, y) = (a as real, b as real);
    mix_moves_on(x, y, t, u);
    mix_between(x, y, t);
    mix_between(x, y, u);
    cut_between(a as int, b as int, mix(x, y, t));
    cut_between(a as int, b as int, mix(x, y, u));
    if mix(x, y, t) <= mix(x, y, u) { cut_monotone(mix(x, y, t), mix(x, y, u)); } else { cut_monotone(mix(x, y, u), mix(x, y, t)); }
}

// ---- C15 ----
//@item src/animation.rs AnimationIterations
impl Copy for AnimationIterations {}
impl Clone for AnimationIterations { #[verifier::external_body] fn clone(&self) -> (r: AnimationIterations) ensures r == *self { *self } }
//@item src/animation.rs Animator keep delay,duration,iterations,running,time
/// what is left of a non-negative number after whole multiples, whole multiples count as a full one
pub open spec fn within(t: real, d: real) -> real { if rem(t, d) == 0.0real && t > 0.0real { d } else { rem(t, d) } }
pub open spec fn progress(a: Animator) -> Option<real> {
    let t = a.time@ - a.delay@;
    if t < 0.0real { None }
    else if a.duration@ <= 0.0real { Some(1.0real) }
    else {
        match a.iterations {
            AnimationIterations::Number(n) if t >= n@ * a.duration@ => Some(within(rmax(n@, 0.0real), 1.0real)),
            _ => Some(within(t, a.duration@) / a.duration@),
        }
    }
}
proof fn within_bounds(t: real, d: real)
    requires t >= 0.0real, d > 0.0real,
    ensures 0.0real <= within(t, d) <= d, 0.0real <= within(t, d) / d <= 1.0real,
{
    rem_bounds(t, d);
    let x = within(t, d);
    assert(0.0real <= x / d <= 1.0real) by (nonlinear_arith) requires 0.0real <= x <= d, d > 0.0real;
}
/// C15: progress is between 0 and 1
pub broadcast proof fn progress_bounds(a: Animator)
    ensures #[trigger] progress(a) matches Some(p) ==> 0.0real <= p <= 1.0real,
{
    let t = a.time@ - a.delay@;
    if t >= 0.0real && a.duration@ > 0.0real {
        within_bounds(t, a.duration@);
        if let AnimationIterations::Number(n) = a.iterations { within_bounds(rmax(n@, 0.0real), 1.0real); }
    }
}
impl Animator {
//@fn src/animation.rs Animator::restart
    ensures *final(self) == (Animator { time: final(self).time, ..*old(self) }), final(self).time@ == 0.0real,
//@end
//@fn src/animation.rs Animator::update
//@ret r
    requires time@ >= 0.0real,
    ensures
        *final(self) == (Animator { time: final(self).time, ..*old(self) }),
        final(self).time@ == old(self).time@ + (if old(self).running && old(self).duration@ > 0.0real { time@ } else { 0.0real }),
        progress(*final(self)) matches Some(p) ==> r matches Some(x) && x@ == p,
        progress(*final(self)) is None ==> r is None,
        r matches Some(x) ==> 0.0real <= x@ <= 1.0real,
//@start
    broadcast use {f_of_view, f_ext, progress_bounds};
//@end
}
/// C15: within a cycle progress advances by elapsed/duration
pub proof fn c15_cycle(a: Animator, p: real)
    requires progress(a) == Some(p), a.duration@ > 0.0real, a.iterations matches AnimationIterations::Number(n) ==> a.time@ - a.delay@ < n@ * a.duration@,
    ensures exists|k: nat| a.time@ - a.delay@ == #[trigger] times(k, a.duration@) + p * a.duration@,
{
    let (t, d) = (a.time@ - a.delay@, a.duration@);
    axiom_rem(t, d);
    let x = within(t, d);
    assert(x / d * d == x) by (nonlinear_arith) requires d > 0.0real;
    let k = choose|k: nat| t == #[trigger] times(k, d) + rem(t, d);
    if rem(t, d) == 0.0real && t > 0.0real {
        assert(k > 0) by { assert(times(0, d) == 0.0real) by (nonlinear_arith) requires times(0, d) == (0nat as real) * d; }
        assert(times((k - 1) as nat, d) == times(k, d) - d) by (nonlinear_arith) requires times((k - 1) as nat, d) == ((k - 1) as nat as real) * d, times(k, d) == (k as real) * d, k > 0;
        assert(t == times((k - 1) as nat, d) + p * d);
    } else {
        assert(t == times(k, d) + p * d);
    }
}
/// C15: a finite animation stays at the end of its last cycle
pub proof fn c15_finished(a: Animator, b: Animator, n: F)
    requires
        a.iterations == AnimationIterations::Number(n), b == (Animator { time: b.time, ..a }), b.time@ >= a.time@,
        a.duration@ > 0.0real, a.time@ - a.delay@ >= n@ * a.duration@, a.time@ >= a.delay@,
    ensures progress(b) == progress(a), progress(b) == Some(within(rmax(n@, 0.0real), 1.0real)),
{}
/// C15: a paused animation does not move; there is no progress before the delay
pub proof fn c15_delay(a: Animator)
    ensures (progress(a) is None) == (a.time@ < a.delay@),
{}

// ---- C16 ----
//@include stylemaps.inc
/// v is what a track shows at percentage t: a key frame's value, or between the nearest key frames around
pub open spec fn sampled(f: Map<u32, ComputedValue>, t: u32, v: ComputedValue) -> bool {
    if f.contains_key(t) { v == f[t] } else {
        exists|a: u32, b: u32| #[trigger] around(f, t, a, b) && interp(f[a], f[b], (t - a) as real / ((b - a) as real), v)
    }
}
pub open spec fn around(f: Map<u32, ComputedValue>, t: u32, a: u32, b: u32) -> bool {
    &&& f.contains_key(a) && f.contains_key(b) && a < t < b
    &&& forall|k: u32| #[trigger] f.contains_key(k) ==> k <= a || k >= b
}
proof fn ratio(x: real, y: real)
    requires 0.0real <= x <= y, y > 0.0real,
    ensures 0.0real <= x / y <= 1.0real,
{
    assert(0.0real <= x / y <= 1.0real) by (nonlinear_arith) requires 0.0real <= x <= y, y > 0.0real;
}
impl Animator {
//@fn src/animation.rs Animator::play_track
    requires track.frames.map().contains_key(0), track.frames.map().contains_key(100), t <= 100,
    ensures exists|v: ComputedValue| sampled(track.frames.map(), t, v) && final(style).map() == #[trigger] old(style).map().insert(track.descriptor, v),
//@start
    broadcast use {f_of_view, f_ext};
    let ghost f = track.frames.map();
//@loop 0
    invariant_except_break
        b == 0,
        forall|i: int| 0 <= i < __vx_i0 ==> *#[trigger] __vx_c0@[i] < t,
        __vx_i0 > 0 ==> a == *__vx_c0@[__vx_i0 - 1],
        __vx_i0 == 0 ==> a == 0,
    invariant
        f == track.frames.map(), f.contains_key(0), f.contains_key(100), t <= 100, __vx_i0 <= __vx_c0@.len(),
        forall|i: int, j: int| 0 <= i < j < __vx_c0@.len() ==> *__vx_c0@[i] < *__vx_c0@[j],
        forall|i: int| 0 <= i < __vx_c0@.len() ==> f.contains_key(*#[trigger] __vx_c0@[i]),
        forall|k: u32| f.contains_key(k) ==> exists|i: int| 0 <= i < __vx_c0@.len() && *#[trigger] __vx_c0@[i] == k,
    ensures
        f.contains_key(a), f.contains_key(b), a <= t <= b, f.contains_key(t) ==> a == t && b == t,
        a != b ==> around(f, t, a, b),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 after
    proof { if b > a { ratio((t - a) as real, (b - a) as real); } }
//@end
}
/// both have the same value there, or none
pub open spec fn same_at(s0: Map<PropertyDescriptor, ComputedValue>, s1: Map<PropertyDescriptor, ComputedValue>, d: PropertyDescriptor) -> bool {
    s1.contains_key(d) == s0.contains_key(d) && (s0.contains_key(d) ==> s1[d] == s0[d])
}
pub open spec fn complete(t: AnimationTrack) -> bool { t.frames.map().contains_key(0) && t.frames.map().contains_key(100) }
impl Animator {
//@fn src/animation.rs Animator::play
//@option float casts
    requires
        time@ >= 0.0real, forall|i: int| 0 <= i < tracks@.len() ==> complete(#[trigger] tracks@[i]),
        forall|i: int, j: int| 0 <= i < j < tracks@.len() ==> tracks@[i].descriptor != tracks@[j].descriptor,
    ensures
        *final(self) == (Animator { time: final(self).time, ..*old(self) }),
        final(self).time@ == old(self).time@ + (if old(self).running && old(self).duration@ > 0.0real { time@ } else { 0.0real }),
        progress(*final(self)) is None ==> final(style).map() == old(style).map(),
        progress(*final(self)) matches Some(p) ==> forall|i: int| 0 <= i < tracks@.len() ==>
            shows(final(style).map(), #[trigger] tracks@[i], cut(p * 100.0real, u32::MAX as int) as u32),
        forall|d: PropertyDescriptor| (forall|i: int| 0 <= i < tracks@.len() ==> #[trigger] tracks@[i].descriptor != d) ==>
            #[trigger] same_at(old(style).map(), final(style).map(), d),
//@start
    broadcast use {f_of_view, f_ext, progress_bounds};
    let ghost s0 = style.map();
//@loop 0
    invariant
        __vx_i0 <= __vx_c0@.len(), __vx_c0@ == tracks@, step <= 100,
        forall|i: int| 0 <= i < tracks@.len() ==> complete(#[trigger] tracks@[i]),
        forall|i: int, j: int| 0 <= i < j < tracks@.len() ==> tracks@[i].descriptor != tracks@[j].descriptor,
        forall|i: int| 0 <= i < __vx_i0 ==> shows(style.map(), #[trigger] tracks@[i], step),
        forall|d: PropertyDescriptor| (forall|i: int| 0 <= i < tracks@.len() ==> #[trigger] tracks@[i].descriptor != d) ==>
            #[trigger] same_at(s0, style.map(), d),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    let ghost before = style.map();
    let ghost k = __vx_i0 as int;
//@loop 0 end
    proof {
        assert forall|d: PropertyDescriptor| (forall|i: int| 0 <= i < tracks@.len() ==> #[trigger] tracks@[i].descriptor != d) implies #[trigger] same_at(s0, style.map(), d) by {
            assert(same_at(s0, before, d));
            assert(tracks@[k].descriptor != d);
        }
        let v = choose|v: ComputedValue| sampled(track.frames.map(), step, v) && style.map() == #[trigger] before.insert(track.descriptor, v);
        assert(tracks@[k] == *track);
        assert(shows(style.map(), tracks@[k], step));
        assert forall|i: int| 0 <= i < k implies shows(style.map(), #[trigger] tracks@[i], step) by {
            assert(tracks@[i].descriptor != tracks@[k].descriptor);
            assert(shows(before, tracks@[i], step));
        }
    }
//@end
}
pub open spec fn shows(s: Map<PropertyDescriptor, ComputedValue>, t: AnimationTrack, step: u32) -> bool {
    s.contains_key(t.descriptor) && sampled(t.frames.map(), step, s[t.descriptor])
}

// ---- C17 ----
//@item src/animation.rs Transition
pub type Style = Map<PropertyDescriptor, ComputedValue>;
pub type Ranges = Seq<(ComputedValue, ComputedValue)>;
pub open spec fn at(key: PropertyKey, index: nat) -> PropertyDescriptor { PropertyDescriptor { key, index: index as usize } }
/// a style is finite: the indexes of a property are bounded (assumed of the dependency)
pub uninterp spec fn bound(s: Style) -> nat;
pub axiom fn axiom_bound(s: Style) ensures bound(s) < usize::MAX, forall|d: PropertyDescriptor| #[trigger] s.contains_key(d) ==> d.index < bound(s);
/// n is the number of layers that have both a value and a range
pub open spec fn shown_layers(s: Style, key: PropertyKey, ranges: Ranges, n: nat) -> bool {
    &&& n <= ranges.len() && n < usize::MAX
    &&& forall|i: nat| i < n ==> s.contains_key(#[trigger] at(key, i))
    &&& n < ranges.len() ==> !s.contains_key(at(key, n))
}
pub open spec fn shown_progress(a: Animator) -> real { match progress(a) { Some(p) => p, None => 0.0real } }
/// what a transition shows: the value between, per layer; every other property as it was
pub open spec fn displays(s0: Style, s1: Style, key: PropertyKey, ranges: Ranges, n: nat, p: real) -> bool {
    &&& forall|d: PropertyDescriptor| (d.key != key || d.index >= n) ==> #[trigger] same_at(s0, s1, d)
    &&& forall|i: nat| i < n ==> s1.contains_key(#[trigger] at(key, i)) && interp(ranges[i as int].0, ranges[i as int].1, p, s1[at(key, i)])
}
pub open spec fn retargeted(s0: Style, key: PropertyKey, ranges: Ranges, n: nat) -> bool {
    exists|i: nat| i < n && ranges[i as int].1 != s0[#[trigger] at(key, i)]
}
/// the ranges and the clock after playing
pub open spec fn moved(s0: Style, s1: Style, key: PropertyKey, before: Ranges, after: Ranges, n: nat) -> bool {
    if retargeted(s0, key, before, n) {
        // from what is displayed now to the new value
        after.len() == n && forall|i: nat| i < n ==> #[trigger] after[i as int] == (s1[at(key, i)], s0[at(key, i)])
    } else { after == before.take(n as int) }
}
impl Transition {
//@fn src/animation.rs Transition::init_after_style_applied
    requires old(self).ranges@.len() < usize::MAX,
    ensures
        *final(style) == *old(style), final(self).key == old(self).key, final(self).animator == old(self).animator,
        old(self).key is None ==> final(self).ranges@ == old(self).ranges@,
        old(self).key matches Some(key) ==> ({
            &&& old(self).ranges@ == final(self).ranges@.take(old(self).ranges@.len() as int)
            &&& final(self).ranges@.len() >= old(self).ranges@.len()
            &&& !old(style).map().contains_key(at(key, final(self).ranges@.len()))
            &&& forall|i: nat| old(self).ranges@.len() <= i < final(self).ranges@.len() ==> old(style).map().contains_key(#[trigger] at(key, i))
                && final(self).ranges@[i as int] == (old(style).map()[at(key, i)], old(style).map()[at(key, i)])
        }),
//@loop 0
    invariant
        *style == *old(style), self.key == old(self).key, self.animator == old(self).animator, old(self).key == Some(key),
        index == self.ranges@.len(), index >= old(self).ranges@.len(),
        index < usize::MAX,
        old(self).ranges@ == self.ranges@.take(old(self).ranges@.len() as int),
        forall|i: nat| old(self).ranges@.len() <= i < self.ranges@.len() ==> old(style).map().contains_key(#[trigger] at(key, i))
            && self.ranges@[i as int] == (old(style).map()[at(key, i)], old(style).map()[at(key, i)]),
    decreases usize::MAX - index
//@loop 0 start
    proof { axiom_bound(style.map()); }
    let ghost r0 = self.ranges@;
//@after call new 0
    proof { assert(descriptor == at(key, r0.len())); }
//@loop 0 end
    proof {
        assert forall|i: nat| old(self).ranges@.len() <= i < self.ranges@.len() implies old(style).map().contains_key(#[trigger] at(key, i))
            && self.ranges@[i as int] == (old(style).map()[at(key, i)], old(style).map()[at(key, i)]) by {
            if i < r0.len() { assert(r0[i as int] == (old(style).map()[at(key, i)], old(style).map()[at(key, i)])); }
        }
    }
    proof { assert(self.ranges@.take(old(self).ranges@.len() as int) == r0.take(old(self).ranges@.len() as int)); }
//@end
//@fn src/animation.rs Transition::play
    requires time@ >= 0.0real, old(self).ranges@.len() < usize::MAX,
    ensures
        final(self).key == old(self).key,
        old(self).key is None ==> *final(style) == *old(style) && *final(self) == *old(self),
        old(self).key matches Some(key) ==> exists|n: nat, a: Animator| #![trigger shown_layers(old(style).map(), key, old(self).ranges@, n), shown_progress(a)] {
            &&& shown_layers(old(style).map(), key, old(self).ranges@, n)
            &&& a == (Animator { time: a.time, ..old(self).animator })
            &&& a.time@ == old(self).animator.time@ + (if old(self).animator.running && old(self).animator.duration@ > 0.0real { time@ } else { 0.0real })
            &&& displays(old(style).map(), final(style).map(), key, old(self).ranges@, n, shown_progress(a))
            &&& moved(old(style).map(), final(style).map(), key, old(self).ranges@, final(self).ranges@, n)
            &&& final(self).animator == (Animator { time: final(self).animator.time, ..a })
            &&& final(self).animator.time@ == if retargeted(old(style).map(), key, old(self).ranges@, n) { 0.0real } else { a.time@ }
        },
//@rewrite to != & value => * to != value
//@start
    broadcast use {f_of_view, f_ext, progress_bounds};
    let ghost s0 = style.map();
    let ghost r0 = self.ranges@;
//@after call update 0
    let ghost a = self.animator;
//@loop 0
    invariant_except_break
        self.ranges@ == r0, forall|i: nat| i < index ==> s0.contains_key(#[trigger] at(key, i)),
    invariant
        index <= r0.len(), r0.len() < usize::MAX, layers@.len() == index,
        self.key == Some(key), self.animator == a, 0.0real <= time@ <= 1.0real, time@ == shown_progress(a),
        displays(s0, style.map(), key, r0, index as nat, time@),
        restart == retargeted(s0, key, r0, index as nat),
        forall|i: nat| i < index ==> #[trigger] layers@[i as int] == (style.map()[at(key, i)], s0[at(key, i)]),
    ensures
        shown_layers(s0, key, r0, index as nat), self.ranges@ == r0.take(index as int),
    decreases r0.len() - index
//@loop 0 start
    broadcast use {f_of_view, f_ext, progress_bounds};
    let ghost s1 = style.map();
    let ghost l1 = layers@;
    let ghost k = index as nat;
    proof { assert(r0.take(r0.len() as int) == r0); assert(same_at(s0, s1, at(key, k))); }
//@after call new 1
    proof { assert(descriptor == at(key, k)); }
//@loop 0 end
    proof {
        assert(s0[at(key, k)] == layers@[k as int].1);
        assert(retargeted(s0, key, r0, k + 1) == (retargeted(s0, key, r0, k) || r0[k as int].1 != s0[at(key, k)])) by {
            if retargeted(s0, key, r0, k) { let i = choose|i: nat| i < k && r0[i as int].1 != s0[#[trigger] at(key, i)]; assert(i < k + 1); }
            if r0[k as int].1 != s0[at(key, k)] { assert(k < k + 1); }
        }
        assert forall|i: nat| i < k + 1 implies #[trigger] layers@[i as int] == (style.map()[at(key, i)], s0[at(key, i)]) by {
            if i < k { assert(l1[i as int] == (s1[at(key, i)], s0[at(key, i)])); assert(at(key, i) != at(key, k)); }
        }
        assert(displays(s0, style.map(), key, r0, k + 1, time@)) by {
            assert forall|d: PropertyDescriptor| d.key != key || d.index >= k + 1 implies #[trigger] same_at(s0, style.map(), d) by {
                assert(same_at(s0, s1, d));
                assert(d != at(key, k));
            }
            assert forall|i: nat| i < k + 1 implies style.map().contains_key(#[trigger] at(key, i)) && interp(r0[i as int].0, r0[i as int].1, time@, style.map()[at(key, i)]) by {
                if i < k { assert(at(key, i) != at(key, k)); }
            }
        }
    }
//@loop 0 after
    proof { assert(shown_layers(s0, key, r0, index as nat)); let _ = shown_progress(a); }
//@end
}
/// C17: a transition without changes shows the new value from delay + duration on
pub proof fn c17_settles(s0: Style, s1: Style, key: PropertyKey, ranges: Ranges, n: nat, a: Animator, one: F, i: nat)
    requires
        displays(s0, s1, key, ranges, n, shown_progress(a)), !retargeted(s0, key, ranges, n), i < n,
        a.iterations == AnimationIterations::Number(one), one@ == 1.0real,
        a.time@ >= a.delay@ + (if a.duration@ > 0.0real { a.duration@ } else { 0.0real }),
    ensures s1[at(key, i)] == s0[at(key, i)],
{
    assert(ranges[i as int].1 == s0[at(key, i)]);
    assert(progress(a) == Some(1.0real)) by {
        axiom_rem(1.0real, 1.0real);
        let k = choose|k: nat| 1.0real == #[trigger] times(k, 1.0real) + rem(1.0real, 1.0real);
        assert(times(k, 1.0real) == k as real) by (nonlinear_arith) requires times(k, 1.0real) == (k as real) * 1.0real;
        assert(k == 1);
        assert(one@ * a.duration@ == a.duration@) by (nonlinear_arith) requires one@ == 1.0real;
    }
    assert(s1.contains_key(at(key, i)));
}
/// C17: a retargeted transition starts from what is displayed, before its delay and at time zero it shows exactly that
pub proof fn c17_starts(s0: Style, s1: Style, key: PropertyKey, ranges: Ranges, n: nat, a: Animator, i: nat)
    requires
        displays(s0, s1, key, ranges, n, shown_progress(a)), i < n, a.time@ <= a.delay@, a.duration@ > 0.0real,
        a.iterations matches AnimationIterations::Number(m) ==> m@ > 0.0real,
    ensures s1[at(key, i)] == ranges[i as int].0,
{
    if a.time@ == a.delay@ {
        let d = a.duration@;
        axiom_rem(0.0real, d);
        if a.iterations is Number { let m = a.iterations->Number_0; assert(m@ * d > 0.0real) by (nonlinear_arith) requires m@ > 0.0real, d > 0.0real; }
        let k = choose|k: nat| 0.0real == #[trigger] times(k, d) + rem(0.0real, d);
        assert(times(k, d) >= 0.0real) by (nonlinear_arith) requires times(k, d) == (k as real) * d, d > 0.0real;
        assert(0.0real / d == 0.0real) by (nonlinear_arith) requires d > 0.0real;
        assert(within(0.0real, d) == 0.0real);
    }
    assert(s1.contains_key(at(key, i)));
}
fn main() {}
}
