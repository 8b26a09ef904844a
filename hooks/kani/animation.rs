use crate::css::Units;

pub fn any_units() -> Units {
    match kani::any::<u8>() % 7 { 0 => Units::Vh, 1 => Units::Vw, 2 => Units::Vmax, 3 => Units::Vmin, 4 => Units::Px, 5 => Units::Em, _ => Units::Rem }
}
fn between(a: f32, x: f32, b: f32) -> bool { if a <= b { a <= x && x <= b } else { b <= x && x <= a } }
fn moderate(x: f32) -> bool { x.is_finite() && x.abs() <= 1.0e30 }
fn any_number() -> f32 { let x: f32 = kani::any(); kani::assume(moderate(x)); x }
fn any_progress() -> f32 { let t: f32 = kani::any(); kani::assume(t >= 0.0 && t <= 1.0); t }

#[kani::proof]
fn number_between() {
    let (a, b, t) = (any_number(), any_number(), any_progress());
    match animate(PropertyKey::Opacity, &Number(a), &Number(b), t) {
        Number(x) => {
            assert!(between(a, x, b));
            if t == 0.0 { assert!(x == a) }
            if t == 1.0 { assert!(x == b) }
        }
        _ => assert!(false),
    }
}
#[kani::proof]
fn color_between() {
    let (a, b): ([u8; 4], [u8; 4]) = (kani::any(), kani::any());
    let t = any_progress();
    match animate(PropertyKey::Color, &Color(a), &Color(b), t) {
        Color(x) => for i in 0..4 {
            assert!(if a[i] <= b[i] { a[i] <= x[i] && x[i] <= b[i] } else { b[i] <= x[i] && x[i] <= a[i] });
            if t == 0.0 { assert!(x[i] == a[i]) }
            if t == 1.0 { assert!(x[i] == b[i]) }
        },
        _ => assert!(false),
    }
}
#[kani::proof]
fn update_clock() {
    let mut a = Animator {
        name: String::new(), delay: kani::any(), direction: AnimationDirection::Normal, duration: kani::any(), fill_mode: AnimationFillMode::None,
        timing: TimingFunction::Linear, iterations: if kani::any() { AnimationIterations::Infinite } else { AnimationIterations::Number(kani::any()) }, running: kani::any(), time: kani::any(),
    };
    let dt: f32 = kani::any();
    kani::assume(a.time >= 0.0 && a.time <= 1.0e9 && dt >= 0.0 && dt <= 1.0e9 && a.duration.is_finite() && a.delay.is_finite());
    if let AnimationIterations::Number(n) = a.iterations { kani::assume(n.is_finite()); }
    let before = a.time;
    let r = a.update(dt);
    assert!(a.time == if a.running && a.duration > 0.0 { before + dt } else { before });
    if let Some(p) = r { assert!(p >= 0.0 && p <= 1.0) }
    assert!(r.is_none() == (a.time - a.delay < 0.0));
}
