//! C14 C15 C16 C17: displayed values over timed updates against a reference clock, sampler and transition.
use crate::core::*;
use crate::look::{actual, apply, initial, text, Ctx, Map, F, V};
use bumaga::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Interpolate, Clock, Frames, Transition }
pub struct Anim { pub kind: Kind }

const CTX: Ctx = Ctx { viewport: [800.0, 600.0], parent_font: 16.0, parent_color: [0, 0, 0, 255] };
/// the first ones are drawn more often
const PROPS: [&str; 17] = ["opacity", "width", "flex-grow", "background-color", "visibility", "left", "padding-top", "flex-shrink", "font-size", "min-width", "margin-left", "top", "right", "flex-basis", "border-top-left-radius", "overflow-x", "align-self"];
const COMMON: usize = 7;

fn same(a: &F, b: &F) -> bool {
    let n = |a: f32, b: f32| (a - b).abs() <= 2e-3 * (1.0 + a.abs().max(b.abs()));
    match (a, b) {
        (F::L(a), F::L(b)) | (F::P(a), F::P(b)) | (F::N(a), F::N(b)) => n(*a, *b),
        (F::C(a), F::C(b)) => a.iter().zip(b).all(|(a, b)| a.abs_diff(*b) <= 1),
        // an end point reached up to rounding may still be a zero of the other kind
        (F::L(a), F::P(b)) | (F::P(a), F::L(b)) => n(*a, 0.0) && n(*b, 0.0),
        _ => a == b,
    }
}
/// every value allowed at progress t
fn lerp(a: &V, b: &V, t: f64) -> Vec<V> {
    if t <= 0.0 { return vec![a.clone()]; }
    if t >= 1.0 { return vec![b.clone()]; }
    let n = |a: f32, b: f32| (a as f64 + (b as f64 - a as f64) * t) as f32;
    match (a, b) {
        (V::Num(a), V::Num(b)) => vec![V::Num(n(*a, *b))],
        (V::Pct(a), V::Pct(b)) => vec![V::Pct(n(*a, *b))],
        (V::Dim(a, u), V::Dim(b, w)) if u == w => vec![V::Dim(n(*a, *b), u)],
        (V::Num(a), V::Zero) => vec![V::Num(n(*a, 0.0))], (V::Zero, V::Num(a)) => vec![V::Num(n(0.0, *a))],
        (V::Pct(a), V::Zero) => vec![V::Pct(n(*a, 0.0))], (V::Zero, V::Pct(a)) => vec![V::Pct(n(0.0, *a))],
        (V::Dim(a, u), V::Zero) => vec![V::Dim(n(*a, 0.0), u)], (V::Zero, V::Dim(a, u)) => vec![V::Dim(n(0.0, *a), u)],
        (V::Col(a), V::Col(b)) => vec![V::Col([0, 1, 2, 3].map(|i| n(a[i] as f32, b[i] as f32) as u8))],
        _ if (t - 0.5).abs() < 1e-3 => vec![a.clone(), b.clone()],
        _ => vec![if t < 0.5 { a.clone() } else { b.clone() }],
    }
}
fn default_value(p: &str) -> V {
    match p { "opacity" => V::Num(1.0), "flex-grow" => V::Zero, "background-color" => V::Col([0; 4]), "visibility" => V::Kw("visible".into()), "padding-top" | "margin-left" | "border-top-left-radius" => V::Zero,
        "flex-shrink" => V::Num(1.0), "font-size" => V::Dim(16.0, "px"), "overflow-x" => V::Kw("visible".into()), _ => V::Kw("auto".into()) }
}
fn shown_as(p: &str, v: &V) -> F {
    let mut m = initial();
    apply(p, 0, v, &CTX, &mut m);
    let key = if p == "background-color" { "background-color[0]".to_string() } else { p.to_string() };
    m[&key].clone()
}

type Frames = Vec<(u32, Vec<(&'static str, V)>)>;
#[derive(Clone, Debug)]
struct Animation { name: String, duration: f32, delay: Option<f32>, count: Option<Option<f32>>, frames: Frames, layers: Vec<(u32, Vec<V>)>, long: bool }
#[derive(Clone, Debug)]
struct Trans { prop: &'static str, duration: f32, delay: Option<f32>, long: bool }
/// one step: which classes the element has, time since the previous update
#[derive(Clone, Debug)]
struct Step { dt: f32, anim: Option<usize>, paused: bool, trans: Option<usize>, value: Option<usize> }
pub struct Case { anims: Vec<Animation>, trans: Vec<Vec<Trans>>, own: Vec<(&'static str, V)>, own_layers: Vec<V>, values: Vec<Vec<(&'static str, V)>>, layers: usize, layered: Vec<Vec<V>>, steps: Vec<Step>, css: String }
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "html: {HTML}\ncss:\n{}", self.css)?;
        for s in &self.steps { writeln!(f, "update after {} s with c={:?}", s.dt, classes(s))?; }
        Ok(())
    }
}
const HTML: &str = "<html><body><div @class=\"{c}\"></div></body></html>";
fn classes(s: &Step) -> String {
    let mut c = vec!["own".to_string()];
    if let Some(a) = s.anim { c.push(format!("a{a}")); }
    if s.paused { c.push("p".into()); }
    if let Some(t) = s.trans { c.push(format!("t{t}")); }
    if let Some(v) = s.value { c.push(format!("v{v}")); }
    c.join(" ")
}

struct Gen<'a> { r: &'a mut Rng, kind: Kind }
impl Gen<'_> {
    fn value(&mut self, p: &str) -> V {
        let r = &mut *self.r;
        match p {
            "opacity" | "flex-grow" | "flex-shrink" => if r.chance(20) { V::Zero } else { V::Num(*r.pick(&[1.0, 0.5, 0.25, 3.0, 7.5, 20.0])) },
            "background-color" => V::Col([r.below(256) as u8, r.below(256) as u8, r.below(256) as u8, 255]),
            "visibility" => V::Kw(r.pick(&["visible", "hidden"]).to_string()),
            "overflow-x" => V::Kw(r.pick(&["visible", "hidden", "clip"]).to_string()),
            "align-self" => V::Kw(r.pick(&["start", "center", "stretch", "auto"]).to_string()),
            "font-size" => V::Dim(*r.pick(&[8.0, 12.5, 20.0, 31.0]), "px"),
            _ => match r.below(8) {
                0 => V::Zero, 1 | 2 => V::Pct(*r.pick(&[10.0, 50.0, 80.0])), 3 => V::Dim(*r.pick(&[1.0, 4.0]), *r.pick(&["em", "rem", "vw"])),
                4 if p != "padding-top" && p != "border-top-left-radius" => V::Kw("auto".into()), _ => V::Dim(*r.pick(&[0.0, 10.0, 64.0, 33.5, 200.0, -8.0]), "px"),
            },
        }
    }
    fn prop(&mut self) -> &'static str { if self.r.chance(65) { PROPS[self.r.below(COMMON)] } else { PROPS[self.r.below(PROPS.len())] } }
    fn block(&mut self, n: usize) -> Vec<(&'static str, V)> {
        let mut out: Vec<(&'static str, V)> = vec![];
        for _ in 0..n {
            let p = self.prop();
            if !out.iter().any(|x| x.0 == p) { let v = self.value(p); out.push((p, v)); }
        }
        out
    }
    fn seconds(&mut self) -> f32 { *self.r.pick(&[0.1, 0.3, 0.7, 1.0, 2.0, 0.05, 10.0, 3.3]) }
    fn animation(&mut self, i: usize) -> Animation {
        let mut frames: Frames = vec![];
        let k = match self.kind { Kind::Frames => 1 + self.r.below(5), _ => 2 };
        for _ in 0..k {
            let step = match self.kind { Kind::Frames => *self.r.pick(&[0, 100, 50, 25, 33, 99, 1, 75, 10]), _ => if frames.is_empty() { 0 } else { 100 } };
            let n = 1 + self.r.below(3);
            let b = self.block(n);
            frames.push((step, b));
        }
        if self.kind != Kind::Frames { let n = frames[0].1.clone(); frames[1].1 = n.iter().map(|(p, _)| (*p, self.value(p))).collect(); }
        let delay = if self.r.chance(30) { Some(self.seconds()) } else { None };
        let count = if delay.is_some() { None } else if self.r.chance(60) { Some(if self.r.chance(40) { None } else { Some(*self.r.pick(&[1.0, 2.0, 3.0, 2.5, 7.0, 0.5, 10.0])) }) } else { None };
        let long = self.r.chance(40);
        let count = if long && self.r.chance(15) { Some(Some(0.0)) } else { count };
        let duration = if self.r.chance(6) { 0.0 } else { self.seconds() };
        Animation { name: format!("Anim{}", ["A", "B", "C"][i]), duration, delay, count, frames, layers: vec![], long }
    }
}
fn css(c: &Case) -> String {
    let block = |b: &[(&str, V)]| b.iter().map(|(p, v)| format!("{p}: {};", text(v))).collect::<Vec<_>>().join(" ");
    let layers = if c.own_layers.is_empty() { String::new() } else { format!(" background-color: {};", c.own_layers.iter().map(text).collect::<Vec<_>>().join(", ")) };
    let mut s = format!(".own {{ {}{layers} }}\n", block(&c.own));
    for (i, v) in c.values.iter().enumerate() {
        let layers = if c.layers > 1 { format!(" background-color: {};", c.layered[i].iter().map(text).collect::<Vec<_>>().join(", ")) } else { String::new() };
        s += &format!(".v{i} {{ {}{layers} }}\n", block(v));
    }
    for (i, a) in c.anims.iter().enumerate() {
        let count = match a.count { None => None, Some(None) => Some("infinite".to_string()), Some(Some(n)) => Some(format!("{n}")) };
        if a.long || (a.delay.is_some() && count.is_some()) {
            s += &format!(".a{i} {{ animation-name: {}; animation-duration: {}s;", a.name, a.duration);
            if let Some(d) = a.delay { s += &format!(" animation-delay: {d}s;"); }
            if let Some(n) = &count { s += &format!(" animation-iteration-count: {n};"); }
            s += " }\n";
        } else {
            s += &match (a.delay, &count) {
                (Some(d), _) => format!(".a{i} {{ animation: {}s linear {d}s {}; }}\n", a.duration, a.name),
                (_, Some(n)) => format!(".a{i} {{ animation: {}s linear {n} {}; }}\n", a.duration, a.name),
                _ => format!(".a{i} {{ animation: {}s linear {}; }}\n", a.duration, a.name),
            };
        }
        s += &format!("@keyframes {} {{ {} }}\n", a.name, a.frames.iter().map(|(k, b)| format!("{k}% {{ {} }}", block(b))).chain(a.layers.iter().map(|(k, l)| format!("{k}% {{ background-color: {}; }}", l.iter().map(text).collect::<Vec<_>>().join(", ")))).collect::<Vec<_>>().join(" "));
    }
    for (i, list) in c.trans.iter().enumerate() {
        if list.iter().any(|t| t.long) {
            let join = |f: &dyn Fn(&Trans) -> String| list.iter().map(f).collect::<Vec<_>>().join(", ");
            s += &format!(".t{i} {{ transition-property: {}; transition-duration: {}; transition-delay: {}; }}\n", join(&|t| t.prop.into()), join(&|t| format!("{}s", t.duration)), join(&|t| format!("{}s", t.delay.unwrap_or(0.0))));
        } else {
            s += &format!(".t{i} {{ transition: {}; }}\n", list.iter().map(|t| match t.delay { None => format!("{} {}s", t.prop, t.duration), Some(d) => format!("{} {}s linear {d}s", t.prop, t.duration) }).collect::<Vec<_>>().join(", "));
        }
    }
    s + ".p { animation-play-state: paused; }\n"
}

/// percentages allowed after `t` seconds of running (the clock counts in single precision): None before the
/// delay has passed, empty where rounding decides
fn percents(a: &Animation, clock: f64) -> Option<Vec<u32>> {
    let (d, delay) = (a.duration as f64, a.delay.unwrap_or(0.0) as f64);
    let t = clock - delay;
    let err = 1e-5 + 2e-6 * clock;
    if t < -err { return None; }
    if t < err && clock > 0.0 && delay > 0.0 { return Some(vec![]); }
    if d <= 0.0 { return Some(vec![100]); }
    let steps = |lo: f64, hi: f64| -> Vec<u32> {
        ((lo * 100.0).floor().max(0.0) as u64..=(hi * 100.0).floor().max(0.0) as u64).flat_map(|k| {
            let r = (k % 100) as u32;
            if r == 0 { if k == 0 { vec![0] } else { vec![0, 100] } } else { vec![r] }
        }).collect()
    };
    let n = match a.count { None => Some(1.0), Some(n) => n.map(|n| n as f64) };
    let rest = |n: f64| if n > 0.0 && n.fract() == 0.0 { 100 } else { (n.fract() * 100.0) as u32 };
    match n {
        Some(n) if t > n * d + err => Some(vec![rest(n)]),
        Some(n) => {
            let mut all = steps((t - err) / d, ((t + err) / d).min(n));
            if t > n * d - err { all.push(rest(n)); }
            Some(all)
        }
        None => Some(steps((t - err) / d, (t + err) / d)),
    }
}

impl Prop for Anim {
    type Case = Case;
    fn gen(&self, r: &mut Rng, size: usize) -> Case {
        let mut g = Gen { r, kind: self.kind };
        let own_n = g.r.below(5);
        let own = g.block(own_n);
        let mut c = Case { anims: vec![], trans: vec![], own, own_layers: vec![], values: vec![], layers: 1, layered: vec![], steps: vec![], css: String::new() };
        if self.kind == Kind::Transition {
            for _ in 0..2 {
                let mut list: Vec<Trans> = vec![];
                let long = g.r.chance(40);
                for _ in 0..1 + g.r.below(2) {
                    let mut p = g.prop();
                    while list.is_empty() && c.trans.iter().flatten().any(|t: &Trans| t.prop == p) { p = g.prop(); }
                    if list.iter().chain(c.trans.iter().flatten()).any(|t| t.prop == p) { continue; }
                    let t = Trans { prop: p, duration: g.seconds(), delay: if g.r.chance(30) { Some(g.seconds()) } else { None }, long };
                    list.push(t);
                }
                c.trans.push(list);
            }
            if c.trans[1].iter().all(|t| t.prop != "background-color") && g.r.chance(25) { c.layers = 2; c.trans[0] = vec![Trans { prop: "background-color", duration: 1.0, delay: None, long: false }]; }
            for _ in 0..3 {
                let n = 1 + g.r.below(4);
                let mut b = g.block(n);
                if c.layers > 1 {
                    b.retain(|x| x.0 != "background-color");
                    let n = 1 + g.r.below(3);
                    let l = (0..n).map(|_| g.value("background-color")).collect();
                    c.layered.push(l);
                }
                // most values concern a property with a transition
                for t in &c.trans[0] { if c.layers == 1 && g.r.chance(70) && !b.iter().any(|x| x.0 == t.prop) { let v = g.value(t.prop); b.push((t.prop, v)); } }
                c.values.push(b);
            }
            if c.layers > 1 { c.own.retain(|x| x.0 != "background-color"); }
        } else {
            for i in 0..2 { let a = g.animation(i); c.anims.push(a); }
            if self.kind == Kind::Frames && g.r.chance(30) {
                // background-color has several values here, in the key frames and of the element
                c.layers = 2;
                c.own.retain(|x| x.0 != "background-color");
                let mut list = |g: &mut Gen| { let n = 1 + g.r.below(2); (0..n).map(|_| g.value("background-color")).collect::<Vec<V>>() };
                if g.r.chance(80) { c.own_layers = list(&mut g); }
                for a in c.anims.iter_mut() {
                    for f in a.frames.iter_mut() { f.1.retain(|x| x.0 != "background-color"); }
                    for _ in 0..1 + g.r.below(3) { let k = *g.r.pick(&[0, 100, 50, 25, 99]); let l = list(&mut g); a.layers.push((k, l)); }
                }
            }
        }
        let mut s = Step { dt: 0.1, anim: Some(0), paused: false, trans: Some(0), value: None };
        if c.anims.is_empty() { s.anim = None } else { s.trans = None }
        for i in 0..3 + g.r.below(4 + size * 2) {
            s.dt = *g.r.pick(&[0.0, 0.05, 0.1, 0.1, 0.3, 0.25, 0.7, 1.0, 0.033, 5.0, 50.0]);
            if self.kind == Kind::Clock && i > 0 && g.r.chance(20) { s.paused = !s.paused; }
            if self.kind != Kind::Transition && i > 0 && g.r.chance(8) { s.anim = *g.r.pick(&[None, Some(0), Some(1), Some(0)]); }
            if self.kind == Kind::Transition {
                if g.r.chance(35) { s.value = if g.r.chance(15) { None } else { Some(g.r.below(c.values.len())) }; }
                if i > 0 && g.r.chance(7) { s.trans = *g.r.pick(&[None, Some(0), Some(1), Some(0)]); }
            }
            c.steps.push(s.clone());
        }
        c.css = css(&c);
        c
    }
    fn check(&self, c: &Case) -> Result<usize, String> {
        let mut v = view(HTML, &c.css)?;
        let mut n = 0;
        // reference state
        let (mut clock, mut last, mut base): (f64, Option<Step>, Map) = (0.0, None, initial());
        let _ = &mut base;
        struct Tr { prop: &'static str, t: Trans, ranges: Vec<(V, V)>, shown: Vec<Vec<V>>, time: f64 }
        let mut trans: BTreeMap<usize, Tr> = BTreeMap::new();
        for (i, s) in c.steps.iter().enumerate() {
            update(&mut v, Input::new().time(Duration::from_secs_f32(s.dt)), &json!({ "c": classes(s) })).map_err(|e| format!("update {}: {e}", i + 1))?;
            let body = v.body();
            let kids = body.children();
            let got = actual(&kids[0]);
            // own values
            let mut own: BTreeMap<(&str, usize), V> = BTreeMap::new();
            for (p, x) in &c.own { own.insert((p, 0), x.clone()); }
            if let Some(k) = s.value {
                for (p, x) in &c.values[k] { own.insert((p, 0), x.clone()); }
                if c.layers > 1 { for (j, x) in c.layered[k].iter().enumerate() { own.insert(("background-color", j), x.clone()); } }
            }
            for (j, x) in c.own_layers.iter().enumerate() { own.insert(("background-color", j), x.clone()); }
            // expected candidates per property
            let mut want: BTreeMap<(&str, usize), Vec<V>> = own.iter().map(|(k, v)| (*k, vec![v.clone()])).collect();
            let mut skip: BTreeSet<&str> = BTreeSet::new();
            // animation: it is seen by the update after the one that applied it
            if let (Some(prev), true) = (&last, !c.anims.is_empty()) {
                let restarted = prev.anim != s.anim;
                if let Some(a) = prev.anim {
                    let d = &c.anims[a];
                    if !prev.paused && d.duration > 0.0 { clock += s.dt as f64; }
                    if restarted {
                        for x in &c.anims { for f in &x.frames { for (p, _) in &f.1 { skip.insert(p); } } if !x.layers.is_empty() { skip.insert("background-color"); } }
                    } else if let Some(ps) = percents(d, clock) {
                        let mut props: BTreeSet<(&str, usize)> = d.frames.iter().flat_map(|f| f.1.iter().map(|x| (x.0, 0))).collect();
                        for (_, l) in &d.layers { for j in 0..l.len() { props.insert(("background-color", j)); } }
                        for (p, j) in props {
                            let mut track: BTreeMap<u32, V> = BTreeMap::new();
                            for (k, b) in &d.frames { for (q, x) in b { if *q == p && j == 0 { track.insert(*k, x.clone()); } } }
                            if p == "background-color" { for (k, l) in &d.layers { if let Some(x) = l.get(j) { track.insert(*k, x.clone()); } } }
                            let fallback = own.get(&(p, j)).cloned().unwrap_or_else(|| default_value(p));
                            track.entry(0).or_insert(fallback.clone());
                            track.entry(100).or_insert(fallback);
                            let mut all = vec![];
                            for t in &ps {
                                let t = *t;
                                let (lo, a) = track.range(..=t).next_back().unwrap();
                                let (hi, b) = track.range(t..).next().unwrap();
                                if lo == hi { all.push(a.clone()); } else { all.extend(lerp(a, b, (t - lo) as f64 / (hi - lo) as f64)); }
                            }
                            if all.is_empty() { skip.insert(p); } else { want.insert((p, j), all); }
                        }
                    }
                }
                if restarted { clock = 0.0; }
            }
            // transitions
            let list: Vec<Trans> = s.trans.map(|t| c.trans.get(t).cloned().unwrap_or_default()).unwrap_or_default();
            let before: BTreeMap<usize, Tr> = std::mem::take(&mut trans);
            let mut before = before;
            for (k, t) in list.iter().enumerate() {
                let layers = |own: &BTreeMap<(&'static str, usize), V>| -> Vec<V> { (0..).map_while(|j| own.get(&(t.prop, j)).cloned()).collect() };
                let own2: BTreeMap<(&'static str, usize), V> = own.iter().map(|((p, j), v)| ((PROPS.iter().find(|x| *x == p).copied().unwrap(), *j), v.clone())).collect();
                let now = layers(&own2);
                let (mut tr, fresh) = match before.remove(&k) {
                    Some(tr) if tr.prop == t.prop => (tr, false),
                    old => { if let Some(o) = old { skip.insert(o.prop); skip.insert(t.prop); }
                        (Tr { prop: t.prop, t: t.clone(), ranges: vec![], shown: vec![], time: 0.0 }, true) }
                };
                if !fresh {
                    if last.as_ref().unwrap().trans != s.trans { skip.insert(t.prop); }
                    if tr.t.duration > 0.0 { tr.time += s.dt as f64; }
                    let d = tr.t.delay.unwrap_or(0.0) as f64;
                    let p = ((tr.time - d) / tr.t.duration as f64).clamp(0.0, 1.0);
                    let p = if tr.time >= d + tr.t.duration as f64 - 1e-4 { 1.0 } else if tr.time - d < 1e-5 { 0.0 } else { p };
                    tr.ranges.truncate(now.len());
                    let shown: Vec<Vec<V>> = tr.ranges.iter().map(|(a, b)| lerp(a, b, p)).collect();
                    if shown.iter().any(|x| x.len() > 1) { skip.insert(t.prop); }
                    if tr.ranges.iter().zip(&now).any(|(r, x)| r.1 != *x) {
                        if shown.iter().any(|x| x.len() > 1) { return Ok(n); } // undecided half way value
                        tr.ranges = shown.iter().zip(&now).map(|(a, b)| (a[0].clone(), b.clone())).collect();
                        tr.time = 0.0;
                    }
                    for (j, x) in shown.iter().enumerate() { want.insert((t.prop, j), x.clone()); }
                    tr.shown = shown;
                }
                for j in tr.ranges.len()..now.len() { tr.ranges.push((now[j].clone(), now[j].clone())); }
                tr.t = t.clone();
                trans.insert(k, tr);
            }
            for (_, o) in before { skip.insert(o.prop); }
            for p in PROPS {
                if skip.contains(p) { continue; }
                for j in 0..if p == "background-color" { c.layers.max(1) } else { 1 } {
                    let candidates = want.get(&(p, j)).cloned().unwrap_or_else(|| vec![default_value(p)]);
                    let key = if p == "background-color" { format!("background-color[{j}]") } else { p.to_string() };
                    n += 1;
                    let all: Vec<F> = candidates.iter().map(|x| shown_as(p, x)).collect();
                    if !all.iter().any(|w| same(&got[&key], w)) {
                        return Err(format!("update {} ({s:?}): {key} is {:?}, expected {all:?}", i + 1, got[&key]));
                    }
                }
            }
            last = Some(s.clone());
        }
        Ok(n)
    }
}
