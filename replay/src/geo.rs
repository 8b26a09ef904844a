//! C18 C19: scrolling ranges, positions, opacity and clipping against the layout the tree reports.
use crate::core::*;
use bumaga::*;
use serde_json::{json, Value};
use taffy::PrintTree;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Scroll, Compose }
pub struct Geo { pub kind: Kind }

#[derive(Debug)]
pub struct Step { data: Value, wheel: Vec<(usize, [f32; 2])> }
pub struct Case { html: String, css: String, steps: Vec<Step> }
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "html: {}\ncss:\n{}", self.html, self.css)?;
        for s in &self.steps { writeln!(f, "update {} then wheel {:?}", s.data, s.wheel)?; }
        Ok(())
    }
}
struct Gen<'a> { r: &'a mut Rng, budget: usize, n: usize }
impl Gen<'_> {
    fn el(&mut self, depth: usize) -> String {
        self.n += 1;
        let uid = self.n;
        let mut s = String::new();
        if self.r.chance(70) { s += &format!("width: {}px; ", self.r.range(0, 20) * 5); }
        if self.r.chance(70) { s += &format!("height: {}px; ", self.r.range(0, 20) * 5); }
        if self.r.chance(40) { s += &format!("opacity: {}; ", self.r.pick(&["0.5", "0.25", "0", "0.9"])); }
        if self.r.chance(30) { s += &format!("margin: {}px; ", self.r.range(-2, 5)); }
        if self.r.chance(30) { s += &format!("padding: {}px; ", self.r.range(0, 5)); }
        if self.r.chance(25) { s += &format!("position: absolute; left: {}px; top: {}px; ", self.r.range(-10, 60), self.r.range(-10, 60)); }
        if self.r.chance(20) { s += "display: flex; "; }
        if self.r.chance(30) { s += &format!("overflow: {}; ", self.r.pick(&["hidden", "scroll", "clip", "visible"])); }
        if self.r.chance(10) { s += "flex-shrink: 0; "; }
        let c = if self.r.chance(50) { format!(" @class=\"{{k{}}}\"", self.r.below(3)) } else { String::new() };
        let cond = if self.r.chance(15) { format!(" ?=\"{{b{}}}\"", self.r.below(2)) } else { String::new() };
        let mut kids = String::new();
        if self.r.chance(30) { kids += *self.r.pick(&["hello", "a", "{t}"]); }
        if depth > 0 { for _ in 0..self.r.below(4) { if self.budget > 0 { self.budget -= 1; kids += &self.el(depth - 1); } } }
        format!("<div u=\"{uid}\"{c}{cond} style=\"{s}\">{kids}</div>")
    }
}

fn nodes(v: &View) -> Vec<(u64, Option<[f32; 4]>)> {
    shown(v).iter().map(|f| (u64::from(f.element.node), f.element.scrolling.as_ref().map(|s| [s.x, s.y, s.scroll_x, s.scroll_y]))).collect()
}

impl Prop for Geo {
    type Case = Case;
    fn gen(&self, r: &mut Rng, size: usize) -> Case {
        let mut g = Gen { r, budget: 3 + size, n: 0 };
        let mut body = String::new();
        for _ in 0..1 + g.r.below(3) { body += &g.el(3); }
        let n = g.n;
        let css = ".s { width: 10px; height: 8px; }\n.l { width: 300px; height: 250px; }\n.o { opacity: 0.3; }\n.w { height: 400px; }\n".to_string();
        let mut data = json!({});
        let mut steps = vec![];
        for _ in 0..2 + r.below(3 + size) {
            for k in ["k0", "k1", "k2"] { if r.chance(45) { data[k] = json!(*r.pick(&["", "s", "l", "o", "w", "s o"])); } }
            for k in ["b0", "b1"] { if r.chance(40) { data[k] = json!(r.chance(60)); } }
            if r.chance(30) { data["t"] = json!(*r.pick(&["", "x", "a longer text"])); }
            let k = if self.kind == Kind::Scroll { 8 } else { 4 };
            let wheel = (0..r.below(k)).map(|_| (r.below(n + 3), *r.pick(&[[0.0, 1.0], [0.0, -1.0], [1.0, 0.0], [-1.0, 0.0], [0.5, -3.0], [0.0, 0.0], [1.0, -1.0], [1.0, -1.0]]))).collect();
            steps.push(Step { data: data.clone(), wheel });
        }
        Case { html: format!("<html><body>{body}</body></html>"), css, steps }
    }
    fn check(&self, c: &Case) -> Result<usize, String> {
        let mut v = view(&c.html, &c.css)?;
        let mut n = 0;
        let mut before: BTreeMap<u64, [f32; 2]> = BTreeMap::new();
        for (i, s) in c.steps.iter().enumerate() {
            update(&mut v, Input::new(), &s.data).map_err(|e| format!("update {}: {e}", i + 1))?;
            let body = v.body();
            let k = if self.kind == Kind::Scroll { scroll(&body) } else { compose(&body, [0.0; 2], 1.0, None) }.map_err(|e| format!("update {}: {e}", i + 1))?;
            n += k;
            // offsets survive an update as far as the new range allows
            for (id, s) in nodes(&v) {
                if let (Some([x, y, sx, sy]), Some([px, py])) = (s, before.get(&id)) {
                    if [x, y] != [px.min(sx), py.min(sy)] { return Err(format!("update {}: offset {px} {py} became {x} {y} in a range of {sx} {sy}", i + 1)); }
                }
            }
            #[cfg(feature = "hooks")]
            for (k, w) in &s.wheel {
                let all = shown(&v);
                let node = all[k % all.len()].element.node;
                drop(all);
                verif::scroll(&mut v, node, *w);
                for (_, s) in nodes(&v) { if let Some([x, y, sx, sy]) = s { n += 1; range(x, sx)?; range(y, sy)?; } }
            }
            before = nodes(&v).into_iter().filter_map(|(id, s)| s.map(|s| (id, [s[0], s[1]]))).collect();
        }
        Ok(n)
    }
}
fn range(x: f32, max: f32) -> Result<(), String> {
    if max >= 0.0 && x >= 0.0 && x <= max { Ok(()) } else { Err(format!("offset {x} outside of the range 0..{max}")) }
}
fn name(f: &Fragment) -> String { format!("element u={:?}", f.element.attrs.get("u")) }
fn scroll(f: &Fragment) -> Result<usize, String> {
    let l = f.tree.get_final_layout(f.element.node);
    let over = [l.content_size.width - l.size.width, l.content_size.height - l.size.height];
    match &f.element.scrolling {
        None => if over[0] > 0.0 || over[1] > 0.0 { return Err(format!("{} overflows by {over:?} but does not scroll", name(f))); },
        Some(s) => {
            if !(over[0] > 0.0 || over[1] > 0.0) { return Err(format!("{} scrolls but its content fits", name(f))); }
            for (x, max, over) in [(s.x, s.scroll_x, over[0]), (s.y, s.scroll_y, over[1])] {
                range(x, max).map_err(|e| format!("{}: {e}", name(f)))?;
                if max != over.max(0.0) { return Err(format!("{}: range is {max} but the overflow is {over}", name(f))); }
            }
        }
    }
    let mut n = 1;
    for k in f.children() { n += scroll(&k)?; }
    Ok(n)
}
fn compose(f: &Fragment, at: [f32; 2], opacity: f32, clip: Option<[f32; 4]>) -> Result<usize, String> {
    let l = f.tree.get_final_layout(f.element.node);
    let e = f.element;
    let near = |a: f32, b: f32| (a - b).abs() <= 1e-3 * (1.0 + a.abs().max(b.abs()));
    let p = [at[0] + l.location.x, at[1] + l.location.y];
    if !near(e.position[0], p[0]) || !near(e.position[1], p[1]) { return Err(format!("{}: position is {:?}, expected {p:?}", name(f), e.position)); }
    if e.size != [l.size.width, l.size.height] { return Err(format!("{}: size is {:?}, layout has {:?}", name(f), e.size, l.size)); }
    if !near(e.opacity, opacity * e.self_opacity) { return Err(format!("{}: opacity is {}, expected {}", name(f), e.opacity, opacity * e.self_opacity)); }
    let got = e.clipping.map(|c| [c.location.x, c.location.y, c.size.width, c.size.height]);
    let ok = match (&got, &clip) { (None, None) => true, (Some(a), Some(b)) => a.iter().zip(b).all(|(a, b)| near(*a, *b)), _ => false };
    if !ok { return Err(format!("{}: clipping is {got:?}, expected {clip:?}", name(f))); }
    let (mut at, mut clip) = (p, clip);
    if let Some(s) = &e.scrolling { clip = Some([p[0], p[1], l.size.width, l.size.height]); at = [p[0] - s.x, p[1] - s.y]; }
    let mut n = 1;
    for k in f.children() { n += compose(&k, at, opacity * e.self_opacity, clip)?; }
    Ok(n)
}

// ---------------------------------------------------------------- C03
pub struct Conv;
const SHAPE: &str = "<html><body><p>{v}</p><i ?=\"{v}\">t</i><b !=\"{v}\">f</b><u @flag></u><s *=\"3 {l}\">x</s></body></html>";
fn number(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => json!(0), 1 => json!(-0.0), 2 => json!(1e300), 3 => json!(-1e300), 4 => json!(u64::MAX), 5 => json!(i64::MIN), 6 => json!((1u64 << 53) + 1),
        7 => json!(0.999999), 8 => json!(-0.5), 9 => json!(r.next()), 10 => json!(r.next() as i64), _ => json!(f64::from_bits(r.next() & !(1 << 62))),
    }
}
fn any(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => Value::Null, 1 => json!(r.chance(50)), 2 | 3 => number(r),
        4 | 5 => json!(*r.pick(&["", "0", "42", "-1", " 7", "18446744073709551615", "18446744073709551616", "abc", "é", "false", "1.5"])),
        6 => Value::Array((0..r.below(6)).map(|_| any_json(r, 1)).collect()),
        _ => any_json(r, 2),
    }
}
impl Prop for Conv {
    type Case = Vec<Value>;
    fn gen(&self, r: &mut Rng, _: usize) -> Vec<Value> { (0..1 + r.below(6)).map(|_| any(r)).collect() }
    fn check(&self, c: &Vec<Value>) -> Result<usize, String> {
        let mut n = 0;
        let html = SHAPE.replace("@flag", "@flag=\"{v}\"").replace(" *=", " *x=");
        let mut v = view(&html, "")?;
        let mut received = false;
        for (i, x) in c.iter().enumerate() {
            // the three conversions
            if x.eval_string() != conv_text(x) { return Err(format!("eval_string of {x} is {:?}", x.eval_string())); }
            if x.eval_boolean() != conv_truth(x) { return Err(format!("eval_boolean of {x} is {:?}", x.eval_boolean())); }
            let want: u64 = match x {
                Value::Bool(b) => *b as u64,
                Value::Number(n) => match (n.as_u64(), n.as_i64(), n.as_f64()) { (Some(u), _, _) => u, (_, Some(_), _) => 0, (_, _, Some(f)) => if f <= 0.0 { 0 } else { f as u64 }, _ => 0 },
                Value::String(s) => s.parse().unwrap_or(0), _ => 0 };
            if x.eval_u64() != want || x.eval_usize() != want as usize { return Err(format!("eval_u64 of {x} is {}, expected {want}", x.eval_u64())); }
            let want = match x { Value::Array(a) => a.iter().map(conv_text).collect(), x => vec![conv_text(x)] };
            if x.eval_array() != want { return Err(format!("eval_array of {x} is {:?}", x.eval_array())); }
            // in a view
            update(&mut v, Input::new(), &json!({ "v": x, "l": if x.is_array() { x.clone() } else { Value::Null } })).map_err(|e| format!("update {}: {e}", i + 1))?;
            received |= !x.is_null();
            let body = v.body();
            let kids = body.children();
            let count = |t: &str| kids.iter().filter(|k| k.element.tag == t).count();
            let truth = conv_truth(x);
            let items = x.as_array().map_or(0, |a| a.len().min(3));
            if count("i") != truth as usize || count("b") != !truth as usize { return Err(format!("update {}: conditions of {x}: {} {}", i + 1, count("i"), count("b"))); }
            if count("s") != items { return Err(format!("update {}: {} items shown for {x}", i + 1, count("s"))); }
            n += 6;
            let _ = received;
        }
        Ok(n)
    }
}
