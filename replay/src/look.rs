//! C11 C12 C13 C20: the look of every element against a reference cascade that knows only what applies now.
use crate::core::*;
use bumaga::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use taffy::{Dimension, LengthPercentage as Lp, LengthPercentageAuto as Lpa};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Shorthand, Units, Cascade, Reset }
pub struct Look { pub kind: Kind }

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum F { L(f32), P(f32), Auto, S(String), C([u8; 4]), N(f32) }
fn close(a: &F, b: &F) -> bool {
    let n = |a: f32, b: f32| (a - b).abs() <= 1e-4 * (1.0 + a.abs().max(b.abs()));
    match (a, b) { (F::L(a), F::L(b)) | (F::P(a), F::P(b)) | (F::N(a), F::N(b)) => n(*a, *b), _ => a == b }
}
pub(crate) type Map = BTreeMap<String, F>;

fn lp(l: Lp) -> F { match l { Lp::Length(x) => F::L(x), Lp::Percent(x) => F::P(x) } }
fn lpa(l: Lpa) -> F { match l { Lpa::Length(x) => F::L(x), Lpa::Percent(x) => F::P(x), Lpa::Auto => F::Auto } }
fn dim(l: Dimension) -> F { match l { Dimension::Length(x) => F::L(x), Dimension::Percent(x) => F::P(x), Dimension::Auto => F::Auto } }
fn len(l: Length) -> F { match l { Length::Number(x) => F::L(x), Length::Percent(x) => F::P(x) } }
fn dbg(x: impl std::fmt::Debug) -> F { F::S(format!("{x:?}")) }

pub(crate) fn actual(f: &Fragment) -> Map {
    let e = f.element;
    let s = f.tree.style(e.node).unwrap();
    let mut m = Map::new();
    let mut put = |k: &str, v: F| { m.insert(k.into(), v); };
    put("opacity", F::N(e.self_opacity)); put("color", F::C(e.color));
    put("font-size", F::L(e.font.size)); put("font-weight", F::N(e.font.weight as f32)); put("font-family", F::S(e.font.family.clone())); put("font-style", F::S(e.font.style.clone()));
    put("line-height", F::N(e.font.line_height));
    put("text-align", dbg(&e.font.align)); put("pointer-events", dbg(e.pointer_events)); put("cursor", dbg(e.pointer)); put("visibility", dbg(e.visible));
    for (n, b) in [("top", e.borders.top), ("right", e.borders.right), ("bottom", e.borders.bottom), ("left", e.borders.left)] {
        put(&format!("border-{n}-width"), F::L(b.width)); put(&format!("border-{n}-color"), F::C(b.color));
    }
    // a border that has a width is the one its side shows
    let side = |b: MyBorder, s: Option<MyBorder>| s.map(|s| (s.width, s.color)) == Some((b.width, b.color)).filter(|b| b.0 > 0.0);
    let b = &e.borders;
    put("border sides", F::S([side(b.top, b.top()), side(b.right, b.right()), side(b.bottom, b.bottom()), side(b.left, b.left())].map(|s| if s { "shown" } else { "other" }).join(" ")));
    for (i, n) in ["top-left", "top-right", "bottom-right", "bottom-left"].iter().enumerate() { put(&format!("border-{n}-radius"), len(e.borders.radius[i])); }
    put("backgrounds", F::N(e.backgrounds.len() as f32));
    for i in 0..3.max(e.backgrounds.len()) {
        let b = e.backgrounds.get(i).cloned().unwrap_or_default();
        put(&format!("background-color[{i}]"), F::C(b.color)); put(&format!("background-image[{i}]"), dbg(&b.image));
        put(&format!("background-position-x[{i}]"), F::L(b.src[0])); put(&format!("background-position-y[{i}]"), F::L(b.src[1]));
    }
    put("lb-top", lp(s.border.top)); put("lb-right", lp(s.border.right)); put("lb-bottom", lp(s.border.bottom)); put("lb-left", lp(s.border.left));
    put("box-sizing", dbg(s.box_sizing)); put("display", dbg(s.display)); put("overflow-x", dbg(s.overflow.x)); put("overflow-y", dbg(s.overflow.y)); put("position", dbg(s.position));
    put("margin-top", lpa(s.margin.top)); put("margin-right", lpa(s.margin.right)); put("margin-bottom", lpa(s.margin.bottom)); put("margin-left", lpa(s.margin.left));
    put("padding-top", lp(s.padding.top)); put("padding-right", lp(s.padding.right)); put("padding-bottom", lp(s.padding.bottom)); put("padding-left", lp(s.padding.left));
    put("top", lpa(s.inset.top)); put("right", lpa(s.inset.right)); put("bottom", lpa(s.inset.bottom)); put("left", lpa(s.inset.left));
    put("width", dim(s.size.width)); put("height", dim(s.size.height)); put("min-width", dim(s.min_size.width)); put("min-height", dim(s.min_size.height));
    put("max-width", dim(s.max_size.width)); put("max-height", dim(s.max_size.height));
    put("align-content", dbg(s.align_content)); put("align-items", dbg(s.align_items)); put("align-self", dbg(s.align_self));
    put("justify-content", dbg(s.justify_content)); put("justify-items", dbg(s.justify_items)); put("justify-self", dbg(s.justify_self));
    put("flex-direction", dbg(s.flex_direction)); put("flex-wrap", dbg(s.flex_wrap)); put("flex-basis", dim(s.flex_basis)); put("flex-grow", F::N(s.flex_grow)); put("flex-shrink", F::N(s.flex_shrink));
    put("column-gap", lp(s.gap.width)); put("row-gap", lp(s.gap.height));
    // parts of the layout style no property may touch
    put("rest", dbg((s.scrollbar_width, s.aspect_ratio)));
    m
}
pub(crate) fn initial() -> Map {
    let mut m = Map::new();
    let mut put = |k: &str, v: F| { m.insert(k.into(), v); };
    put("backgrounds", F::N(0.0));
    put("opacity", F::N(1.0)); put("color", F::C([0, 0, 0, 255])); put("font-size", F::L(16.0)); put("font-weight", F::N(400.0)); put("font-family", F::S("system-ui".into())); put("font-style", F::S("normal".into()));
    put("line-height", F::N(1.0));
    put("text-align", F::S("Start".into())); put("pointer-events", F::S("Auto".into())); put("cursor", F::S("Auto".into())); put("visibility", F::S("true".into()));
    for n in SIDES { put(&format!("border-{n}-width"), F::L(0.0)); put(&format!("border-{n}-color"), F::C([0; 4])); put(&format!("lb-{n}"), F::L(0.0));
        put(&format!("margin-{n}"), F::L(0.0)); put(&format!("padding-{n}"), F::L(0.0)); put(n, F::Auto); }
    put("border sides", F::S(["shown"; 4].join(" ")));
    for n in RADII { put(n, F::L(0.0)); }
    for i in 0..3 { put(&format!("background-color[{i}]"), F::C([0; 4])); put(&format!("background-image[{i}]"), F::S("None".into())); put(&format!("background-position-x[{i}]"), F::L(0.0)); put(&format!("background-position-y[{i}]"), F::L(0.0)); }
    put("box-sizing", F::S("BorderBox".into())); put("display", F::S("Block".into())); put("overflow-x", F::S("Visible".into())); put("overflow-y", F::S("Visible".into())); put("position", F::S("Relative".into()));
    for n in ["width", "height", "min-width", "min-height", "max-width", "max-height", "flex-basis"] { put(n, F::Auto); }
    for n in ["align-content", "align-items", "align-self", "justify-content", "justify-items", "justify-self"] { put(n, F::S("None".into())); }
    put("flex-direction", F::S("Row".into())); put("flex-wrap", F::S("NoWrap".into())); put("flex-grow", F::N(0.0)); put("flex-shrink", F::N(1.0));
    put("column-gap", F::L(0.0)); put("row-gap", F::L(0.0)); put("rest", dbg((0.0f32, None::<f32>)));
    m
}
const INHERITED: [&str; 7] = ["color", "font-family", "font-size", "font-style", "font-weight", "line-height", "pointer-events"];
const SIDES: [&str; 4] = ["top", "right", "bottom", "left"];
const RADII: [&str; 4] = ["border-top-left-radius", "border-top-right-radius", "border-bottom-right-radius", "border-bottom-left-radius"];

#[derive(Clone, Debug, PartialEq)]
pub(crate) enum V { Zero, Dim(f32, &'static str), Pct(f32), Num(f32), Col([u8; 4]), Kw(String), Str(String), Time(f32), Var(String), Fun(String, Vec<V>), Err }
pub(crate) fn text(v: &V) -> String {
    match v {
        V::Zero => "0".into(), V::Dim(x, u) => format!("{x}{u}"), V::Pct(x) => format!("{x}%"), V::Num(x) => if *x == 0.0 { "0.0".into() } else { format!("{x}") },
        V::Col(c) => if c[3] == 255 { format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2]) } else { format!("#{:02x}{:02x}{:02x}{:02x}", c[0], c[1], c[2], c[3]) },
        V::Kw(k) => k.clone(), V::Str(s) => format!("\"{s}\""), V::Time(t) => format!("{t}s"), V::Var(n) => format!("var({n})"),
        V::Fun(n, a) => format!("{n}({})", a.iter().map(text).collect::<Vec<_>>().join(", ")), V::Err => unreachable!(),
    }
}
#[derive(Clone, Debug)]
enum Decl { Prop(String, Vec<Vec<V>>), Var(String, Vec<V>) }
fn decl_text(d: &Decl) -> String {
    let sh = |s: &Vec<V>| s.iter().map(text).collect::<Vec<_>>().join(" ");
    match d { Decl::Prop(n, l) => format!("{n}: {};", l.iter().map(sh).collect::<Vec<_>>().join(", ")), Decl::Var(n, s) => format!("{n}: {};", sh(s)) }
}

type Vars = BTreeMap<String, Vec<V>>;
fn expand(vs: &[V], vars: &Vars, trace: &mut Vec<String>, out: &mut Vec<V>) {
    for v in vs {
        match v {
            V::Var(n) => match vars.get(n) {
                Some(d) if !trace.contains(n) => { trace.push(n.clone()); expand(d, vars, trace, out); trace.pop(); }
                _ => out.push(V::Err),
            },
            V::Fun(n, a) => {
                let mut args = vec![];
                expand(a, vars, trace, &mut args);
                let c = |v: &V| match v { V::Zero => 0.0, V::Num(x) => x.clamp(0.0, 255.0).floor(), V::Pct(p) => (p / 100.0 * 255.0).clamp(0.0, 255.0).floor(), _ => 0.0 } as u8;
                let al = |v: &V| match v { V::Zero => 0.0, V::Num(x) => (x * 255.0).clamp(0.0, 255.0).floor(), V::Pct(p) => (p / 100.0 * 255.0).clamp(0.0, 255.0).floor(), _ => 0.0 } as u8;
                out.push(match (n.as_str(), args.as_slice()) {
                    ("rgb", [r, g, b]) => V::Col([c(r), c(g), c(b), 255]), ("rgba", [r, g, b, a]) => V::Col([c(r), c(g), c(b), al(a)]), ("url", [V::Str(s)]) => V::Str(s.clone()), _ => V::Err });
            }
            v => out.push(v.clone()),
        }
    }
}

/// the longhands a declaration with these values sets
fn longhands(name: &str, v: &[V]) -> Vec<(String, V)> {
    let four = |names: [String; 4]| -> Vec<(String, V)> {
        let pick = match v.len() { 1 => [0, 0, 0, 0], 2 => [0, 1, 0, 1], 3 => [0, 1, 2, 1], 4 => [0, 1, 2, 3], _ => return vec![] };
        names.into_iter().zip(pick).map(|(n, i)| (n, v[i].clone())).collect()
    };
    let sides = |p: &str, s: &str| SIDES.map(|n| format!("{p}{n}{s}"));
    let kw = |k: &str| V::Kw(k.into());
    match (name, v) {
        ("background", [c]) => vec![("background-image".into(), kw("none")), ("background-color".into(), c.clone())],
        ("background-position", [a]) => vec![("background-position-x".into(), a.clone()), ("background-position-y".into(), a.clone())],
        ("background-position", [a, b]) => vec![("background-position-x".into(), a.clone()), ("background-position-y".into(), b.clone())],
        ("border", [V::Kw(k)]) if k == "none" => SIDES.iter().flat_map(|s| [(format!("border-{s}-width"), V::Zero), (format!("border-{s}-color"), kw("currentcolor"))]).collect(),
        ("border", [w, _, c]) => SIDES.iter().flat_map(|s| [(format!("border-{s}-width"), w.clone()), (format!("border-{s}-color"), c.clone())]).collect(),
        ("border-top" | "border-right" | "border-bottom" | "border-left", [w, _, c]) => vec![(format!("{name}-width"), w.clone()), (format!("{name}-color"), c.clone())],
        ("border-width", _) => four(sides("border-", "-width")),
        ("border-color", _) => four(sides("border-", "-color")),
        ("border-radius", _) => four(RADII.map(String::from)),
        ("padding", _) => four(sides("padding-", "")),
        ("margin", _) => four(sides("margin-", "")),
        ("inset", [_] | [_, _, _, _]) => four(sides("", "")),
        ("overflow", [a]) => vec![("overflow-x".into(), a.clone()), ("overflow-y".into(), a.clone())],
        ("overflow", [a, b]) => vec![("overflow-x".into(), a.clone()), ("overflow-y".into(), b.clone())],
        ("gap", [a]) => vec![("column-gap".into(), a.clone()), ("row-gap".into(), a.clone())],
        ("gap", [a, b]) => vec![("column-gap".into(), a.clone()), ("row-gap".into(), b.clone())],
        (n, [x]) => vec![(n.to_string(), x.clone())],
        _ => vec![],
    }
}

pub(crate) struct Ctx { pub viewport: [f32; 2], pub parent_font: f32, pub parent_color: [u8; 4] }
const KEYWORDS: [(&str, &[(&str, &str)]); 20] = [
    ("font-style", &[("normal", "normal"), ("italic", "italic"), ("oblique", "oblique")]),
    ("text-align", &[("start", "Start"), ("end", "End"), ("left", "Left"), ("right", "Right"), ("center", "Center"), ("justify", "Justify"), ("justify-all", "JustifyAll"), ("match-parent", "MatchParent")]),
    ("pointer-events", &[("auto", "Auto"), ("none", "None")]),
    ("cursor", &[("auto", "Auto"), ("default", "Default"), ("pointer", "Pointer"), ("context-menu", "ContextMenu"), ("help", "Help"), ("progress", "Progress"), ("wait", "Wait"), ("text", "Text"), ("not-allowed", "NotAllowed")]),
    ("visibility", &[("visible", "true"), ("hidden", "false")]),
    ("box-sizing", &[("border-box", "BorderBox"), ("content-box", "ContentBox")]),
    ("display", &[("flow", "Block"), ("block", "Block"), ("flex", "Flex"), ("grid", "Grid")]),
    ("overflow-x", &OVER), ("overflow-y", &OVER),
    ("position", &[("relative", "Relative"), ("absolute", "Absolute")]),
    ("flex-direction", &[("row", "Row"), ("row-reverse", "RowReverse"), ("column", "Column"), ("column-reverse", "ColumnReverse")]),
    ("flex-wrap", &[("wrap", "Wrap"), ("nowrap", "NoWrap"), ("wrap-reverse", "WrapReverse")]),
    ("align-content", &CONTENT), ("justify-content", &CONTENT), ("align-items", &ITEMS), ("align-self", &ITEMS), ("justify-items", &ITEMS), ("justify-self", &ITEMS),
    ("background-image", &[("none", "None")]), ("", &[]),
];
const OVER: [(&str, &str); 5] = [("visible", "Visible"), ("hidden", "Hidden"), ("clip", "Clip"), ("scroll", "Scroll"), ("auto", "Scroll")];
const ITEMS: [(&str, &str); 8] = [("normal", "None"), ("start", "Some(Start)"), ("end", "Some(End)"), ("flex-start", "Some(FlexStart)"), ("flex-end", "Some(FlexEnd)"), ("center", "Some(Center)"), ("baseline", "Some(Baseline)"), ("stretch", "Some(Stretch)")];
const CONTENT: [(&str, &str); 10] = [("normal", "None"), ("start", "Some(Start)"), ("end", "Some(End)"), ("flex-start", "Some(FlexStart)"), ("flex-end", "Some(FlexEnd)"), ("center", "Some(Center)"), ("stretch", "Some(Stretch)"), ("space-between", "Some(SpaceBetween)"), ("space-evenly", "Some(SpaceEvenly)"), ("space-around", "Some(SpaceAround)")];
const COLORS: [(&str, [u8; 4]); 6] = [("black", [0, 0, 0, 255]), ("white", [255; 4]), ("red", [255, 0, 0, 255]), ("blue", [0, 0, 255, 255]), ("green", [0, 255, 0, 255]), ("transparent", [0; 4])];

fn px(v: &V, c: &Ctx) -> Option<f32> {
    match v {
        V::Zero => Some(0.0),
        V::Dim(x, u) => { let [w, h] = c.viewport; Some(x * match *u { "px" => 1.0, "em" => c.parent_font, "rem" => 16.0, "vw" => w / 100.0, "vh" => h / 100.0, "vmin" => w.min(h) / 100.0, "vmax" => w.max(h) / 100.0, _ => return None }) }
        _ => None,
    }
}
pub(crate) fn apply(name: &str, index: usize, v: &V, c: &Ctx, m: &mut Map) {
    let is = |l: &[&str]| l.contains(&name);
    let color = || match v { V::Col(c) => Some(*c), V::Kw(k) if k == "currentcolor" || k == "currentColor" => Some(c.parent_color), V::Kw(k) => COLORS.iter().find(|x| x.0 == k).map(|x| x.1), _ => None };
    let field = if name.starts_with("background-") { format!("{name}[{index}]") } else { name.to_string() };
    let value = if name == "opacity" { match v { V::Zero => Some(F::N(0.0)), V::Num(x) => Some(F::N(*x)), V::Pct(p) => Some(F::N(p / 100.0)), _ => None } }
    else if is(&["color", "background-color"]) || (name.starts_with("border-") && name.ends_with("-color")) { color().map(F::C) }
    else if name == "background-image" && matches!(v, V::Str(_)) { if let V::Str(s) = v { Some(dbg(Some(s.clone()))) } else { None } }
    else if name.starts_with("background-position-") { match v { V::Num(x) => Some(F::L(-x)), V::Pct(_) => Some(F::L(0.0)), v => px(v, c).map(|x| F::L(-x)) } }
    else if name == "font-size" { match v { V::Num(x) => Some(F::L(*x)), V::Pct(p) => Some(F::L(p / 100.0 * c.parent_font)), v => px(v, c).map(F::L) } }
    else if name == "font-weight" { match v { V::Num(x) if *x >= 1.0 && *x <= 1000.0 => Some(F::N(x.floor())), V::Kw(k) if k == "normal" => Some(F::N(400.0)), V::Kw(k) if k == "bold" => Some(F::N(700.0)), _ => None } }
    else if name == "font-family" { if let V::Str(s) = v { Some(F::S(s.clone())) } else { None } }
    else if name.starts_with("border-") && name.ends_with("-width") {
        let w = match v { V::Num(x) => Some(*x), v => px(v, c) };
        if let Some(w) = w { m.insert(format!("lb-{}", &name[7..name.len() - 6]), F::L(w)); }
        w.map(F::L)
    }
    else if RADII.contains(&name) { match v { V::Pct(p) => Some(F::P(p / 100.0)), v => px(v, c).map(F::L) } }
    else if name.starts_with("padding-") || is(&["column-gap", "row-gap"]) { match v { V::Pct(p) => Some(F::P(p / 100.0)), v => px(v, c).map(F::L) } }
    else if name.starts_with("margin-") || SIDES.contains(&name) || is(&["width", "height", "min-width", "min-height", "max-width", "max-height", "flex-basis"]) {
        match v { V::Pct(p) => Some(F::P(p / 100.0)), V::Kw(k) if k == "auto" => Some(F::Auto), v => px(v, c).map(F::L) } }
    else if is(&["flex-grow", "flex-shrink"]) { match v { V::Num(x) => Some(F::N(*x)), V::Zero => Some(F::N(0.0)), _ => None } }
    else if let Some((_, table)) = KEYWORDS.iter().find(|k| k.0 == name) { if let V::Kw(k) = v { table.iter().find(|x| x.0 == k).map(|x| F::S(x.1.into())) } else { None } }
    else { None };
    if let Some(value) = value {
        // layers exist up to the last one that has been given a value
        if name.starts_with("background-") { let F::N(n) = m["backgrounds"] else { unreachable!() }; m.insert("backgrounds".into(), F::N(n.max(index as f32 + 1.0))); }
        m.insert(field, value);
    }
}

// ---------------------------------------------------------------- cases
struct El { uid: usize, class: String, bound: bool, inline: Vec<Decl>, inline_var: Option<String>, kids: Vec<El> }
pub struct Case { html: String, css: String, rules: Vec<(String, Vec<Decl>)>, root: Vec<El>, steps: Vec<(Value, [f32; 2])> }
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "html: {}\ncss:\n{}", self.html, self.css)?;
        for s in &self.steps { writeln!(f, "update {} viewport {:?}", s.0, s.1)?; }
        Ok(())
    }
}
const LONG: [&str; 60] = ["opacity", "color", "background-color", "background-image", "font-size", "font-weight", "font-family", "font-style", "text-align", "pointer-events", "cursor", "visibility",
    "border-top-width", "border-right-width", "border-bottom-width", "border-left-width", "border-top-color", "border-right-color", "border-bottom-color", "border-left-color",
    "border-top-left-radius", "border-top-right-radius", "border-bottom-right-radius", "border-bottom-left-radius", "box-sizing", "margin-top", "margin-right", "margin-bottom", "margin-left",
    "padding-top", "padding-right", "padding-bottom", "padding-left", "display", "overflow-x", "overflow-y", "position", "left", "right", "top", "bottom", "width", "height", "min-width", "min-height", "max-width", "max-height",
    "align-content", "align-items", "align-self", "justify-content", "justify-items", "justify-self", "flex-direction", "flex-wrap", "flex-basis", "flex-grow", "flex-shrink", "column-gap", "row-gap"];
const SHORT: [&str; 16] = ["background", "background-position", "border", "border-top", "border-right", "border-bottom", "border-left", "border-width", "border-color", "border-radius", "padding", "margin", "inset", "overflow", "gap", "border-style"];
const VARS: [&str; 4] = ["--a", "--b", "--c", "--d"];

struct Gen<'a> { r: &'a mut Rng, kind: Kind, uid: usize, budget: usize }
impl Gen<'_> {
    fn num(&mut self) -> f32 { *self.r.pick(&[1.0, 2.0, 3.5, 10.0, 0.25, 40.0, -2.0, 7.0, 100.0]) }
    fn value(&mut self, hint: &str) -> V {
        if self.kind == Kind::Cascade && self.r.chance(45) { return V::Var(if self.r.chance(4) { "--nope".into() } else { self.r.pick(&VARS).to_string() }); }
        if self.r.chance(78) {
            // a value of the kind the property wants
            if hint.ends_with("color") || hint == "background" || hint == "border" && self.r.chance(50) {
                return match self.r.below(5) { 0 => V::Kw(self.r.pick(&["black", "white", "red", "blue", "green", "transparent", "currentcolor", "pink"]).to_string()),
                    1 => self.rgb(), _ => V::Col([self.r.below(256) as u8, self.r.below(256) as u8, self.r.below(256) as u8, if self.r.chance(30) { self.r.below(255) as u8 } else { 255 }]) };
            }
            let key = if hint == "overflow" { "overflow-x" } else { hint };
            if let Some((_, t)) = KEYWORDS.iter().find(|k| k.0 == key) { if hint != "background-image" || self.r.chance(30) { return V::Kw(self.r.pick(t).0.to_string()); } else { return if self.r.chance(50) { V::Str("p.png".into()) } else { V::Fun("url".into(), vec![V::Str("q.png".into())]) }; } }
            if hint == "font-family" { return V::Str(self.r.pick(&["Arial", "My Font", "x"]).to_string()); }
            if matches!(hint, "font-weight" | "opacity" | "flex-grow" | "flex-shrink") { return if self.r.chance(15) { V::Zero } else { let n = self.num(); V::Num(if hint == "font-weight" { n * 100.0 } else { n }) }; }
            return match self.r.below(10) { 0 => V::Zero, 1 => V::Kw("auto".into()), 2 | 3 => V::Pct(self.num()), _ => self.dimension() };
        }
        match self.r.below(9) {
            0 => V::Zero, 1 => self.dimension(), 2 => V::Pct(self.num()), 3 => V::Num(self.num()), 4 => V::Col([9, 8, 7, 255]),
            5 => V::Kw(self.r.pick(&["auto", "none", "normal", "red", "hidden", "start", "unknown", "solid", "bold"]).to_string()), 6 => V::Str("s".into()), 7 => V::Time(1.5), _ => self.rgb(),
        }
    }
    fn dimension(&mut self) -> V { V::Dim(self.num(), *self.r.pick(&["px", "px", "em", "rem", "vw", "vh", "vmin", "vmax"])) }
    fn rgb(&mut self) -> V {
        let mut c = |s: &mut Self| match s.r.below(5) { 0 => V::Zero, 1 => V::Pct(*s.r.pick(&[10.0, 50.0, 100.0, 150.0])), 2 if s.kind == Kind::Cascade => V::Var(s.r.pick(&VARS).to_string()), _ => V::Num(*s.r.pick(&[1.0, 255.0, 300.0, 77.5, -3.0])) };
        let mut a = vec![c(self), c(self), c(self)];
        if self.r.chance(40) { a.push(match self.r.below(3) { 0 => V::Zero, 1 => V::Num(0.5), _ => V::Pct(25.0) }); V::Fun("rgba".into(), a) } else { V::Fun("rgb".into(), a) }
    }
    fn prop(&mut self) -> Decl {
        let short = self.r.chance(match self.kind { Kind::Shorthand => 75, Kind::Units => 10, _ => 35 });
        let name = if short { *self.r.pick(&SHORT) } else { *self.r.pick(&LONG) };
        let list = name.starts_with("background");
        let n = if list { 1 + self.r.below(3) } else { 1 };
        let shorthand = |g: &mut Self| -> Vec<V> {
            let k = if short { match name { "background" => 1 + g.r.below(2) * g.r.below(2), "border" | "border-top" | "border-right" | "border-bottom" | "border-left" => [3, 3, 3, 1, 2][g.r.below(5)], _ => 1 + g.r.below(4) } } else if g.r.chance(4) { 2 } else { 1 };
            if name.starts_with("border") && k == 3 && !matches!(name, "border-width" | "border-color" | "border-radius") {
                return vec![g.value("width"), V::Kw("solid".into()), g.value("border-color")];
            }
            if name == "border" && k == 1 { return vec![V::Kw(g.r.pick(&["none", "none", "red"]).to_string())]; }
            (0..k).map(|_| g.value(name)).collect()
        };
        Decl::Prop(name.into(), (0..n).map(|_| shorthand(self)).collect())
    }
    fn decls(&mut self) -> Vec<Decl> {
        let n = match self.kind { Kind::Units => 1 + self.r.below(4), _ => 1 + self.r.below(4) };
        let mut out = vec![];
        for _ in 0..n {
            if self.kind == Kind::Cascade && self.r.chance(40) {
                let name = self.r.pick(&VARS).to_string();
                // a definition with a reference has exactly one value, so that a cycle spoils exactly one
                let v = if self.r.chance(40) { vec![V::Var(self.r.pick(&VARS).to_string())] } else {
                    let h = *self.r.pick(&["width", "color", "padding"]); let k = if self.r.chance(80) { 1 } else { 2 };
                    let kind = self.kind; self.kind = Kind::Units; let v = (0..k).map(|_| self.value(h)).collect(); self.kind = kind; v };
                out.push(Decl::Var(name, v));
            } else { out.push(self.prop()); }
        }
        out
    }
    fn el(&mut self, depth: usize) -> El {
        self.uid += 1;
        let uid = self.uid;
        let bound = self.kind == Kind::Reset || self.r.chance(30);
        let class = if bound { format!("k{}", self.r.below(3)) } else { self.r.pick(&["r0", "r1", "r0 r2", "r1 r2 r3", "r3", ""]).to_string() };
        let inline = if self.r.chance(40) { self.decls() } else { vec![] };
        let inline_var = if self.kind == Kind::Reset && inline.is_empty() && self.r.chance(40) { Some("s".to_string()) } else { None };
        let mut kids = vec![];
        if depth > 0 { for _ in 0..self.r.below(3) { if self.budget > 0 { self.budget -= 1; kids.push(self.el(depth - 1)); } } }
        El { uid, class, bound, inline, inline_var, kids }
    }
}
fn html(e: &El) -> String {
    let class = if e.bound { format!("@class=\"{{{}}}\"", e.class) } else { format!("class=\"{}\"", e.class) };
    let style = match &e.inline_var { Some(v) => format!(" @style=\"width: {{{v}}}px;\""), None if e.inline.is_empty() => String::new(),
        // strings need quotes that an attribute cannot hold
        None => format!(" style=\"{}\"", e.inline.iter().map(decl_text).collect::<Vec<_>>().join(" ")) };
    format!("<div u=\"{}\" {class}{style}>x{}</div>", e.uid, e.kids.iter().map(html).collect::<String>())
}
fn has_str(d: &Decl) -> bool {
    fn v(x: &V) -> bool { match x { V::Str(_) => true, V::Fun(_, a) => a.iter().any(v), _ => false } }
    match d { Decl::Prop(_, l) => l.iter().any(|s| s.iter().any(v)), Decl::Var(_, s) => s.iter().any(v) }
}
fn no_str(e: &mut El) { e.inline.retain(|d| !has_str(d)); for k in e.kids.iter_mut() { no_str(k); } }

fn check_el(f: &Fragment, e: &El, c: &Case, data: &Value, parent: &Map, ctx: &Ctx, vars: &Vars, n: &mut usize) -> Result<(), String> {
    let classes = if e.bound { conv_text(data.get(&e.class).unwrap_or(&Value::Null)) } else { e.class.clone() };
    let words: Vec<&str> = classes.split(' ').collect();
    let mut want = initial();
    for k in INHERITED { want.insert(k.into(), parent[k].clone()); }
    let mut vars = vars.clone();
    let mut computed: BTreeMap<(String, usize), V> = BTreeMap::new();
    let inline = match &e.inline_var { Some(v) => vec![Decl::Prop("width".into(), vec![vec![V::Dim(data[v].as_f64().unwrap_or(0.0) as f32, "px")]])], None => e.inline.clone() };
    for d in c.rules.iter().filter(|r| words.contains(&r.0.as_str())).flat_map(|r| r.1.iter()).chain(inline.iter()) {
        match d {
            Decl::Var(n, v) => { vars.insert(n.clone(), v.clone()); }
            Decl::Prop(n, list) => for (i, s) in list.iter().enumerate() {
                let mut v = vec![];
                expand(s, &vars, &mut vec![], &mut v);
                for (n, v) in longhands(n, &v) { computed.insert((n, i), v); }
            },
        }
    }
    for ((name, i), v) in &computed { apply(name, *i, v, ctx, &mut want); }
    let got = actual(f);
    for (k, v) in &want { *n += 1; if got.get(k).map_or(true, |g| !close(g, v)) { return Err(format!("element u={} class {classes:?}: {k} is {:?}, expected {v:?}", e.uid, got.get(k))); } }
    let F::L(size) = want["font-size"] else { unreachable!() };
    let F::C(color) = want["color"] else { unreachable!() };
    let ctx = Ctx { viewport: ctx.viewport, parent_font: size, parent_color: color };
    let kids = f.children();
    let shown: Vec<_> = kids.iter().filter(|k| k.element.text.is_none()).collect();
    for t in kids.iter().filter(|k| k.element.text.is_some()) {
        let t = actual(t);
        for k in INHERITED { if !close(&t[k], &want[k]) { return Err(format!("text in u={}: {k} is {:?}, expected {:?}", e.uid, t[k], want[k])); } }
    }
    if shown.len() != e.kids.len() { return Err("children".into()); }
    for (k, d) in shown.iter().zip(&e.kids) { check_el(k, d, c, data, &want, &ctx, &vars, n)?; }
    Ok(())
}

impl Prop for Look {
    type Case = Case;
    fn gen(&self, r: &mut Rng, size: usize) -> Case {
        let mut g = Gen { r, kind: self.kind, uid: 0, budget: 1 + size / 2 };
        let rules: Vec<(String, Vec<Decl>)> = (0..4 + g.r.below(3)).map(|i| (format!("r{}", i % 4), g.decls())).collect();
        let mut root: Vec<El> = vec![];
        for _ in 0..1 + g.r.below(2) { root.push(g.el(2)); }
        root.iter_mut().for_each(no_str);
        let css: String = rules.iter().map(|(c, d)| format!(".{c} {{ {} }}\n", d.iter().map(decl_text).collect::<Vec<_>>().join(" "))).collect();
        let body: String = root.iter().map(html).collect();
        let mut data = json!({});
        let mut steps = vec![];
        for _ in 0..1 + r.below(if self.kind == Kind::Reset { 5 } else { 2 }) {
            for k in ["k0", "k1", "k2"] { if r.chance(60) { data[k] = json!(*r.pick(&["", "r0", "r1", "r2", "r3", "r0 r1", "r2 r0 r3"])); } }
            data["s"] = json!(r.range(1, 50));
            let viewport = if steps.is_empty() || r.chance(50) { *r.pick(&[[800.0, 600.0], [100.0, 900.0], [640.0, 641.0]]) } else { steps.last().map(|s: &(Value, [f32; 2])| s.1).unwrap() };
            steps.push((data.clone(), viewport));
        }
        Case { html: format!("<html><body>{body}</body></html>"), css, rules, root, steps }
    }
    fn check(&self, c: &Case) -> Result<usize, String> {
        let mut v = view(&c.html, &c.css)?;
        let mut n = 0;
        for (i, (data, viewport)) in c.steps.iter().enumerate() {
            update(&mut v, Input::new().viewport(*viewport), data).map_err(|e| format!("update {}: {e}", i + 1))?;
            let base = initial();
            let ctx = Ctx { viewport: *viewport, parent_font: 16.0, parent_color: [0, 0, 0, 255] };
            let body = v.body();
            let kids = body.children();
            if kids.len() != c.root.len() { return Err("children of body".into()); }
            for (k, e) in kids.iter().zip(&c.root) { check_el(k, e, c, data, &base, &ctx, &Vars::new(), &mut n).map_err(|e| format!("update {}: {e}", i + 1))?; }
        }
        Ok(n)
    }
}
