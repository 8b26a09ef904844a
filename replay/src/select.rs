//! C09 C10: which rules apply, against a reference matcher over the live tree.
//! Rule i sets its own marker property, so every match is visible independently of the others.
use crate::core::*;
use bumaga::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use taffy::NodeId;

pub struct Select { pub dynamic: bool }

#[derive(Clone, Debug)]
enum Part { All, Type(String), Id(String), Class(String), Attr(String, &'static str, String), Pseudo(String) }
type Compound = Vec<Part>;
#[derive(Clone, Debug)]
struct Complex { parts: Vec<Compound>, comb: Vec<char> }

const MARKS: [(&str, &str); 12] = [("border-top-left-radius", "7px"), ("border-top-right-radius", "7px"), ("border-bottom-left-radius", "7px"), ("border-bottom-right-radius", "7px"),
    ("border-top-color", "#010203"), ("border-right-color", "#010203"), ("border-bottom-color", "#010203"), ("border-left-color", "#010203"),
    ("flex-grow", "7"), ("row-gap", "7px"), ("column-gap", "7px"), ("flex-basis", "7px")];
fn marked(f: &Fragment, i: usize) -> bool {
    let e = f.element;
    let s = f.tree.style(e.node).unwrap();
    let r = |l: Length| matches!(l, Length::Number(x) if x == 7.0);
    let c = |c: Rgba| c == [1, 2, 3, 255];
    let lp = |l: taffy::LengthPercentage| l == taffy::LengthPercentage::Length(7.0);
    match i {
        0 => r(e.borders.radius[0]), 1 => r(e.borders.radius[1]), 2 => r(e.borders.radius[3]), 3 => r(e.borders.radius[2]),
        4 => c(e.borders.top.color), 5 => c(e.borders.right.color), 6 => c(e.borders.bottom.color), 7 => c(e.borders.left.color),
        8 => s.flex_grow == 7.0, 9 => lp(s.gap.height), 10 => lp(s.gap.width), _ => s.flex_basis == taffy::Dimension::Length(7.0),
    }
}

pub struct Case { html: String, css: String, rules: Vec<Vec<Complex>>, steps: Vec<(Value, Vec<InputEvent>)> }
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "html: {}\ncss:\n{}", self.html, self.css)?;
        for s in &self.steps { writeln!(f, "update {} {:?}", s.0, s.1)?; }
        Ok(())
    }
}

const CLASSES: [&str; 4] = ["a", "b", "ab", "c"];
const VALUES: [&str; 8] = ["en", "en-US", "x en", "en x", "", "enx", "n", "-"];
const STATES: [&str; 4] = ["hover", "active", "focus", "blank"];

fn compound(r: &mut Rng) -> Compound {
    let mut out = vec![];
    if r.chance(12) { out.push(Part::All) } else if r.chance(35) { out.push(Part::Type(r.pick(&["div", "p", "span", "body"]).to_string())) }
    let n = if out.is_empty() { 1 } else { 0 } + r.below(2);
    for _ in 0..n {
        out.push(match r.below(10) {
            0..=3 => Part::Class(r.pick(&CLASSES).to_string()),
            4 | 5 => Part::Id(r.pick(&["i", "j", "k"]).to_string()),
            6 | 7 => Part::Attr(r.pick(&["data-a", "data-b", "class", "id"]).to_string(), *r.pick(&["", "=", "~=", "|=", "^=", "$=", "*="]), r.pick(&VALUES).to_string()),
            _ => Part::Pseudo(r.pick(&STATES).to_string()),
        });
    }
    out
}
fn show(c: &Complex) -> String {
    let mut s = String::new();
    for (i, p) in c.parts.iter().enumerate() {
        if i > 0 { s += &format!(" {} ", c.comb[i - 1]); }
        for x in p {
            s += &match x { Part::All => "*".into(), Part::Type(t) => t.clone(), Part::Id(i) => format!("#{i}"), Part::Class(c) => format!(".{c}"),
                Part::Attr(n, "", _) => format!("[{n}]"), Part::Attr(n, o, v) => format!("[{n}{o}\"{v}\"]"), Part::Pseudo(p) => format!(":{p}") };
        }
    }
    s
}
struct States { hovered: Vec<NodeId>, active: Vec<NodeId>, focus: Option<NodeId>, mouse: [f32; 2] }
fn part(p: &Part, e: &Element, st: &States) -> bool {
    let words = |s: &str| s.split(|c: char| c.is_ascii_whitespace()).filter(|w| !w.is_empty()).map(str::to_string).collect::<BTreeSet<_>>();
    match p {
        Part::All => true,
        Part::Type(t) => e.tag == *t,
        Part::Id(i) => e.attrs.get("id") == Some(i),
        Part::Class(c) => e.attrs.get("class").map_or(false, |a| words(a).contains(c)),
        Part::Attr(n, o, v) => e.attrs.get(n).map_or(false, |a| match *o {
            "" => true, "=" => a == v, "~=" => words(a).contains(v), "|=" => a == v || (a.len() > v.len() && a.starts_with(v.as_str()) && a.as_bytes()[v.len()] == b'-'),
            "^=" => !v.is_empty() && a.len() >= v.len() && &a.as_bytes()[..v.len()] == v.as_bytes(),
            "$=" => !v.is_empty() && a.len() >= v.len() && &a.as_bytes()[a.len() - v.len()..] == v.as_bytes(),
            _ => !v.is_empty() && a.as_bytes().windows(v.len()).any(|w| w == v.as_bytes()),
        }),
        Part::Pseudo(p) => match p.as_str() { "hover" => st.hovered.contains(&e.node), "active" => st.active.contains(&e.node), "focus" => st.focus == Some(e.node), _ => false },
    }
}
fn matches(c: &Complex, at: usize, node: NodeId, tree: &taffy::TaffyTree<Element>, st: &States) -> bool {
    let Some(e) = tree.get_node_context(node) else { return false };
    if !c.parts[at].iter().all(|p| part(p, e, st)) { return false; }
    if at == 0 { return true; }
    let Some(parent) = tree.parent(node) else { return false };
    match c.comb[at - 1] {
        '>' => matches(c, at - 1, parent, tree, st),
        _ => {
            let kids = tree.children(parent).unwrap();
            let i = kids.iter().position(|k| *k == node).unwrap();
            i > 0 && matches(c, at - 1, kids[i - 1], tree, st)
        }
    }
}

struct Gen<'a> { r: &'a mut Rng, budget: usize, dynamic: bool }
impl Gen<'_> {
    fn el(&mut self, depth: usize) -> String {
        let tag = self.r.pick(&["div", "p", "span"]).to_string();
        let mut a = String::new();
        for key in ["class", "id", "data-a", "data-b"] {
            if !self.r.chance(45) { continue; }
            let pool: &[&str] = match key { "class" => &["a", "b", "a b", "b  ab", "c", "b\n\tc"], "id" => &["i", "j", "k"], _ => &VALUES };
            if self.dynamic && self.r.chance(50) {
                let v = format!("{}{}", &key[..1], self.r.below(3));
                match self.r.below(4) {
                    0 if key.starts_with("data") || key == "class" => a += &format!(" #{key}=\"{{t{}}}\"", self.r.below(3)),
                    1 if key != "id" => a += &format!(" @{key}=\"{} {{{v}}}\"", self.r.pick(&CLASSES)),
                    _ => a += &format!(" @{key}=\"{{{v}}}\""),
                }
            } else { a += &format!(" {key}=\"{}\"", self.r.pick(pool)); }
        }
        if self.dynamic {
            match self.r.below(8) { 0 => a += &format!(" ?=\"{{t{}}}\"", self.r.below(3)), 1 => a += &format!(" !=\"{{t{}}}\"", self.r.below(3)),
                2 => a += &format!(" *item=\"2 {{l{}}}\"", self.r.below(2)), _ => {} }
        }
        if self.r.chance(30) { a += " ^oninput=\"x\""; }
        let mut kids = String::new();
        if depth > 0 { for _ in 0..self.r.below(4) { if self.budget > 0 { self.budget -= 1; kids += &self.el(depth - 1); } } }
        format!("<{tag}{a} style=\"position: absolute; left: {}px; top: {}px; width: 40px; height: 40px;\">{kids}</{tag}>", self.r.range(0, 3) * 10, self.r.range(0, 3) * 10)
    }
}

impl Prop for Select {
    type Case = Case;
    fn gen(&self, r: &mut Rng, size: usize) -> Case {
        let mut g = Gen { r, budget: 3 + size, dynamic: self.dynamic };
        let mut body = String::new();
        for _ in 0..1 + g.r.below(3) { body += &g.el(3); }
        let rules: Vec<Vec<Complex>> = (0..1 + r.below(MARKS.len())).map(|_| (0..if r.chance(20) { 2 } else { 1 }).map(|_| {
            let n = if r.chance(50) { 1 } else { 2 + r.below(2) };
            Complex { parts: (0..n).map(|_| compound(r)).collect(), comb: (1..n).map(|_| *r.pick(&['>', '+'])).collect() }
        }).collect()).collect();
        let css: String = rules.iter().enumerate().map(|(i, l)| format!("{} {{ {}: {}; }}\n", l.iter().map(show).collect::<Vec<_>>().join(", "), MARKS[i].0, MARKS[i].1)).collect();
        let mut data = json!({});
        let mut steps = vec![];
        for _ in 0..2 + r.below(4) {
            for k in ["c0", "c1", "c2"] { if r.chance(50) { data[k] = json!(*r.pick(&["a", "b", "a b", "c", ""])); } }
            for k in ["i0", "i1", "i2"] { if r.chance(50) { data[k] = json!(*r.pick(&["i", "j", "k"])); } }
            for k in ["d0", "d1", "d2"] { if r.chance(50) { data[k] = json!(*r.pick(&VALUES)); } }
            for k in ["t0", "t1", "t2"] { if r.chance(50) { data[k] = json!(r.chance(50)); } }
            for k in ["l0", "l1"] { if r.chance(50) { data[k] = json!(vec![0; r.below(3)]); } }
            let events = (0..r.below(3)).map(|_| match r.below(4) { 0 => InputEvent::MouseButtonDown(MouseButtons::Left), 1 => InputEvent::MouseButtonUp(MouseButtons::Right),
                _ => InputEvent::MouseMove([r.range(-1, 12) as f32 * 5.0, r.range(-1, 12) as f32 * 5.0]) }).collect();
            steps.push((data.clone(), events));
        }
        Case { html: format!("<html><body>{body}</body></html>"), css, rules, steps }
    }
    fn check(&self, c: &Case) -> Result<usize, String> {
        let mut v = view(&c.html, &c.css)?;
        let mut st = States { hovered: vec![], active: vec![], focus: None, mouse: [0.0; 2] };
        let mut positive = 0;
        for (i, (data, events)) in c.steps.iter().enumerate() {
            update(&mut v, Input::new().events(events.clone()), data).map_err(|e| format!("update {}: {e}", i + 1))?;
            let all = shown(&v);
            for f in all.iter() {
                if f.element.text.is_some() { continue; }
                for (k, rule) in c.rules.iter().enumerate() {
                    let want = rule.iter().any(|x| matches(x, x.parts.len() - 1, f.element.node, f.tree, &st));
                    positive += want as usize;
                    if marked(f, k) != want {
                        return Err(format!("update {}: rule {k} `{}` {} the element <{} {:?}>", i + 1, rule.iter().map(show).collect::<Vec<_>>().join(", "),
                            if want { "must apply to" } else { "must not apply to" }, f.element.tag, f.element.attrs));
                    }
                }
            }
            // states as of the end of this update
            let mut events = events.clone();
            match events.iter().rev().find_map(|e| if let InputEvent::MouseMove(p) = e { Some(*p) } else { None }) { Some(p) => st.mouse = p, None => events.insert(0, InputEvent::MouseMove(st.mouse)) }
            for e in events {
                match e {
                    InputEvent::MouseMove(p) => st.hovered = all.iter().filter(|f| { let e = f.element; (0..2).all(|k| p[k] >= e.position[k] && p[k] < e.position[k] + e.size[k]) }).map(|f| f.element.node).collect(),
                    InputEvent::MouseButtonDown(_) => {
                        st.active.extend(st.hovered.iter());
                        // the elements under the pointer are those of the last pointer move, even if hidden since
                        let tree = v.body().tree;
                        st.focus = st.hovered.iter().copied().find(|n| tree.get_node_context(*n).map_or(false, |e| e.listeners.contains_key("oninput")));
                    }
                    InputEvent::MouseButtonUp(_) => st.active.clear(),
                    _ => {}
                }
            }
        }
        Ok(positive)
    }
}
