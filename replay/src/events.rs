//! C05 C06 C07 C08: input events against a reference simulation over the geometry the view reports.
use crate::core::*;
use bumaga::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Hover, Focus, Drag }
pub struct Events { pub kind: Kind }

const NAMES: [&str; 18] = ["onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu",
    "ondragstart", "ondragenter", "ondragleave", "ondragover", "ondrop", "ondragend", "onfocus", "onblur", "oninput", "onkeydown", "onkeyup"];

#[derive(Debug)]
pub struct Step { data: Value, events: Vec<InputEvent> }
pub struct Case { html: String, listeners: BTreeMap<usize, BTreeSet<String>>, draggable: BTreeSet<usize>, steps: Vec<Step> }
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "html: {}", self.html)?;
        for s in &self.steps { writeln!(f, "update {} {:?}", s.data, s.events)?; }
        Ok(())
    }
}

struct Gen<'a> { r: &'a mut Rng, kind: Kind, uid: usize, budget: usize, listeners: BTreeMap<usize, BTreeSet<String>>, draggable: BTreeSet<usize> }
impl Gen<'_> {
    fn el(&mut self, depth: usize) -> String {
        self.uid += 1;
        let uid = self.uid;
        let mut set = BTreeSet::new();
        for n in NAMES {
            let p = match (n, self.kind) {
                ("oninput", Kind::Focus) => 55, ("oninput", _) => 15,
                ("ondrop", Kind::Drag) => 35, ("ondrop", _) => 10,
                _ => 85,
            };
            if self.r.chance(p) { set.insert(n.to_string()); }
        }
        let mut s = format!("position: absolute; left: {}px; top: {}px; width: {}px; height: {}px;",
            self.r.range(-4, 12) * 5, self.r.range(-4, 12) * 5, self.r.range(0, 14) * 5, self.r.range(1, 14) * 5);
        if self.r.chance(12) { s += " pointer-events: none;" } else if self.r.chance(8) { s += " pointer-events: auto;" }
        if self.r.chance(10) { s += " visibility: hidden;" }
        if self.r.chance(8) { s += " overflow: scroll;" }
        let mut a = String::new();
        for n in &set { a += &format!(" ^{n}=\"{n}-{uid} $event\""); }
        let drag = self.r.chance(if self.kind == Kind::Drag { 45 } else { 10 });
        if drag { a += " draggable=\"true\""; self.draggable.insert(uid); } else if self.r.chance(10) { a += " draggable=\"false\""; }
        if self.r.chance(25) { a += &format!(" {}=\"{{c{}}}\"", if self.r.chance(50) { "?" } else { "!" }, self.r.below(4)); }
        self.listeners.insert(uid, set);
        let mut kids = String::new();
        if depth > 0 { for _ in 0..self.r.below(4) { if self.budget > 0 { self.budget -= 1; kids += &self.el(depth - 1); } } }
        format!("<div u=\"{uid}\" style=\"{s}\"{a}>{kids}</div>")
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Msg { name: String, uid: usize, hover: bool, active: bool, focus: bool }

#[derive(Default)]
struct Sim { hovered: Vec<usize>, active: BTreeSet<usize>, focus: Option<usize>, drag: Option<usize>, out: Vec<Msg> }
impl Sim {
    fn emit(&mut self, c: &Case, name: &str, uid: usize) {
        if c.listeners[&uid].contains(name) {
            self.out.push(Msg { name: name.into(), uid, hover: self.hovered.contains(&uid), active: self.active.contains(&uid), focus: self.focus == Some(uid) });
        }
    }
    fn step(&mut self, c: &Case, boxes: &[(usize, [f32; 2], [f32; 2], bool)], e: &InputEvent) {
        match *e {
            InputEvent::MouseMove(p) => {
                let next: Vec<usize> = boxes.iter().filter(|(_, at, size, open)| *open && p[0] - at[0] >= 0.0 && p[0] - at[0] < size[0] && p[1] - at[1] >= 0.0 && p[1] - at[1] < size[1]).map(|b| b.0).collect();
                let before = std::mem::replace(&mut self.hovered, next.clone());
                for n in before.iter().rev().filter(|n| !next.contains(n)) {
                    self.emit(c, "onmouseleave", *n);
                    if self.drag.is_some() { self.emit(c, "ondragleave", *n); }
                }
                for n in next.iter().rev() {
                    if !before.contains(n) {
                        self.emit(c, "onmouseenter", *n);
                        if self.drag.is_some() { self.emit(c, "ondragenter", *n); }
                    }
                    self.emit(c, "onmousemove", *n);
                    if self.drag.is_some() { self.emit(c, "ondragover", *n); }
                }
            }
            InputEvent::MouseButtonDown(b) => {
                if let Some(f) = self.focus { if !self.hovered.contains(&f) { self.focus = None; self.emit(c, "onblur", f); } }
                for n in self.hovered.clone().into_iter().rev() {
                    self.active.insert(n);
                    if c.listeners[&n].contains("oninput") {
                        if let Some(f) = self.focus { if f != n { self.focus = None; self.emit(c, "onblur", f); } }
                        if self.focus != Some(n) { self.focus = Some(n); self.emit(c, "onfocus", n); }
                    }
                    self.emit(c, "onmousedown", n);
                    if b == MouseButtons::Left && self.drag.is_none() && c.draggable.contains(&n) { self.emit(c, "ondragstart", n); self.drag = Some(n); }
                }
            }
            InputEvent::MouseButtonUp(b) => {
                let was = self.drag.is_some();
                for n in self.hovered.clone().into_iter().rev() {
                    self.emit(c, "onmouseup", n);
                    if let Some(src) = self.drag {
                        if c.listeners[&n].contains("ondrop") { self.emit(c, "ondrop", n); self.drag = None; self.emit(c, "ondragend", src); }
                    } else if !was {
                        if b == MouseButtons::Left && self.active.contains(&n) { self.emit(c, "onclick", n); }
                        if b == MouseButtons::Right { self.emit(c, "oncontextmenu", n); }
                    }
                }
                if let Some(src) = self.drag.take() { self.emit(c, "ondragend", src); }
                self.active.clear();
            }
            InputEvent::KeyDown(_) => if let Some(f) = self.focus { self.emit(c, "onkeydown", f) },
            InputEvent::KeyUp(_) => if let Some(f) = self.focus { self.emit(c, "onkeyup", f) },
            InputEvent::Char(_) => if let Some(f) = self.focus { self.emit(c, "oninput", f) },
            _ => {}
        }
    }
}

fn parse(m: &Value) -> Result<Msg, String> {
    let bad = || format!("unexpected message {m}");
    let (k, v) = m.as_object().and_then(|o| o.iter().next()).ok_or_else(bad)?;
    let (name, uid) = k.rsplit_once('-').ok_or_else(bad)?;
    let s = &v["target"]["state"];
    let b = |k: &str| s[k].as_bool().unwrap_or(false);
    Ok(Msg { name: name.into(), uid: uid.parse().map_err(|_| bad())?, hover: b("hover"), active: b("active"), focus: b("focus") })
}

/// what the property fixes about a message stream: per element order, the states it names, and the global order where it matters
fn projection(kind: Kind, msgs: &[Msg]) -> (BTreeMap<usize, Vec<String>>, Vec<String>) {
    let mut per: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut global = vec![];
    for m in msgs {
        let n = m.name.as_str();
        let keep = match kind {
            Kind::Hover => matches!(n, "onmouseenter" | "onmouseleave" | "onmousemove" | "onmousedown" | "onmouseup"),
            Kind::Focus => matches!(n, "onfocus" | "onblur" | "oninput" | "onkeydown" | "onkeyup" | "onmousemove"),
            Kind::Drag => n.starts_with("ondr") || matches!(n, "onclick" | "oncontextmenu" | "onmousedown" | "onmouseup" | "onmousemove" | "onmouseenter" | "onmouseleave"),
        };
        if !keep { continue; }
        let state = match (kind, n) {
            (Kind::Hover, _) => format!(" hover={}", m.hover),
            (Kind::Focus, _) => format!(" focus={}", m.focus),
            (Kind::Drag, "onmousemove" | "onclick" | "onmouseup") => format!(" active={}", m.active),
            _ => String::new(),
        };
        per.entry(m.uid).or_default().push(format!("{n}{state}"));
        let g = match kind { Kind::Hover => false, Kind::Focus => n != "onmousemove", Kind::Drag => matches!(n, "ondragstart" | "ondrop" | "ondragend") };
        if g { global.push(format!("{n}-{}", m.uid)); }
    }
    (per, global)
}

impl Prop for Events {
    type Case = Case;
    fn gen(&self, r: &mut Rng, size: usize) -> Case {
        let mut g = Gen { r, kind: self.kind, uid: 0, budget: 2 + size, listeners: Default::default(), draggable: Default::default() };
        let mut body = String::new();
        for _ in 0..1 + g.r.below(3) { body += &g.el(3); }
        let (listeners, draggable) = (std::mem::take(&mut g.listeners), std::mem::take(&mut g.draggable));
        let mut steps: Vec<Step> = vec![];
        let mut data = json!({"c0": true, "c1": false, "c2": true, "c3": false});
        for _ in 0..2 + r.below(4 + size) {
            if r.chance(25) { let k = format!("c{}", r.below(4)); data[k] = json!(r.chance(50)); }
            let n = r.below(4);
            let mut events = vec![];
            for _ in 0..n {
                events.push(match r.below(14) {
                    0..=4 => InputEvent::MouseMove([r.range(-8, 40) as f32 * 2.5, r.range(-8, 40) as f32 * 2.5]),
                    5 | 6 => InputEvent::MouseButtonDown(MouseButtons::Left),
                    7 => InputEvent::MouseButtonDown(MouseButtons::Right),
                    8 | 9 => InputEvent::MouseButtonUp(MouseButtons::Left),
                    10 => InputEvent::MouseButtonUp(MouseButtons::Right),
                    11 => InputEvent::KeyDown(Keys::Enter),
                    12 => InputEvent::KeyUp(Keys::Tab),
                    _ => InputEvent::Char('x'),
                });
            }
            steps.push(Step { data: data.clone(), events });
        }
        Case { html: format!("<html><body style=\"width: 100px; height: 100px;\">{body}</body></html>"), listeners, draggable, steps }
    }
    fn check(&self, c: &Case) -> Result<usize, String> {
        let mut v = view(&c.html, "")?;
        let mut sim = Sim::default();
        let mut mouse = [0.0, 0.0];
        let mut obs = 0;
        for (i, s) in c.steps.iter().enumerate() {
            let out = update(&mut v, Input::new().events(s.events.clone()), &s.data).map_err(|e| format!("update {}: {e}", i + 1))?;
            let boxes: Vec<_> = shown(&v).iter().filter_map(|f| {
                let uid = f.element.attrs.get("u")?.parse().ok()?;
                Some((uid, f.element.position, f.element.size, f.element.visible && f.element.pointer_events == PointerEvents::Auto))
            }).collect();
            let mut events = s.events.clone();
            let moved = events.iter().rev().find_map(|e| if let InputEvent::MouseMove(p) = e { Some(*p) } else { None });
            match moved { Some(p) => mouse = p, None => events.insert(0, InputEvent::MouseMove(mouse)) }
            sim.out.clear();
            for e in &events { sim.step(c, &boxes, e); }
            let got: Vec<Msg> = out.messages.iter().map(parse).collect::<Result<_, _>>()?;
            let (a, ga) = projection(self.kind, &sim.out);
            let (b, gb) = projection(self.kind, &got);
            obs += got.len();
            if a != b || ga != gb {
                let diff: Vec<_> = a.keys().chain(b.keys()).filter(|k| a.get(k) != b.get(k)).map(|k| format!("element {k}: messages {:?}, expected {:?}", b.get(k), a.get(k))).collect();
                return Err(format!("update {}: {diff:?}\norder {gb:?}, expected {ga:?}\nboxes {boxes:?}", i + 1));
            }
        }
        Ok(obs)
    }
}

// ---------------------------------------------------------------- C08

pub struct Emit;
#[derive(Debug, Clone)]
enum Arg { Word(String), Event, Bound { text: String, pointer: String, pipe: Vec<String> } }
#[derive(Debug)]
pub struct EmitCase { html: String, handlers: BTreeMap<String, Vec<Arg>>, steps: Vec<Step> }
impl Prop for Emit {
    type Case = EmitCase;
    fn gen(&self, r: &mut Rng, _size: usize) -> EmitCase {
        let mut handlers = BTreeMap::new();
        let mut attrs = String::new();
        for n in ["onmousemove", "onmousedown", "onmouseup", "onkeydown", "onkeyup", "oninput", "onclick", "onfocus"] {
            let mut args = vec![];
            for _ in 0..r.below(5) {
                args.push(match r.below(7) {
                    0 | 1 => Arg::Word(r.pick(&["Key", "a-b", "x_1", "2"]).to_string()),
                    2 => Arg::Event,
                    _ => {
                        let (text, pointer) = r.pick(&[("a", "/a"), ("b.c", "/b/c"), ("b.d", "/b/d"), ("item.v", "/l/0/v"), ("item", ""), ("al", "/b/e"), ("l", "/l/0")]).clone();
                        if text == "item" || text == "l" { Arg::Word("zz".into()) } else {
                            let mut pipe = vec![];
                            for _ in 0..r.below(3) { pipe.push(r.pick(&["up", "wrap", "json"]).to_string()); }
                            Arg::Bound { text: text.into(), pointer: pointer.into(), pipe }
                        }
                    }
                });
            }
            let text: Vec<String> = args.iter().map(|a| match a { Arg::Word(w) => w.clone(), Arg::Event => "$event".into(),
                Arg::Bound { text, pipe, .. } => format!("{{{}{}}}", text, pipe.iter().map(|p| format!(" | {p}")).collect::<String>()) }).collect();
            attrs += &format!(" ^{n}=\"{}\"", text.join(" "));
            handlers.insert(n.to_string(), args);
        }
        let mut steps = vec![];
        let mut data = json!({});
        for _ in 0..1 + r.below(4) {
            for k in ["a"] { if r.chance(60) { data[k] = any_json(r, 2); } }
            if r.chance(70) { data["b"] = json!({"c": any_json(r, 2), "d": any_json(r, 1), "e": any_json(r, 1)}); }
            if r.chance(20) { data["b"] = json!({}); }
            data["l"] = json!([{"v": any_json(r, 1)}, {"v": 1}]);
            let mut events = vec![InputEvent::MouseMove([5.0, 5.0])];
            for _ in 0..r.below(5) {
                events.push(match r.below(5) { 0 => InputEvent::MouseButtonDown(MouseButtons::Left), 1 => InputEvent::MouseButtonUp(MouseButtons::Left),
                    2 => InputEvent::KeyDown(*r.pick(&[Keys::Enter, Keys::ArrowUp, Keys::Escape])), 3 => InputEvent::KeyUp(Keys::Tab), _ => InputEvent::Char(*r.pick(&['x', 'ы', '\n'])) });
            }
            steps.push(Step { data: data.clone(), events });
        }
        let html = format!("<html><body style=\"width: 100px; height: 100px;\"><div +al=\"{{b.e}}\"><div *item=\"2 {{l}}\" u=\"1\" style=\"position: absolute; left: 0px; top: 0px; width: 20px; height: 20px;\"{attrs}>{{item.v}}</div></div></body></html>");
        EmitCase { html, handlers, steps }
    }
    fn check(&self, c: &EmitCase) -> Result<usize, String> {
        let mut v = view(&c.html, "")?;
        let (mut active, mut focus, mut obs) = ([false; 2], None::<usize>, 0);
        for (i, s) in c.steps.iter().enumerate() {
            let out = update(&mut v, Input::new().events(s.events.clone()), &s.data).map_err(|e| format!("update {}: {e}", i + 1))?;
            // both items lie under the pointer: the later one first
            let mut want: Vec<(usize, &str, Value)> = vec![];
            for e in &s.events {
                match e {
                    InputEvent::MouseMove(p) => for k in [1, 0] { want.push((k, "onmousemove", json!({"position": p}))) },
                    InputEvent::MouseButtonDown(_) => for k in [1usize, 0] {
                        active[k] = true;
                        if focus != Some(k) { focus = Some(k); want.push((k, "onfocus", json!({"position": [5.0, 5.0]}))); }
                        want.push((k, "onmousedown", json!({"position": [5.0, 5.0]})));
                    },
                    InputEvent::MouseButtonUp(_) => { for k in [1usize, 0] { want.push((k, "onmouseup", json!({"position": [5.0, 5.0]}))); if active[k] { want.push((k, "onclick", json!({"position": [5.0, 5.0]}))); } } active = [false; 2]; }
                    InputEvent::KeyDown(key) => if let Some(k) = focus { want.push((k, "onkeydown", json!({"key": format!("{key:?}")}))) },
                    InputEvent::KeyUp(key) => if let Some(k) = focus { want.push((k, "onkeyup", json!({"key": format!("{key:?}")}))) },
                    InputEvent::Char(ch) => if let Some(k) = focus { want.push((k, "oninput", json!({"char": ch}))) },
                    _ => {}
                }
            }
            if out.messages.len() != want.len() { return Err(format!("update {}: {} messages for {} delivered events with handlers: {:?}\nexpected {want:?}", i + 1, out.messages.len(), want.len(), out.messages)); }
            for (m, (k, name, event)) in out.messages.iter().zip(&want) {
                obs += 1;
                let mut values = vec![];
                for a in &c.handlers[*name] {
                    values.push(match a {
                        Arg::Word(w) => json!(w),
                        Arg::Event => json!({"EVENT": event}),
                        Arg::Bound { pointer, pipe, .. } => {
                            let mut x = s.data.pointer(&pointer.replace("/l/0", &format!("/l/{k}"))).cloned().unwrap_or(Value::Null);
                            for p in pipe { x = PIPES.iter().find(|q| q.0 == p).unwrap().1(x); }
                            x
                        }
                    });
                }
                let want = if values.is_empty() { json!("Undefined") } else {
                    let key = conv_text(&values[0]);
                    match values.len() { 1 => json!(key), 2 => json!({ key: values[1] }), _ => json!({ key: values[1..] }) }
                };
                if !same(&want, m) { return Err(format!("update {}: message for {name} of item {k} is {m}, expected {want}", i + 1)); }
            }
        }
        Ok(obs)
    }
}
/// equal, where {"EVENT": e} stands for event data that contains e and a target
fn same(want: &Value, got: &Value) -> bool {
    match (want, got) {
        (Value::Object(w), Value::Object(g)) => {
            if let (Some(e), 1) = (w.get("EVENT"), w.len()) {
                return e.as_object().unwrap().iter().all(|(k, v)| g.get(k) == Some(v)) && g.get("target").map_or(false, |t| t["size"] == json!([20.0, 20.0]) && t["position"] == json!([0.0, 0.0]));
            }
            w.len() == g.len() && w.iter().all(|(k, v)| g.get(k).map_or(false, |x| same(v, x)))
        }
        (Value::Array(w), Value::Array(g)) => w.len() == g.len() && w.iter().zip(g).all(|(a, b)| same(a, b)),
        _ => want == got,
    }
}
