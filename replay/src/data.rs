//! C01 C02 C04 C21 C22 C23: templates against a reference interpreter that knows only the latest value.
use crate::core::*;
use bumaga::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Converge, Arbitrary, Order, Scope, Spans, Ids }
pub struct Data { pub kind: Kind }

#[derive(Clone, Debug)]
pub enum Ty { Leaf, Num, Obj(Vec<(String, Ty)>), List(usize, Box<Ty>) }
#[derive(Clone, Debug)]
pub struct Binder { path: Vec<String>, pipe: Vec<String> }
#[derive(Clone, Debug)]
pub enum Span { S(String), B(Binder) }
#[derive(Clone, Debug)]
pub enum Attr { Static(String), Bound(Vec<Span>), Flag(Binder) }
#[derive(Clone, Debug)]
pub enum Node { Text(Vec<Span>), El(El) }
#[derive(Clone, Debug)]
pub struct El {
    uid: usize, tag: String, attrs: Vec<(String, Attr)>, cond: Option<(bool, Binder)>,
    repeat: Option<(String, usize, Binder)>, alias: Vec<(String, Binder)>, template: bool, kids: Vec<Node>,
}
pub struct Case { html: String, body: Vec<Node>, schema: Ty, history: Vec<Value>, seed: u64 }
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        writeln!(f, "html: {}", self.html)?;
        for (i, v) in self.history.iter().enumerate() { writeln!(f, "update {}: {}", i + 1, v)?; }
        Ok(())
    }
}

struct Gen<'a> { r: &'a mut Rng, kind: Kind, uid: usize, budget: isize, extra: Vec<Node>, reserved: BTreeSet<String> }
type Env = Vec<(String, Ty)>;
const ANY: &str = "\u{1}";
fn position(w: &str) -> bool { w.parse::<usize>().is_ok() }

const NAMES: [&str; 6] = ["f0", "f1", "f2", "f3", "item", "row"];

impl Gen<'_> {
    fn ty(&mut self, depth: usize) -> Ty {
        let lists = if self.kind == Kind::Ids { 0 } else if self.kind == Kind::Order { 45 } else { 35 };
        if depth == 0 { return if self.r.chance(25) { Ty::Num } else { Ty::Leaf }; }
        if self.r.chance(lists) { return Ty::List(1 + self.r.below(3), Box::new(self.ty(depth - 1))); }
        if self.r.chance(35) {
            let n = 1 + self.r.below(2);
            let mut fields = vec![("k".to_string(), Ty::Leaf)];
            for i in 0..n { fields.push((NAMES[(i + self.r.below(2)) % 4].to_string(), self.ty(depth - 1))); }
            fields.dedup_by(|a, b| a.0 == b.0);
            let mut seen = BTreeSet::new();
            fields.retain(|f| seen.insert(f.0.clone()));
            return Ty::Obj(fields);
        }
        if self.r.chance(25) { Ty::Num } else { Ty::Leaf }
    }
    /// every path in scope together with its type; names resolve innermost first
    fn paths(&self, env: &Env) -> Vec<(Vec<String>, Ty)> { self.places(env, false) }
    /// also those of items of lists, by position
    fn places(&self, env: &Env, positions: bool) -> Vec<(Vec<String>, Ty)> {
        fn go(path: Vec<String>, ty: &Ty, positions: bool, out: &mut Vec<(Vec<String>, Ty)>) {
            out.push((path.clone(), ty.clone()));
            if let (Ty::List(cap, t), true) = (ty, positions) {
                for n in 0..*cap { let mut p = path.clone(); p.push(n.to_string()); go(p, t, positions, out); }
            }
            if let Ty::Obj(fields) = ty {
                for (n, t) in fields { let mut p = path.clone(); p.push(n.clone()); go(p, t, positions, out); }
            }
        }
        let mut out = vec![];
        let mut seen = BTreeSet::new();
        for (n, t) in env.iter().rev() { if seen.insert(n.clone()) { go(vec![n.clone()], t, positions, &mut out); } }
        out
    }
    fn choose(&mut self, env: &Env, ok: impl Fn(&Ty) -> bool) -> Option<(Vec<String>, Ty)> {
        let c: Vec<_> = self.paths(env).into_iter().filter(|(_, t)| ok(t)).collect();
        if c.is_empty() { None } else { Some(self.r.pick(&c).clone()) }
    }
    fn leaf(&mut self, env: &Env) -> Option<Binder> {
        let (mut path, _) = self.choose(env, |t| matches!(t, Ty::Leaf | Ty::Num))?;
        if self.kind == Kind::Converge && self.r.chance(10) {
            let c: Vec<_> = self.places(env, true).into_iter().filter(|(p, t)| matches!(t, Ty::Leaf | Ty::Num) && p.iter().any(|w| position(w))).collect();
            if !c.is_empty() { path = self.r.pick(&c).0.clone(); }
        }
        let mut pipe = vec![];
        if self.r.chance(15) { pipe.push(self.r.pick(&["up", "wrap", "json"]).to_string()); if self.r.chance(40) { pipe.push(self.r.pick(&["up", "json"]).to_string()); } }
        Some(Binder { path, pipe })
    }
    fn spans(&mut self, env: &Env, attribute: bool) -> Vec<Span> {
        let n = 1 + self.r.below(if self.kind == Kind::Spans { 4 } else { 2 });
        let mut out: Vec<Span> = vec![];
        for _ in 0..n {
            let last_static = matches!(out.last(), Some(Span::S(_)));
            if !last_static && self.r.chance(40) {
                out.push(Span::S(self.r.pick(&["x", "yy", "p-", "q"]).to_string()));
            } else if let Some(b) = self.leaf(env) { out.push(Span::B(b)); }
        }
        if out.is_empty() || (attribute && out.len() == 1 && matches!(out[0], Span::S(_))) {
            match self.leaf(env) { Some(b) => out.push(Span::B(b)), None => if out.is_empty() { out.push(Span::S("z".into())) } }
        }
        out
    }
    fn el(&mut self, env: &Env, depth: usize) -> El {
        self.uid += 1;
        self.budget -= 1;
        let uid = self.uid;
        let mut e = El { uid, tag: self.r.pick(&["div", "p", "span"]).to_string(), attrs: vec![("u".into(), Attr::Static(uid.to_string()))],
            cond: None, repeat: None, alias: vec![], template: false, kids: vec![] };
        let mut env = env.clone();
        if self.kind != Kind::Ids && self.r.chance(if self.kind == Kind::Scope { 45 } else { 12 }) {
            for _ in 0..1 + self.r.below(2) {
                if let Some((path, t)) = self.choose(&env, |_| true) {
                    let name = self.r.pick(&NAMES).to_string();
                    e.alias.push((name.clone(), Binder { path, pipe: vec![] }));
                    env.push((name, t));
                }
            }
        }
        let (pc, pr) = match self.kind { Kind::Order => (35, 35), Kind::Ids => (20, 0), Kind::Scope => (5, 40), _ => (22, 25) };
        if self.r.chance(pr) {
            if let Some((path, Ty::List(cap, t))) = self.choose(&env, |t| matches!(t, Ty::List(..))) {
                let var = if self.r.chance(25) { path[0].clone() } else { self.r.pick(&NAMES).to_string() };
                let count = if self.r.chance(70) { cap } else { 1 + self.r.below(4) };
                e.repeat = Some((var.clone(), count, Binder { path, pipe: vec![] }));
                env.push((var, *t));
            }
        }
        if e.repeat.is_none() && self.r.chance(pc) {
            if self.r.chance(15) {
                // condition on an object: read an always present field of it somewhere (see known findings)
                if let Some((path, _)) = self.choose(&env, |t| matches!(t, Ty::Obj(_))) {
                    let mut p = path.clone();
                    p.push("k".into());
                    e.kids.push(Node::Text(vec![Span::B(Binder { path: p, pipe: vec![] })]));
                    e.cond = Some((self.r.chance(60), Binder { path, pipe: vec![] }));
                }
            } else if let Some((path, t)) = self.choose(&env, |t| matches!(t, Ty::Leaf | Ty::Num | Ty::List(..))) {
                let pipe = if matches!(t, Ty::List(..)) || self.r.chance(80) { vec![] } else { vec!["up".into()] };
                e.cond = Some((self.r.chance(60), Binder { path, pipe }));
            }
        }
        if self.kind == Kind::Ids {
            if self.r.chance(70) {
                if self.r.chance(60) {
                    let c: Vec<_> = self.paths(&env).into_iter().filter(|(p, t)| p.len() == 1 && matches!(t, Ty::Leaf) && !self.reserved.contains(&p[0])).collect();
                    if !c.is_empty() {
                        let (path, _) = self.r.pick(&c).clone();
                        self.reserved.insert(path[0].clone());
                        let mut spans = vec![Span::B(Binder { path, pipe: vec![] })];
                        if self.r.chance(20) { spans.insert(0, Span::S("i-".into())); }
                        e.attrs.push(("id".into(), Attr::Bound(spans)));
                    }
                } else { e.attrs.push(("id".into(), Attr::Static(if self.r.chance(40) { self.r.pick(&["a", "b", "c"]).to_string() } else { format!("s{uid}") }))); }
            }
        } else {
            for _ in 0..self.r.below(3) {
                let key = self.r.pick(&["class", "data-a", "title", "id"]).to_string();
                if e.attrs.iter().any(|(k, _)| *k == key) { continue; }
                let a = match self.r.below(4) {
                    0 => Attr::Static("st".into()),
                    1 if key != "class" && key != "id" => match self.leaf(&env) { Some(b) if b.path.iter().any(|w| position(w)) => continue, Some(mut b) => { b.pipe.retain(|p| p == "up"); Attr::Flag(b) }, None => continue },
                    _ => { let s = self.spans(&env, true); if s.iter().all(|s| matches!(s, Span::S(_))) { continue } Attr::Bound(s) }
                };
                // the same attribute may also be written with a fixed value
                if matches!(a, Attr::Flag(_)) && self.r.chance(25) { e.attrs.push((key.clone(), Attr::Static("fixed".into()))); }
                e.attrs.push((key, a));
            }
            if self.kind == Kind::Spans && self.r.chance(40) {
                if let Some((path, _)) = self.choose(&env, |t| matches!(t, Ty::Num)) {
                    let b = Binder { path, pipe: vec![] };
                    let mut s = vec![Span::S("width: ".into()), Span::B(b.clone()), Span::S("px;".into())];
                    if self.r.chance(50) { s.extend([Span::S(" height: ".into()), Span::B(b), Span::S("px;".into())]); merge(&mut s); }
                    e.attrs.push(("style".into(), Attr::Bound(s)));
                }
            }
        }
        // images show the source, other elements only have the attribute
        if self.kind != Kind::Ids && self.r.chance(if self.kind == Kind::Spans { 25 } else { 8 }) {
            let image = e.kids.is_empty() && self.r.chance(75);
            if image { e.tag = "img".into(); }
            if self.r.chance(85) { let s = self.spans(&env, true); e.attrs.push(("src".into(), if s.iter().all(|s| matches!(s, Span::S(_))) { Attr::Static("a.png".into()) } else { Attr::Bound(s) })); }
        }
        if e.tag != "img" && depth > 0 && self.budget > 0 { let k = self.nodes(&env, depth - 1, 1 + 3 * (self.kind == Kind::Order) as usize); e.kids.extend(k); join_texts(&mut e.kids); }
        e.template = self.r.chance(if self.kind == Kind::Scope { 30 } else { 8 });
        e
    }
    fn nodes(&mut self, env: &Env, depth: usize, min: usize) -> Vec<Node> {
        let n = min + self.r.below(3);
        let mut out = vec![];
        for _ in 0..n {
            let text = matches!(self.kind, Kind::Spans | Kind::Converge | Kind::Scope | Kind::Arbitrary);
            if self.r.chance(if text { 40 } else { 10 }) {
                if !matches!(out.last(), Some(Node::Text(_))) { out.push(Node::Text(self.spans(env, false))); }
            } else if self.budget > 0 { out.push(Node::El(self.el(env, depth))); }
        }
        out
    }
}
fn merge(s: &mut Vec<Span>) {
    let mut out: Vec<Span> = vec![];
    for x in s.drain(..) {
        match (out.last_mut(), x) { (Some(Span::S(a)), Span::S(b)) => a.push_str(&b), (_, x) => out.push(x) }
    }
    *s = out;
}
fn join_texts(k: &mut Vec<Node>) {
    let mut out: Vec<Node> = vec![];
    for x in k.drain(..) {
        match (out.last_mut(), x) { (Some(Node::Text(a)), Node::Text(b)) => { a.extend(b); merge(a); } (_, x) => out.push(x) }
    }
    *k = out;
}

pub fn value_of(r: &mut Rng, ty: &Ty) -> Value {
    match ty {
        Ty::Leaf => if r.chance(20) { Value::Null } else { any_json(r, 2) },
        Ty::Num => if r.chance(10) { Value::Null } else { json!(r.range(0, 60)) },
        Ty::Obj(fields) => {
            if r.chance(12) { return Value::Null; }
            let mut m = Map::new();
            for (n, t) in fields { if n == "k" && r.chance(70) { m.insert(n.clone(), json!(r.range(1, 3))); } else if r.chance(88) { m.insert(n.clone(), value_of(r, t)); } }
            if r.chance(10) { m.insert("unknown".into(), json!(1)); }
            Value::Object(m)
        }
        Ty::List(cap, t) => {
            if r.chance(10) { return Value::Null; }
            let n = if r.chance(30) { *cap } else { r.below(cap + 3) };
            Value::Array((0..n).map(|_| value_of(r, t)).collect())
        }
    }
}
/// a value equal to the previous one except in a few places
fn mutate(r: &mut Rng, ty: &Ty, v: &Value) -> Value {
    if r.chance(18) { return value_of(r, ty); }
    match (ty, v) {
        (Ty::Obj(fields), Value::Object(m)) => {
            let mut m = m.clone();
            for (n, t) in fields {
                if n != "k" && r.chance(45) { let x = mutate(r, t, m.get(n).unwrap_or(&Value::Null)); m.insert(n.clone(), x); }
            }
            Value::Object(m)
        }
        (Ty::List(cap, t), Value::Array(a)) => {
            let mut a = a.clone();
            match r.below(4) {
                0 => { a.pop(); }
                1 if a.len() < cap + 2 => { let x = value_of(r, t); a.push(x); }
                2 if !a.is_empty() => { a.remove(0); }
                _ => {}
            }
            for x in a.iter_mut() { if r.chance(35) { *x = mutate(r, t, x); } }
            Value::Array(a)
        }
        _ => if r.chance(40) { value_of(r, ty) } else { v.clone() },
    }
}

fn p_binder(b: &Binder) -> String {
    let mut s = b.path.join(".");
    for p in &b.pipe { s += &format!(" | {p}"); }
    format!("{{{s}}}")
}
fn placeholder(b: &Binder) -> String {
    let mut s = b.path.join(".");
    for p in &b.pipe { s += &format!(" | {p}"); }
    format!("{{ {s} }}")
}
fn p_spans(s: &[Span]) -> String {
    s.iter().map(|s| match s { Span::S(s) => s.clone(), Span::B(b) => p_binder(b) }).collect()
}
fn p_node(n: &Node, templates: &mut String) -> String {
    match n {
        Node::Text(s) => p_spans(s),
        Node::El(e) => {
            let mut outer = String::new();
            for (n, b) in &e.alias { outer += &format!(" +{n}=\"{}\"", p_binder(b)); }
            if let Some((v, b)) = &e.cond { outer += &format!(" {}=\"{}\"", if *v { "?" } else { "!" }, p_binder(b)); }
            if let Some((n, c, b)) = &e.repeat { outer += &format!(" *{n}=\"{c} {}\"", p_binder(b)); }
            let mut inner = String::new();
            for (k, a) in &e.attrs {
                inner += &match a {
                    Attr::Static(v) => format!(" {k}=\"{v}\""),
                    Attr::Bound(s) => format!(" @{k}=\"{}\"", p_spans(s)),
                    Attr::Flag(b) => format!(" #{k}=\"{}\"", p_binder(b)),
                };
            }
            if e.tag == "img" {
                return if e.template {
                    templates.push_str(&format!("<template id=\"t{}\"><img{inner}/></template>", e.uid));
                    format!("<link href=\"#t{}\"{outer}/>", e.uid)
                } else { format!("<img{outer}{inner}/>") };
            }
            let kids: String = e.kids.iter().map(|k| p_node(k, templates)).collect();
            if e.template {
                templates.push_str(&format!("<template id=\"t{}\"><{}{inner}>{kids}</{}></template>", e.uid, e.tag, e.tag));
                format!("<link href=\"#t{}\"{outer}/>", e.uid)
            } else { format!("<{}{outer}{inner}>{kids}</{}>", e.tag, e.tag) }
        }
    }
}

/// what may be displayed for a bound place
type Alts = Vec<String>;
#[derive(Debug)]
pub enum Exp { Text(Vec<Alts>), El { uid: usize, tag: String, attrs: BTreeMap<String, Vec<Alts>>, maybe: BTreeSet<String>, kids: Vec<Exp> } }

pub struct Interp<'a> { data: &'a Value, seen: &'a BTreeSet<String>, lenient: bool }
type Scope = Vec<(String, Vec<String>)>;
impl Interp<'_> {
    fn resolve(&self, scope: &Scope, b: &Binder) -> Vec<String> {
        let mut p = match scope.iter().rev().find(|(n, _)| *n == b.path[0]) { Some((_, p)) => p.clone(), None => vec![b.path[0].clone()] };
        p.extend(b.path[1..].iter().cloned());
        p
    }
    fn get(&self, path: &[String]) -> Value {
        let mut v = self.data;
        for t in path {
            v = match v { Value::Object(m) => m.get(t).unwrap_or(&Value::Null), Value::Array(a) => t.parse::<usize>().ok().and_then(|i| a.get(i)).unwrap_or(&Value::Null), _ => &Value::Null };
        }
        v.clone()
    }
    fn piped(&self, scope: &Scope, b: &Binder) -> (Value, Vec<String>) {
        let path = self.resolve(scope, b);
        let mut v = self.get(&path);
        for p in &b.pipe { v = PIPES.iter().find(|x| x.0 == p).unwrap().1(v); }
        (v, path)
    }
    fn alts(&self, scope: &Scope, spans: &[Span]) -> Vec<Alts> {
        spans.iter().map(|s| match s {
            Span::S(s) => vec![s.clone()],
            Span::B(b) => {
                let (v, path) = self.piped(scope, b);
                let mut a = vec![conv_text(&v)];
                if self.get(&path).is_null() && (self.lenient || !self.seen.contains(&path.join("/"))) { a.push(placeholder(b)); }
                // a position beyond the end of its list: anything may be left there
                if b.path.iter().any(|w| position(w)) && self.get(&path).is_null() { a.push(ANY.into()); }
                a
            }
        }).collect()
    }
    pub fn nodes(&self, nodes: &[Node], scope: &Scope, out: &mut Vec<Exp>) {
        for n in nodes {
            match n {
                Node::Text(s) => out.push(Exp::Text(self.alts(scope, s))),
                Node::El(e) => {
                    let mut scope = scope.clone();
                    for (n, b) in &e.alias { let p = self.resolve(&scope, b); scope.push((n.clone(), p)); }
                    if let Some((polarity, b)) = &e.cond {
                        if conv_truth(&self.piped(&scope, b).0) != *polarity { continue; }
                        out.push(self.el(e, &scope));
                    } else if let Some((var, cap, b)) = &e.repeat {
                        let path = self.resolve(&scope, b);
                        let n = self.get(&path).as_array().map_or(0, |a| a.len()).min(*cap);
                        for i in 0..n {
                            let mut p = path.clone();
                            p.push(i.to_string());
                            let mut scope = scope.clone();
                            scope.push((var.clone(), p));
                            out.push(self.el(e, &scope));
                        }
                    } else { out.push(self.el(e, &scope)); }
                }
            }
        }
    }
    fn el(&self, e: &El, scope: &Scope) -> Exp {
        let (mut attrs, mut maybe) = (BTreeMap::new(), BTreeSet::new());
        for (k, a) in &e.attrs {
            match a {
                Attr::Static(v) => { attrs.insert(k.clone(), vec![vec![v.clone()]]); }
                Attr::Bound(s) => { attrs.insert(k.clone(), self.alts(scope, s)); }
                Attr::Flag(b) => {
                    let (v, path) = self.piped(scope, b);
                    let received = self.seen.contains(&path.join("/"));
                    if conv_truth(&v) { attrs.insert(k.clone(), vec![vec![k.clone()]]); }
                    else if received && !self.lenient { attrs.remove(k); }
                    else { maybe.insert(k.clone()); }
                }
            }
        }
        let mut kids = vec![];
        self.nodes(&e.kids, scope, &mut kids);
        Exp::El { uid: e.uid, tag: e.tag.clone(), attrs, maybe, kids }
    }
}
fn fits(actual: &str, alts: &[Alts]) -> bool {
    match alts.split_first() {
        None => actual.is_empty(),
        Some((a, _)) if a.iter().any(|x| x == ANY) => true,
        Some((a, rest)) => a.iter().any(|x| actual.strip_prefix(x.as_str()).map_or(false, |t| fits(t, rest))),
    }
}
fn describe(f: &Fragment) -> String {
    match &f.element.text { Some(t) => format!("text {:?}", t.to_string()), None => format!("<{} u={:?}>", f.element.tag, f.element.attrs.get("u")) }
}
fn compare(parent: Fragment, exp: &[Exp], n: &mut usize) -> Result<(), String> {
    let kids = parent.children();
    let here = || format!("children of {}: shown {:?}, expected {:?}", describe(&parent), kids.iter().map(describe).collect::<Vec<_>>(),
        exp.iter().map(|e| match e { Exp::Text(a) => format!("text {a:?}"), Exp::El { uid, tag, .. } => format!("<{tag} u={uid}>") }).collect::<Vec<_>>());
    if kids.len() != exp.len() { return Err(here()); }
    let nodes: BTreeSet<u64> = kids.iter().map(|k| u64::from(k.element.node)).collect();
    if nodes.len() != kids.len() { return Err(format!("duplicated child: {}", here())); }
    // document order of definitions
    let order: Vec<_> = kids.iter().map(|k| parent.element.children.iter().position(|c| *c == k.element.node)).collect();
    if order.iter().any(|o| o.is_none()) || order.windows(2).any(|w| w[0] >= w[1]) { return Err(format!("document order: {}", here())); }
    for (k, e) in kids.iter().zip(exp) {
        *n += 1;
        match (e, &k.element.text) {
            (Exp::Text(a), Some(t)) => if !fits(&t.to_string(), a) { return Err(format!("text shows {:?}, expected one of {a:?}", t.to_string())); },
            (Exp::El { uid, tag, attrs, maybe, kids }, None) => {
                if k.element.tag != *tag || k.element.attrs.get("u") != Some(&uid.to_string()) { return Err(here()); }
                for (key, a) in attrs {
                    match k.element.attrs.get(key) {
                        Some(v) if fits(v, a) => {}
                        None if maybe.contains(key) => {}
                        v => return Err(format!("attribute {key} of <{tag} u={uid}> is {v:?}, expected {a:?}")),
                    }
                }
                for key in k.element.attrs.keys() { if !attrs.contains_key(key) { return Err(format!("attribute {key} of <{tag} u={uid}> must be absent")); } }
                if let Some(style) = k.element.attrs.get("style") { check_style(&k, style)?; }
                if tag == "img" { check_image(&k)?; continue; }
                if k.element.backgrounds.iter().any(|b| b.is_src || b.image.is_some()) { return Err(format!("<{tag} u={uid}> shows an image")); }
                compare(*k, kids, n)?;
            }
            _ => return Err(here()),
        }
    }
    Ok(())
}
/// an image has one child, that shows the source of its src attribute
fn check_image(f: &Fragment) -> Result<(), String> {
    let kids = f.children();
    let src = f.element.attrs.get("src").cloned().unwrap_or_default();
    match kids.as_slice() {
        [c] if c.element.tag.is_empty() && c.element.text.is_none() && c.element.backgrounds.len() == 1 && c.element.backgrounds[0].is_src && c.element.backgrounds[0].image.as_ref() == Some(&src) => Ok(()),
        [c] => Err(format!("<img u={:?}> with src {src:?} shows {:?}", f.element.attrs.get("u"), c.element.backgrounds.iter().map(|b| (b.is_src, b.image.clone())).collect::<Vec<_>>())),
        _ => Err(format!("<img u={:?}> has {} children", f.element.attrs.get("u"), kids.len())),
    }
}
/// `width: Npx;[ height: Npx;]` bound as inline style must be what is laid out
fn check_style(f: &Fragment, style: &str) -> Result<(), String> {
    let mut want = (None, None);
    for d in style.split(';').map(str::trim).filter(|d| !d.is_empty()) {
        let Some((k, v)) = d.split_once(": ") else { return Ok(()) };
        let Some(v) = v.strip_suffix("px").and_then(|v| v.parse::<f32>().ok()) else { return Ok(()) };
        match k { "width" => want.0 = Some(v), "height" => want.1 = Some(v), _ => return Ok(()) }
    }
    let s = f.tree.style(f.element.node).map_err(|e| format!("{e:?}"))?;
    let dim = |v: Option<f32>| v.map_or(taffy::Dimension::Auto, taffy::Dimension::Length);
    if s.size.width != dim(want.0) || s.size.height != dim(want.1) { return Err(format!("inline style {style:?} not in effect: {:?}", s.size)); }
    Ok(())
}

/// pointers that hold a non-null value
fn non_null(v: &Value, path: &str, out: &mut BTreeSet<String>) {
    if v.is_null() { return; }
    out.insert(path.to_string());
    match v {
        Value::Object(m) => for (k, v) in m { non_null(v, &if path.is_empty() { k.clone() } else { format!("{path}/{k}") }, out) },
        Value::Array(a) => for (k, v) in a.iter().enumerate() { non_null(v, &format!("{path}/{k}"), out) },
        _ => {}
    }
}

impl Prop for Data {
    type Case = Case;
    fn gen(&self, r: &mut Rng, size: usize) -> Case {
        let seed = r.next();
        let mut g = Gen { r, kind: self.kind, uid: 0, budget: 2 + size as isize, extra: vec![], reserved: Default::default() };
        let fields: Vec<(String, Ty)> = NAMES[..4].iter().map(|n| (n.to_string(), if self.kind == Kind::Ids { Ty::Leaf } else { g.ty(2) })).collect();
        let schema = Ty::Obj(fields.clone());
        let mut body = g.nodes(&fields, 1 + size / 4, 1);
        body.extend(g.extra.drain(..));
        join_texts(&mut body);
        if body.is_empty() { body.push(Node::Text(vec![Span::S("x".into())])); }
        let mut templates = String::new();
        let inner: String = body.iter().map(|n| p_node(n, &mut templates)).collect();
        let html = format!("<html>{templates}<body>{inner}</body></html>");
        let mut history = vec![];
        let n = 2 + g.r.below(2 + size / 2);
        for i in 0..n {
            let v = if self.kind == Kind::Arbitrary && i + 1 < n && g.r.chance(60) {
                // wrong kinds at the top level or somewhere below
                if g.r.chance(30) { any_json(g.r, 3) } else {
                    let mut m = Map::new();
                    for f in NAMES { let x = if g.r.chance(60) { any_json(g.r, 3) } else { Value::Null }; m.insert(f.into(), x); }
                    Value::Object(m)
                }
            } else if self.kind == Kind::Ids {
                // ids permuted, shared or replaced between updates
                let mut pool: Vec<&str> = vec!["a", "b", "c", "d", "e", "g"];
                let mut m = Map::new();
                for (f, _) in &fields {
                    let k = g.r.below(pool.len());
                    m.insert(f.clone(), if g.r.chance(12) { json!("") } else if i > 0 && g.r.chance(10) { Value::Null } else { json!(if g.r.chance(70) { pool.remove(k) } else { pool[k] }) });
                }
                Value::Object(m)
            } else {
                match history.last() { Some(p) if self.kind != Kind::Arbitrary && g.r.chance(65) => mutate(g.r, &schema, p), _ => value_of(g.r, &schema) }
            };
            history.push(v);
        }
        for v in history.iter_mut() { if self.kind != Kind::Arbitrary && v.is_null() { *v = json!({}); } }
        Case { html, body, schema, history, seed }
    }
    fn check(&self, c: &Case) -> Result<usize, String> {
        let mut v = view(&c.html, "")?;
        let mut seen = BTreeSet::new();
        let mut n = 0;
        let mut ever_ids: BTreeSet<String> = BTreeSet::new();
        for (i, value) in c.history.iter().enumerate() {
            update(&mut v, Input::new(), value).map_err(|e| format!("update {}: {e}", i + 1))?;
            non_null(value, "", &mut seen);
            if self.kind == Kind::Arbitrary && i + 1 < c.history.len() { continue; }
            let interp = Interp { data: value, seen: &seen, lenient: self.kind == Kind::Arbitrary };
            let mut exp = vec![];
            interp.nodes(&c.body, &vec![], &mut exp);
            compare(v.body(), &exp, &mut n).map_err(|e| format!("after update {}: {e}", i + 1))?;
            if self.kind == Kind::Ids { check_ids(&v, c, value, &mut ever_ids, &mut n).map_err(|e| format!("after update {}: {e}", i + 1))?; }
        }
        if self.kind == Kind::Converge { n += model_level(c)?; }
        Ok(n)
    }
}
fn check_ids(v: &View, c: &Case, value: &Value, ever: &mut BTreeSet<String>, n: &mut usize) -> Result<(), String> {
    let mut now: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    fn go(nodes: &[Node], value: &Value, now: &mut BTreeMap<String, Vec<usize>>) {
        for node in nodes {
            if let Node::El(e) = node {
                for (k, a) in &e.attrs {
                    if k == "id" {
                        match a {
                            Attr::Static(s) => { now.entry(s.clone()).or_default().push(e.uid); }
                            Attr::Bound(s) => {
                                let id: String = s.iter().map(|s| match s { Span::S(t) => t.clone(), Span::B(b) => value.get(&b.path[0]).map_or(String::new(), conv_text) }).collect();
                                now.entry(id).or_default().push(e.uid);
                            }
                            _ => {}
                        }
                    }
                }
                go(&e.kids, value, now);
            }
        }
    }
    go(&c.body, value, &mut now);
    for (id, uids) in &now {
        // of several elements with one id any may be found
        let [uid] = uids[..] else { continue };
        *n += 1;
        match v.get_element_by_id(id) {
            Some(e) if e.attrs.get("u") == Some(&uid.to_string()) && e.attrs.get("id") == Some(id) => {}
            other => return Err(format!("id {id:?} must be element u={uid}, found {:?}", other.map(|e| e.attrs.clone()))),
        }
    }
    for id in ["a", "b", "c", "d", "e", "g", "", "i-", "i-a", "i-b", "i-c", "never"] {
        if !now.contains_key(id) && v.get_element_by_id(id).is_some() { return Err(format!("id {id:?} is borne by no element but was found")); }
    }
    ever.extend(now.into_keys());
    Ok(())
}

/// the data model alone: reactions bring every path up to date, and none are produced for unchanged data
fn model_level(c: &Case) -> Result<usize, String> {
    let _ = c.seed;
    fn template(t: &Ty) -> Value {
        match t { Ty::Leaf | Ty::Num => Value::Null, Ty::Obj(f) => Value::Object(f.iter().map(|(n, t)| (n.clone(), template(t))).collect()),
            Ty::List(cap, t) => Value::Array((0..*cap).map(|_| template(t)).collect()) }
    }
    fn paths(t: &Ty, p: String, out: &mut Vec<(String, Option<usize>)>) {
        match t {
            Ty::Leaf | Ty::Num => out.push((p, None)),
            Ty::Obj(f) => for (n, t) in f { paths(t, format!("{p}/{n}"), out) },
            Ty::List(cap, t) => { out.push((p.clone(), Some(*cap))); for i in 0..*cap { paths(t, format!("{p}/{i}"), out) } }
        }
    }
    let mut all = vec![];
    paths(&c.schema, String::new(), &mut all);
    let mut bindings: Bindings = Default::default();
    for (i, (p, cap)) in all.iter().enumerate() {
        let node = taffy::NodeId::new(i as u64);
        let params = match cap { None => BindingParams::Text(node, 0), Some(cap) => BindingParams::Repeat(node, 0, *cap) };
        bindings.entry(p.clone()).or_default().push(Binding { params, pipe: vec![] });
    }
    let mut m = ViewModel::create(bindings, template(&c.schema));
    let mut text: Vec<Option<String>> = vec![None; all.len()];
    let mut len = vec![0usize; all.len()];
    for (k, value) in c.history.iter().enumerate() {
        for r in m.bind(value) {
            match r {
                Reaction::Type { node, span: 0, text: t } => text[u64::from(node) as usize] = Some(t),
                Reaction::Repeat { parent, start: 0, cursor, end } => {
                    let i = u64::from(parent) as usize;
                    if Some(end) != all[i].1 { return Err(format!("update {}: list window {end} at {}", k + 1, all[i].0)); }
                    len[i] = cursor
                }
                other => return Err(format!("unexpected reaction {other:?}")),
            }
        }
        let again = m.bind(value);
        if !again.is_empty() { return Err(format!("update {}: unchanged data causes reactions {again:?}", k + 1)); }
        for (i, (p, cap)) in all.iter().enumerate() {
            // a place inside an item that is not shown holds nothing to compare
            let mut shown = true;
            let mut v = value;
            for t in p.split('/').skip(1) {
                v = match v { Value::Object(o) => o.get(t).unwrap_or(&Value::Null),
                    Value::Array(a) => match t.parse::<usize>().ok().and_then(|i| a.get(i)) { Some(v) => v, None => { shown = false; break } },
                    _ => { if t.parse::<usize>().is_ok() { shown = false; break } &Value::Null } };
            }
            if !shown { continue; }
            match cap {
                Some(cap) => { let want = v.as_array().map_or(0, |a| a.len()).min(*cap); if len[i] != want { return Err(format!("update {}: list {p} shows {} items, expected {want}", k + 1, len[i])); } }
                None => { let want = conv_text(v); if text[i].clone().unwrap_or_default() != want { return Err(format!("update {}: {p} shows {:?}, expected {want:?}", k + 1, text[i])); } }
            }
        }
    }
    Ok(all.len())
}
