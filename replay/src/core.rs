//! Shared parts: random source, case runner, view helpers.
use bumaga::*;
use serde_json::{json, Value};
use std::fmt::Debug;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, index: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ index.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn unit(&mut self) -> f32 {
        (self.next() >> 40) as f32 / (1u64 << 24) as f32
    }
}

/// One executable contract: generates a case from (seed, index) and checks the real code on it.
pub trait Prop {
    type Case: Debug;
    fn gen(&self, rng: &mut Rng, size: usize) -> Self::Case;
    /// Ok(weight): how many non-trivial observations were compared
    fn check(&self, case: &Self::Case) -> Result<usize, String>;
}

pub struct F;
impl Fonts for F {
    fn measure(&self, t: &str, f: &FontFace, _: Option<f32>) -> [f32; 2] {
        [t.chars().count() as f32 * f.size, f.size]
    }
}
pub struct T;
impl RendererTranslator for T {
    fn translate(&self, s: String) -> String {
        s
    }
}
pub fn t_up(v: Value) -> Value {
    Value::String(v.eval_string().to_uppercase())
}
pub fn t_wrap(v: Value) -> Value {
    match v {
        Value::Null => Value::Null,
        v => json!({ "w": v }),
    }
}
pub fn t_json(v: Value) -> Value {
    match v {
        Value::Null => Value::Null,
        v => Value::String(format!("<{v}>")),
    }
}
pub const PIPES: [(&str, fn(Value) -> Value); 3] = [("up", t_up), ("wrap", t_wrap), ("json", t_json)];

pub fn view(h: &str, c: &str) -> Result<View, String> {
    let mut v = View::from_html(h, c, ".", F, Box::new(T)).map_err(|e| format!("from_html failed: {e:?}"))?;
    for (n, f) in PIPES {
        v = v.pipe(n, f);
    }
    Ok(v)
}
pub fn update(v: &mut View, input: Input, value: &Value) -> Result<Output, String> {
    v.update(input, value.clone()).map_err(|e| format!("update failed: {e:?}"))
}

pub fn conv_text(v: &Value) -> String {
    match v {
        Value::Null => String::new(),
        Value::Bool(b) => if *b { "true".into() } else { "false".into() },
        Value::Number(n) => serde_json::to_string(n).unwrap(),
        Value::String(s) => s.clone(),
        Value::Array(_) => "[array]".into(),
        Value::Object(_) => "{object}".into(),
    }
}
pub fn conv_truth(v: &Value) -> bool {
    match v {
        Value::Null => false,
        Value::Bool(b) => *b,
        Value::Number(n) => n.as_f64().map_or(false, |x| x != 0.0),
        Value::String(s) => !s.is_empty(),
        Value::Array(a) => !a.is_empty(),
        Value::Object(_) => true,
    }
}

pub fn any_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => json!(r.chance(50)),
        2 => json!(r.range(-3, 3)),
        3 => match r.below(4) { 0 => json!(0.0), 1 => json!(-2.25), 2 => json!(1e300), _ => json!(0.5) },
        4 | 5 => json!(*r.pick(&["", "a", "b", "hello", "0", "true"])),
        6 => Value::Array((0..r.below(4)).map(|_| any_json(r, depth - 1)).collect()),
        _ => {
            let mut m = serde_json::Map::new();
            for _ in 0..r.below(4) {
                m.insert(r.pick(&["name", "a", "f0", "f1", "f2", "x"]).to_string(), any_json(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// all shown elements below (and including) the fragment, pre-order
pub fn walk<'t>(f: Fragment<'t>, out: &mut Vec<Fragment<'t>>) {
    out.push(f);
    if let Ok(children) = f.tree.children(f.element.node) {
        for c in children {
            if let Some(element) = f.tree.get_node_context(c) {
                walk(Fragment { element, tree: f.tree }, out);
            }
        }
    }
}
pub fn shown<'t>(v: &'t View) -> Vec<Fragment<'t>> {
    let mut out = vec![];
    walk(v.body(), &mut out);
    out
}

pub fn esc(s: &str) -> String {
    s.to_string()
}
