#![allow(dead_code, unused_imports)]
use bumaga::*;
use serde_json::{json, Value};
use std::time::Duration;

struct F;
impl Fonts for F {
    fn measure(&self, t: &str, f: &FontFace, _: Option<f32>) -> [f32; 2] {
        [t.chars().count() as f32 * f.size, f.size]
    }
}
struct T;
impl RendererTranslator for T {
    fn translate(&self, s: String) -> String {
        s
    }
}
fn view(html: &str, css: &str) -> View {
    View::from_html(html, css, ".", F, Box::new(T)).expect("valid view")
}
fn by_id<'a>(v: &'a View, id: &str) -> &'a Element {
    v.get_element_by_id(id).expect("element")
}
fn ids(v: &View) -> Vec<String> {
    v.body().children().iter().map(|c| c.attrs.get("id").cloned().unwrap_or_default()).collect()
}
fn sec(s: f32) -> Input {
    Input::new().time(Duration::from_secs_f32(s))
}
use bumaga::InputEvent::*;

