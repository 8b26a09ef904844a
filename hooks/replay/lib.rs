pub use crate::view::verif::scroll;

/// What the readers read, in a neutral form (enabled on its own: these name more of the crate's private types).
#[cfg(bumaga_verif_readers)]
pub mod readers {
    use crate::css::{ComputedValue, Declaration, Definition, Matcher, PropertyKey, Simple, Units};
    use crate::html::{CallbackArgument, ElementBinding, Html, TextBinding, TextSpan};
    use crate::Binder;
    use serde_json::{json, Value};

    fn binder(b: &Binder) -> Value { json!({"path": b.path, "pipe": b.pipe}) }
    fn text(t: &TextBinding) -> Value {
        Value::Array(t.spans.iter().map(|s| match s { TextSpan::String(s) => json!(s), TextSpan::Binder(b) => binder(b) }).collect())
    }
    fn binding(b: &ElementBinding) -> Value {
        match b {
            ElementBinding::None(k, v) => json!(["static", k, v]),
            ElementBinding::Alias(k, b) => json!(["alias", k, binder(b)]),
            ElementBinding::Tag(k, b) => json!(["tag", k, binder(b)]),
            ElementBinding::Attribute(k, t) => json!(["attribute", k, text(t)]),
            ElementBinding::Repeat(k, n, b) => json!(["repeat", k, n, binder(b)]),
            ElementBinding::Callback(k, a) => json!(["callback", k, a.iter().map(|a| match a {
                CallbackArgument::Keyword(k) => json!(["keyword", k]),
                CallbackArgument::Event => json!(["event"]),
                CallbackArgument::Binder(b) => json!(["binder", binder(b)]),
            }).collect::<Vec<_>>()]),
            ElementBinding::Visibility(v, b) => json!(["visibility", v, binder(b)]),
        }
    }
    fn html(h: &Html) -> Value {
        json!([h.tag, h.bindings.iter().map(binding).collect::<Vec<_>>(), h.text.as_ref().map(text), h.children.iter().map(html).collect::<Vec<_>>()])
    }
    fn definition(d: &Definition) -> Value {
        match d {
            Definition::Var(n) => json!(["var", n]),
            Definition::Function(f) => json!(["function", f.name, f.arguments.iter().map(definition).collect::<Vec<_>>()]),
            Definition::Explicit(v) => match v {
                ComputedValue::Keyword(k) => json!(["keyword", k]),
                ComputedValue::Zero => json!(["zero"]),
                ComputedValue::Percentage(x) => json!(["percentage", x]),
                ComputedValue::Time(x) => json!(["time", x]),
                ComputedValue::Dimension(d) => json!(["dimension", d.value, match d.unit {
                    Units::Vh => "vh", Units::Vw => "vw", Units::Vmax => "vmax", Units::Vmin => "vmin", Units::Px => "px", Units::Em => "em", Units::Rem => "rem",
                }]),
                ComputedValue::Number(x) => json!(["number", x]),
                ComputedValue::Color(c) => json!(["color", c]),
                ComputedValue::Str(s) => json!(["string", s]),
                ComputedValue::Error => json!(["error"]),
            },
        }
    }
    fn declarations(d: &[Declaration]) -> Value {
        Value::Array(d.iter().map(|d| match d {
            Declaration::Variable(v) => json!(["variable", v.key, v.shorthand.iter().map(definition).collect::<Vec<_>>()]),
            Declaration::Property(p) => json!(["property", format!("{:?}", p.key),
                p.values.iter().map(|s| s.iter().map(definition).collect::<Vec<_>>()).collect::<Vec<_>>()]),
        }).collect())
    }
    fn simple(s: &Simple) -> Value {
        match s {
            Simple::All => json!(["*"]),
            Simple::Id(n) => json!(["#", n]),
            Simple::Class(n) => json!([".", n]),
            Simple::Type(n) => json!(["type", n]),
            Simple::Attribute(n, m, v) => json!(["attribute", n, match m {
                Matcher::Exist => "", Matcher::Equal => "=", Matcher::Include => "~=", Matcher::DashMatch => "|=", Matcher::Prefix => "^=",
                Matcher::Substring => "*=", Matcher::Suffix => "$=",
            }, v]),
            Simple::Root => json!([":root"]),
            Simple::PseudoClass(n) => json!([":", n]),
            Simple::PseudoElement(n) => json!(["::", n]),
            Simple::Combinator(c) => json!(["combinator", c.to_string()]),
        }
    }
    pub fn read_html(s: &str) -> Result<Value, String> { crate::html::read_html(s).map(|h| html(&h)).map_err(|e| format!("{e:?}")) }
    pub fn read_inline(s: &str) -> Result<Value, String> { crate::css::read_inline_css(s).map(|d| declarations(&d)).map_err(|e| format!("{e:?}")) }
    pub fn read_css(s: &str) -> Result<Value, String> {
        let css = crate::css::read_css(s).map_err(|e| format!("{e:?}"))?;
        let styles: Vec<Value> = css.styles.iter().map(|s| json!([s.selectors.iter().map(|c| c.selectors.iter().map(simple).collect::<Vec<_>>()).collect::<Vec<_>>(),
            declarations(&s.declaration)])).collect();
        let mut animations = serde_json::Map::new();
        for (name, a) in &css.animations {
            animations.insert(name.clone(), json!([a.name, a.keyframes.iter().map(|k| json!([k.step, declarations(&k.declaration)])).collect::<Vec<_>>()]));
        }
        Ok(json!({"styles": styles, "animations": animations}))
    }
    pub fn property(name: &str) -> Option<String> { PropertyKey::parse(name).map(|k| format!("{k:?}")) }
}
