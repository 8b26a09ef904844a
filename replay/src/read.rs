//! C24 C25: the readers. C25: a tree is drawn, written down with varied spacing, read and compared part by part.
//! C24: any text, well-formed ones broken at random included, is read or rejected.
use crate::core::*;
use serde_json::{json, Value};

pub struct Read { pub any: bool }

/// one text to read and what it says (None: whatever the reader makes of it)
pub struct Case { texts: Vec<(Kind, String, Option<Value>)>, names: Vec<usize> }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Html, Css, Inline, Links }
impl std::fmt::Debug for Case {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (k, t, e) in &self.texts {
            if t.len() > 3000 { writeln!(f, "{k:?} ({} bytes): {:?} ...", t.len(), t.chars().take(300).collect::<String>())?; } else { writeln!(f, "{k:?}: {t:?}")?; }
            if let Some(e) = e { writeln!(f, "  says {e}")?; }
        }
        if !self.names.is_empty() { writeln!(f, "{} properties by name", self.names.len())?; }
        Ok(())
    }
}

// ---- documents ----
const TAGS: [&str; 20] = ["div", "p", "span", "h1", "body", "x-y", "a", "b", "colgroup", "basefont", "brand", "linker", "hr-x", "Div", "table", "params", "image", "areas", "scripts", "template"];
const VOIDS: [&str; 8] = ["img", "br", "input", "link", "meta", "IMG", "hr", "wbr"];
const NAMES: [&str; 10] = ["id", "class", "style", "data-x", "href", "_v", "xml:lang", "ünï", "aria-label", "value1"];
const KEYS: [&str; 8] = ["a", "item", "x-1", "_k", "0", "Name", "event", "deep-key_2"];
const VALUES: [&str; 18] = ["", "a", "two words", " leading", "trailing ", "  ", "a\nb", "width: 1px;", "{x}", "<b>", "it's", "a=b", "é日本", "/x/y.png", "-1", "true", "\\\"", "\\u00e9 \\n"];
const BARE: [&str; 9] = ["a", "42", "/x/y.png", "#id", "é", "{x}", "a&b", "100%", "a/b"];
const WORDS: [&str; 14] = ["Hello", "a", "1", "é", "日本", "}", "x=y", "\"q\"", "'", "&amp;", "/", "@", "!", "-"];

fn gap(r: &mut Rng) -> &'static str { *r.pick(&[" ", "  ", "\n", "\n  ", "\t", " \r\n "]) }
fn maybe(r: &mut Rng) -> &'static str { if r.chance(70) { "" } else { gap(r) } }
fn binder(r: &mut Rng) -> (String, Value) {
    let path: Vec<&str> = (0..1 + r.below(3)).map(|_| *r.pick(&KEYS)).collect();
    let pipe: Vec<String> = (0..if r.chance(70) { 0 } else { 1 + r.below(2) }).map(|_| {
        let mut t = r.pick(&KEYS).to_string();
        for _ in 0..r.below(3) { t += ":"; t += r.pick(&["a", "x.y", "1"]); }
        t
    }).collect();
    let mut s = format!("{{{}{}", maybe(r), path.join("."));
    for t in &pipe { s += &format!("{}|{}{t}", maybe(r), maybe(r)); }
    s += maybe(r);
    s += "}";
    (s, json!({"path": path, "pipe": pipe}))
}
fn attribute(r: &mut Rng) -> (String, Value) {
    let name = *r.pick(&NAMES);
    let (key, eq) = (*r.pick(&KEYS), |r: &mut Rng| format!("{}={}", maybe(r), maybe(r)));
    match r.below(12) {
        0 | 1 | 2 => { let v = *r.pick(&VALUES); (format!("{name}{}\"{v}\"", eq(r)), json!(["static", name, v])) }
        3 => { let v = *r.pick(&BARE); (format!("{name}={v}"), json!(["static", name, v])) }
        4 => (name.to_string(), json!(["static", name, ""])),
        5 => { let (b, e) = binder(r); let (n, t) = if r.chance(60) { (r.below(30), true) } else { (0, false) };
            (format!("*{key}{}\"{}{b}\"", eq(r), if t { format!("{n}{}", gap(r)) } else { String::new() }), json!(["repeat", key, n, e])) }
        6 => { let (b, e) = binder(r); (format!("+{key}{}\"{b}\"", eq(r)), json!(["alias", key, e])) }
        7 => { let (b, e) = binder(r); (format!("#{key}{}\"{b}\"", eq(r)), json!(["tag", key, e])) }
        8 => { let (b, e) = binder(r); let v = r.chance(50); (format!("{}{}\"{b}\"", if v { "?" } else { "!" }, eq(r)), json!(["visibility", v, e])) }
        9 => {
            let mut s = vec![]; let mut a = vec![];
            for _ in 0..r.below(4) {
                match r.below(3) {
                    0 => { let k = *r.pick(&KEYS); s.push(k.to_string()); a.push(json!(["keyword", k])) }
                    1 => { s.push("$event".to_string()); a.push(json!(["event"])) }
                    _ => { let (b, e) = binder(r); s.push(b); a.push(json!(["binder", e])) }
                }
            }
            (format!("^{key}{}\"{}\"", eq(r), s.join(" ")), json!(["callback", key, a]))
        }
        _ => {
            let (mut s, mut e, mut last) = (String::new(), vec![], false);
            for _ in 0..1 + r.below(4) {
                if last || r.chance(50) { let (b, x) = binder(r); s += &b; e.push(x); last = false; }
                else { let t = *r.pick(&[" ", "a", "x ", " y", "  ", "a: ", ";", "\n", "it's", "é", "}", "=", "/"]); s += t; e.push(json!(t)); last = true; }
            }
            (format!("@{key}{}\"{s}\"", eq(r)), json!(["attribute", key, e]))
        }
    }
}
fn attributes(r: &mut Rng) -> (String, Vec<Value>, bool) {
    let (mut s, mut e, mut bare) = (String::new(), vec![], false);
    for _ in 0..if r.chance(40) { 0 } else { r.below(4) } {
        let (a, x) = attribute(r);
        s += gap(r);
        s += &a;
        bare = !a.ends_with('"');
        e.push(x);
    }
    (s, e, bare)
}
/// a text; `last`: nothing follows it in its element
fn text(r: &mut Rng, last: bool) -> (String, Value) {
    // pieces in order: words, spaces within the line, line breaks with indentation, and bound values
    let (mut s, mut spans, mut run) = (String::new(), vec![], String::new());
    let n = 1 + r.below(6);
    let mut after = ' '; // what stands before: 'w' a word or value, ' ' white space
    for i in 0..n {
        match r.below(5) {
            0 if i > 0 => { let w = *r.pick(&[" ", "  "]); s += w; run += w; after = ' '; }
            1 if after == 'w' && i + 1 < n => { s += r.pick(&["\n", "\n   ", "\n\t"]); run += " "; after = 'n'; let w = *r.pick(&WORDS); s += w; run += w; after = 'w'; }
            2 | 3 => { let (b, x) = binder(r); s += &b; if !run.is_empty() { spans.push(json!(run)); run = String::new(); } spans.push(x); after = 'w'; }
            _ => { let w = *r.pick(&WORDS); s += w; run += w; after = 'w'; }
        }
    }
    // a line break at the end is white space before what follows, and nothing at the end of the element
    if after == 'w' && r.chance(30) {
        s += r.pick(&["\n", "\n  "]);
        if !last { run += " "; }
    }
    if !run.is_empty() { spans.push(json!(run)); }
    (s, json!(["", [], spans, []]))
}
fn element(r: &mut Rng, depth: usize) -> (String, Value) {
    let tag = *r.pick(&TAGS);
    let (a, e, _) = attributes(r);
    let mut s = format!("<{tag}{a}{}>", maybe(r));
    let n = if depth == 0 { 0 } else { r.below(4) };
    let mut children: Vec<Value> = vec![];
    let mut texted = false;
    for i in 0..n {
        if !texted { s += maybe(r); }
        if r.chance(8) && !texted { s += r.pick(&["<!-- c -->", "<!-- <b> {x} -->", "<!---->"]); s += maybe(r); }
        let (x, e) = match r.below(8) {
            0 | 1 | 2 if !texted => { texted = true; let (x, e) = text(r, i + 1 == n); s += &x; children.push(e); continue; }
            3 => {
                let tag = *r.pick(&VOIDS);
                let (a, e, bare) = attributes(r);
                let end = match r.below(3) { 0 => ">", 1 if !bare => "/>", _ => " />" };
                (format!("<{tag}{a}{end}"), json!([tag, e, null, []]))
            }
            4 if r.chance(40) => (r.pick(&["<script></script>", "<script> if (a < b) { x } </script>", "<script>\n//<div>{\n</script>"]).to_string(), json!(["script", [], null, []])),
            _ => element(r, depth - 1),
        };
        s += &x;
        children.push(e);
        texted = false;
    }
    if !texted { s += maybe(r); }
    s += &format!("<{}/{}{tag}{}>", "", "", maybe(r));
    (s, json!([tag, e, null, children]))
}
fn document(r: &mut Rng, size: usize) -> (String, Value) {
    let (s, e) = element(r, 1 + size.min(4));
    (format!("{}{}{s}{}", maybe(r), if r.chance(10) { "<!-- head -->" } else { "" }, maybe(r)), e)
}

// ---- sheets ----
const IDENTS: [&str; 10] = ["a", "main-bg", "x1", "_y", "Box", "div2", "s", "ms", "root-x", "e-0"];
fn number(r: &mut Rng) -> String {
    match r.below(8) {
        0 => format!("{}", r.range(-300, 300)),
        1 => format!("-{}.{}", r.below(10), r.below(1000)),
        2 => format!(".{}", r.below(100)),
        3 => format!("-.{}", 1 + r.below(9)),
        4 => format!("{}.0", r.below(50)),
        5 => format!("{}.{:03}", r.below(10000), r.below(1000)),
        6 => "0.5".into(),
        _ => format!("{}", 1 + r.below(99)),
    }
}
fn value(r: &mut Rng, depth: usize) -> (String, Value) {
    let num = |r: &mut Rng| { let n = number(r); let x: f32 = n.parse().unwrap(); (n, x) };
    match r.below(if depth == 0 { 9 } else { 12 }) {
        0 => { let k = *r.pick(&["red", "inherit", "ease-in-out", "-webkit-box", "--x", "Auto", "x2", "variable", "s", "px", "_a"]); (k.into(), json!(["keyword", k])) }
        1 => ("0".into(), json!(["zero"])),
        2 => { let (n, x) = num(r); (format!("{n}%"), json!(["percentage", x / 100.0])) }
        3 => { let (n, x) = num(r); if r.chance(50) { (format!("{n}s"), json!(["time", x])) } else { (format!("{n}ms"), json!(["time", x / 1000.0])) } }
        4 | 5 => { let (n, x) = num(r); let u = *r.pick(&["px", "em", "rem", "vw", "vh", "vmin", "vmax"]); (format!("{n}{u}"), json!(["dimension", x, u])) }
        6 => { let n = loop { let n = number(r); if n != "0" { break n } }; let x: f32 = n.parse().unwrap(); (n, json!(["number", x])) }
        7 => {
            let c: Vec<u8> = (0..4).map(|_| r.below(256) as u8).collect();
            let h = |r: &mut Rng, x: u8, w: usize| { let s = if w == 1 { format!("{:x}", x / 16) } else { format!("{x:02x}") }; if r.chance(50) { s.to_uppercase() } else { s } };
            let (k, w) = (3 + r.below(2), 1 + r.below(2));
            let s: String = (0..k).map(|i| h(r, c[i], w)).collect();
            let v: Vec<u8> = (0..4).map(|i| if i >= k { 255 } else if w == 1 { c[i] / 16 * 17 } else { c[i] }).collect();
            (format!("#{s}"), json!(["color", v]))
        }
        8 => { let s = *r.pick(&["", "abc", "two words", " x ", "a;b}", "é", "url.png", "it's", "/* no */", "\n"]); (format!("\"{s}\""), json!(["string", s])) }
        9 => { let n = *r.pick(&["--x", "--main-bg", "--x1", "x", "--2"].map(|s| if s == "--2" { "--y2" } else { s })); (format!("var({}{n}{})", maybe(r), maybe(r)), json!(["var", n])) }
        _ => {
            let n = *r.pick(&["rgb", "rgba", "translate", "url", "linear-gradient", "variant", "var-x", "calc2"]);
            let (mut s, mut e) = (vec![], vec![]);
            for _ in 0..r.below(4) { let (x, v) = value(r, depth - 1); s.push(x); e.push(v); }
            let mut t = format!("{n}({}", maybe(r));
            for (i, x) in s.iter().enumerate() { if i > 0 { t += &format!("{},{}", maybe(r), maybe(r)); } t += x; }
            (t + maybe(r) + ")", json!(["function", n, e]))
        }
    }
}
fn note(r: &mut Rng) -> &'static str { if r.chance(90) { maybe(r) } else { *r.pick(&["/* c */", " /* a:b; } */ ", "/**/"]) } }
fn declaration(r: &mut Rng, known: &[&str]) -> (String, Option<Value>) {
    let (mut s, mut e) = (String::new(), vec![]);
    for i in 0..if r.chance(70) { 1 } else { 2 + r.below(2) } {
        if i > 0 { s += &format!("{},{}", note(r), note(r)); }
        let mut row = vec![];
        for j in 0..1 + r.below(3) {
            if j > 0 { s += gap(r); }
            let (x, v) = value(r, 2);
            s += &x;
            row.push(v);
        }
        e.push(Value::Array(row));
    }
    let (name, value) = match r.below(10) {
        0 | 1 => { let n = *r.pick(&["--x", "--main-bg", "--x1", "--Y_z"]); (n.to_string(), Some(json!(["variable", n, e[0]]))) }
        2 => (r.pick(&["no-such-property", "-webkit-thing", "colour", "zoom2"]).to_string(), None),
        _ => { let n = *r.pick(known); (n.to_string(), Some(json!(["property", camel(n), e]))) }
    };
    (format!("{name}{}:{}{s}{};", maybe(r), note(r), note(r)), value)
}
fn camel(n: &str) -> String { n.split('-').map(|p| p[..1].to_uppercase() + &p[1..]).collect() }
fn properties() -> Vec<&'static str> { include_str!("properties.txt").split_whitespace().collect() }
fn block(r: &mut Rng, known: &[&str]) -> (String, Value) {
    let (mut s, mut e) = (String::new(), vec![]);
    for _ in 0..r.below(4) { let (x, v) = declaration(r, known); s += &x; s += note(r); e.extend(v); }
    (s, Value::Array(e))
}
fn compound(r: &mut Rng) -> (String, Vec<Value>) {
    let (mut s, mut e) = (String::new(), vec![]);
    if r.chance(15) { s += "*"; e.push(json!(["*"])); }
    else if r.chance(50) { let n = *r.pick(&IDENTS); s += n; e.push(json!(["type", n])); }
    for _ in 0..if s.is_empty() { 1 } else { 0 } + r.below(3) {
        let n = *r.pick(&IDENTS);
        match r.below(7) {
            0 => { s += &format!("#{n}"); e.push(json!(["#", n])) }
            1 | 2 => { s += &format!(".{n}"); e.push(json!([".", n])) }
            3 => { let a = *r.pick(&["", "(2n + 1)", "(x)", "()"]); let n = *r.pick(&["hover", "nth-child", "focus", "not2"]); s += &format!(":{n}{a}"); e.push(json!([":", n])) }
            4 => { s += &format!("::{n}"); e.push(json!(["::", n])) }
            5 => { s += ":root"; e.push(json!([":root"])) }
            _ => {
                let m = *r.pick(&["", "=", "~=", "|=", "^=", "*=", "$="]);
                if m.is_empty() { s += &format!("[{n}]"); e.push(json!(["attribute", n, "", ""])); }
                else if r.chance(50) { let v = *r.pick(&["", "two words", "a]b", "é", "x"]); s += &format!("[{n}{m}\"{v}\"{}]", r.pick(&["", "", "i", "s"])); e.push(json!(["attribute", n, m, v])); }
                else { let v = *r.pick(&IDENTS); s += &format!("[{n}{m}{v}]"); e.push(json!(["attribute", n, m, v])); }
            }
        }
        // a name would run on
        if s.ends_with(":root") { s += ".q"; e.push(json!([".", "q"])); }
    }
    (s, e)
}
fn complex(r: &mut Rng) -> (String, Value) {
    let (mut s, mut e) = (String::new(), vec![]);
    for i in 0..1 + r.below(3) {
        if i > 0 {
            match r.below(2) {
                0 => { s += gap(r); e.push(json!(["combinator", " "])) }
                _ => { let c = *r.pick(&[">", "+", "~"]); s += &format!("{}{c}{}", maybe(r), maybe(r)); e.push(json!(["combinator", c])) }
            }
        }
        let (x, v) = compound(r);
        s += &x;
        e.extend(v);
    }
    (s, Value::Array(e))
}
fn sheet(r: &mut Rng, known: &[&str]) -> (String, Value) {
    let (mut s, mut styles, mut animations) = (note(r).to_string(), vec![], serde_json::Map::new());
    for _ in 0..r.below(5) {
        if r.chance(25) {
            let n = *r.pick(&["Fade", "slide-in", "x2", "A_b"]);
            let mut frames = vec![];
            s += &format!("@keyframes{}{n}{}{{{}", gap(r), maybe(r), note(r));
            for _ in 0..r.below(4) {
                let (t, k) = match r.below(4) { 0 => ("from".to_string(), 0), 1 => ("to".to_string(), 100), _ => { let k = r.below(101); (format!("{k}%"), k) } };
                let (x, v) = block(r, known);
                s += &format!("{t}{}{{{}{x}}}{}", maybe(r), note(r), note(r));
                frames.push(json!([k, v]));
            }
            s += "}";
            animations.insert(n.to_string(), json!([n, frames]));
        } else {
            let (mut list, mut parts) = (vec![], vec![]);
            for _ in 0..if r.chance(70) { 1 } else { 2 } { let (x, v) = complex(r); parts.push(x); list.push(v); }
            let (x, v) = block(r, known);
            s += &format!("{}{}{{{}{x}}}", parts.join(&format!("{},{}", maybe(r), note(r))), maybe(r), note(r));
            styles.push(json!([list, v]));
        }
        s += note(r);
    }
    (s, json!({"styles": styles, "animations": animations}))
}
fn inline(r: &mut Rng, known: &[&str]) -> (String, Value) { let (s, e) = block(r, known); (format!("{}{s}", maybe(r)), e) }

// ---- any text ----
const TOKENS: [&str; 70] = ["<", ">", "</", "/>", "<!--", "-->", "<div", "<div>", "</div>", "<script>", "</script>", "<img", "<br/>", "=", "\"", "'", "{", "}", "{a", "{a}", "{a|b:c.d}", "|", ":", ".", "$event",
    "*x=\"", "@x=\"", "+x=\"", "#x=\"", "^x=\"", "?=\"", "!=\"", "99999999999999999999999 {x}", "\\", "\\u00", "a", "b-c", "0", "-", "--", "é", "日", "\u{0}", "\n", "\r", " ", "\t",
    "@keyframes", "from", "12.5%", "101%", "@keyframes A{", "div", "#a", ".a", "[a", "]", "~=", ":root", "::x", "(", ")", ",", ";", "var(", "var(--x,", "rgb(", "#ff", "1.2.3px", "/*"];
fn any(r: &mut Rng, size: usize, known: &[&str]) -> (Kind, String) {
    let kind = *r.pick(&[Kind::Html, Kind::Css, Kind::Inline]);
    if r.chance(4) {
        // deep or long
        let n = *r.pick(&[20, 30, 60, 200, 2000, 6000]);
        let (a, b, c): (&str, &str, &str) = *r.pick(&[("<div>", "x", "</div>"), ("<div>", "", ""), ("<a b=\"", "", ""), ("{a|", "", ""), ("<p>{a", "", "}"), ("var(--x,", "red", ")"), ("var(", "", ""), ("f(", "1", ")"), ("f(", "", ""),
            ("var(--x, f(", "1", "))"), (".a ", "", ""), ("div>", "", ""), ("<!--", "", ""), ("/*", "", "*/"), ("a,", "", ""), ("a:b;", "", ""), ("<img", "", ">"), ("[a", "", "]"), ("-", "1", ""), ("<", "", ""), ("{", "", "}"), ("a:not(", "", ")")]);
        let mut s = a.repeat(n) + b + &c.repeat(n);
        if kind == Kind::Css && r.chance(60) { s = format!("a{{color:{s};}}"); }
        if kind == Kind::Inline && r.chance(60) { s = format!("color:{s};"); }
        if kind == Kind::Html && r.chance(30) { s = format!("<div {s}></div>"); }
        return (kind, s);
    }
    let mut s: String = if r.chance(40) {
        (0..r.below(4 + 4 * size)).map(|_| *r.pick(&TOKENS)).collect()
    } else {
        match kind { Kind::Html => document(r, size).0, Kind::Css => sheet(r, known).0, Kind::Inline | Kind::Links => inline(r, known).0 }
    };
    for _ in 0..r.below(4) {
        // break it at a character boundary: cut, doubled, or a token put in
        let at = |r: &mut Rng, s: &String| { let mut i = r.below(s.len() + 1); while !s.is_char_boundary(i) { i -= 1; } i };
        let (i, j) = (at(r, &s), at(r, &s));
        let (i, j) = (i.min(j), i.max(j));
        match r.below(4) {
            0 => { let j = if r.chance(70) { let mut k = (i + 1 + r.below(3)).min(s.len()); while !s.is_char_boundary(k) { k += 1; } k } else { j }; s.replace_range(i..j.max(i), ""); }
            1 => { let t = s[i..j].to_string(); s.insert_str(j, &t); }
            _ => s.insert_str(i, *r.pick(&TOKENS)),
        }
    }
    (kind, s)
}

#[cfg(feature = "readers")]
fn read(k: Kind, s: &str) -> Result<Value, String> {
    use bumaga::verif::readers::*;
    match k { Kind::Html => read_html(s), Kind::Css => read_css(s), Kind::Inline | Kind::Links => read_inline(s) }
}
/// without the hooks only that a view is made of it or not
#[cfg(not(feature = "readers"))]
fn read(k: Kind, s: &str) -> Result<Value, String> {
    match k {
        Kind::Html => view(s, "").map(|_| Value::Null),
        Kind::Css => view("<html><body></body></html>", s).map(|_| Value::Null),
        Kind::Inline | Kind::Links => Ok(Value::Null),
    }
}
#[cfg(feature = "readers")]
fn property(n: &str) -> Option<String> { bumaga::verif::readers::property(n) }
#[cfg(not(feature = "readers"))]
fn property(n: &str) -> Option<String> { Some(camel(n)) }

/// a document of templates that link to each other, and whether a view can be built from it: a template in itself has no end
fn links(r: &mut Rng) -> (String, bool) {
    let n = 1 + r.below(4);
    let names: Vec<String> = (0..=n).map(|i| if i == n { "none".into() } else { format!("t{i}") }).collect();
    let mut part = |r: &mut Rng, few: bool| -> (String, Vec<usize>) {
        let (mut s, mut to) = (String::new(), vec![]);
        for _ in 0..1 + r.below(2) {
            if r.chance(if few { 40 } else { 10 }) { s += "<p>text</p>"; continue; }
            // links mostly lead on, to later templates
            let j = if r.chance(90) { r.below(n) } else { r.below(n + 1) };
            to.push(j);
            let attr = *r.pick(&["", " class=\"a\"", " *x=\"2 {xs}\"", " ?=\"{c}\"", " !=\"{c}\"", " +y=\"{z}\""]);
            let link = format!("<link href=\"#{}\"{attr}>", names[j]);
            s += &if r.chance(50) { link } else { format!("<p>{link}</p>") };
        }
        (s, to)
    };
    let mut parts = vec![];
    for i in 0..n {
        let (s, to) = part(r, true);
        // half of the templates link to later ones only
        parts.push(if r.chance(50) && to.iter().any(|j| *j <= i) { ("<p>end</p>".to_string(), vec![]) } else { (s, to) });
    }
    let (body, from) = part(r, false);
    let mut html = String::from("<html>");
    for (i, (s, _)) in parts.iter().enumerate() { html += &format!("<template id=\"t{i}\"><div>{s}</div></template>"); }
    html += &format!("<body>{body}</body></html>");
    fn ends(i: usize, parts: &[(String, Vec<usize>)], open: &mut Vec<usize>) -> bool {
        if i >= parts.len() || open.contains(&i) { return false; }
        open.push(i);
        let ok = parts[i].1.iter().all(|j| ends(*j, parts, open));
        open.pop();
        ok
    }
    let ok = from.iter().all(|i| ends(*i, &parts, &mut vec![]));
    (html, ok)
}
impl Prop for Read {
    type Case = Case;
    fn gen(&self, r: &mut Rng, size: usize) -> Case {
        let known = properties();
        let mut texts = vec![];
        if self.any {
            for _ in 0..4 { let (k, s) = any(r, size, &known); texts.push((k, s, None)); }
            let (s, ok) = links(r);
            texts.push((Kind::Links, s, Some(json!(ok))));
            return Case { texts, names: vec![] };
        }
        let (s, e) = document(r, size);
        texts.push((Kind::Html, s, Some(e)));
        let (s, e) = sheet(r, &known);
        texts.push((Kind::Css, s, Some(e)));
        let (s, e) = inline(r, &known);
        texts.push((Kind::Inline, s, Some(e)));
        Case { texts, names: (0..known.len()).collect() }
    }
    fn check(&self, case: &Case) -> Result<usize, String> {
        let mut n = 0;
        for (k, s, e) in &case.texts {
            let t = std::time::Instant::now();
            if *k == Kind::Links {
                let got = view(s, "");
                n += 2;
                if Some(json!(got.is_ok())) != *e { return Err(format!("a view of this document is {}", if got.is_ok() { "built" } else { "rejected" })); }
                continue;
            }
            let got = read(*k, s);
            if t.elapsed().as_secs() > 30 { return Err(format!("{k:?} takes {:?} to read", t.elapsed())); }
            n += 1 + usize::from(got.is_ok());
            if cfg!(not(feature = "readers")) { continue; }
            if let Some(e) = e {
                match got {
                    Err(x) => return Err(format!("{k:?} is rejected: {x}")),
                    Ok(v) if v != *e => return Err(format!("{k:?} is read as {v}, but it says {e}")),
                    _ => n += 1,
                }
            }
        }
        // every property by its name
        let known = properties();
        for i in &case.names {
            if property(known[*i]) != Some(camel(known[*i])) { return Err(format!("property {} is read as {:?}", known[*i], property(known[*i]))); }
        }
        Ok(n)
    }
}
