seed("count-overflow", "C24", "src/html/reader.rs", """                let count = count.parse::<usize>().unwrap_or_else(|error| {
                    error!("unable to parse repeat count '{count}', {error}");
                    0
                });
""", """                let count = match count {
                    "" => 0,
                    digits => digits.parse::<usize>().unwrap(),
                };
""", r'''
fn main() {
    let html = format!(r#"<html><body><div *i="{} {{items}}"></div></body></html>"#, "9".repeat(40));
    let read = std::panic::catch_unwind(|| View::from_html(&html, "", ".", F, Box::new(T)).is_ok());
    assert!(read.is_ok());
}
''', "a repeat count of so many digits that it is no usize", "reading the document panics")
seed("short-closing", "C24", "src/html/html.pest", """Element = { "<" ~ Tag ~ Attributes ~">" ~ Children ~ "<" ~ "/" ~  Tag ~ ">"}""",
"""Element = { Closed | Shortly }

Closed = _{ "<" ~ Tag ~ Attributes ~ ">" ~ Children ~ "<" ~ "/" ~ Tag ~ ">" }

Shortly = _{ "<" ~ Tag ~ Attributes ~ ">" ~ Children ~ "<" ~ "/" ~ ">" }""", r'''
fn main() {
    let (done, end) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let html = "<div>".repeat(40);
        let _ = done.send(View::from_html(&html, "", ".", F, Box::new(T)).is_err());
    });
    assert!(end.recv_timeout(Duration::from_secs(60)).expect("the document is read or rejected in time"));
}
''', "a document of deeply nested elements that are not closed", "every level is tried twice: reading takes exponential time")
seed("alpha-digit", "C25", "src/css/reader.rs", "u8::from_str_radix(&value[7..9], 16).unwrap_or(0);", "u8::from_str_radix(&value[7..9], 16).unwrap_or(255) & 0xfe;", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a"></div></body></html>"#, "#a { background-color: #10203041; }");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(by_id(&v, "a").color(), [16, 32, 48, 65]);
}
trait Color { fn color(&self) -> Rgba; }
impl Color for Element { fn color(&self) -> Rgba { self.backgrounds[0].color } }
''', "a colour of eight digits with an odd alpha", "the alpha of the colour is not the written one")
seed("tabbed-lines", "C25", "src/html/reader.rs", "let fragment = fragment.trim_start();", "let fragment = fragment.trim_start_matches(' ');", r'''
fn main() {
    let mut v = view("<html><body><p id=\"a\">Dear\n\t{name}</p><p id=\"b\">Dear\n\t\tfriend {name}</p></body></html>", "");
    v.update(Input::new(), json!({"name": "Bo"})).unwrap();
    let texts: Vec<String> = v.body().children().iter().map(|p| {
        let mut s = String::new();
        for c in v.body().tree.children(p.node).unwrap() {
            if let Some(t) = v.body().tree.get_node_context(c).and_then(|e| e.text.as_ref()) { s += &t.to_string(); }
        }
        s
    }).collect();
    assert_eq!(texts, ["Dear Bo", "Dear friend Bo"]);
}
''', "a text of several lines that are indented with tabs", "the tabs are part of the text")
seed("corner-name", "C25", "src/css/model.rs", '"border-bottom-left-radius" => Self::BorderBottomLeftRadius', '"border-bottom-left-radius" => Self::BorderBottomRightRadius', r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a"></div></body></html>"#, "#a { border-bottom-left-radius: 3px; }");
    v.update(Input::new(), json!({})).unwrap();
    let radius = by_id(&v, "a").borders.radius;
    let set: Vec<bool> = radius.iter().map(|r| matches!(r, Length::Number(x) if *x == 3.0)).collect();
    assert_eq!(set, [false, false, false, true]);
}
''', "one corner of an element is rounded on its own", "the name of the property stands for the other corner")
