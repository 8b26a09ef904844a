seed("object-appears", "C01", "src/view_model.rs", """                    object_changed = object_changed || changed;
                }
                if fresh || object_changed {
                    Self::react(path, &json!""", """                    object_changed = changed;
                }
                if fresh || object_changed {
                    Self::react(path, &json!""", r'''
fn main() {
    let mut v = view(r#"<html><body><div ?="{user}" id="a"><p>{user.name}</p></div></body></html>"#, "");
    v.update(Input::new(), json!({"user": null})).unwrap();
    assert_eq!(ids(&v), Vec::<String>::new());
    v.update(Input::new(), json!({"user": {"name": null}})).unwrap();
    assert_eq!(ids(&v), ["a"]);
}
''', "a conditional element bound to an object whose last field is null when the object appears", "the object is there, but the element stays hidden")
seed("wrong-kind-clears", "C02", "src/view_model.rs", """            (Value::Array(_), _) => {
                error!("unable to bind '{path}', must be array");
""", """            (Value::Array(current), _) => {
                error!("unable to bind '{path}', must be array");
                current.clear();
""", r'''
fn main() {
    let mut v = view(r#"<html><body><div *i="5 {items}" @id="{i}"></div></body></html>"#, "");
    v.update(Input::new(), json!({"items": ["a", "b"]})).unwrap();
    v.update(Input::new(), json!({"items": "oops"})).unwrap();
    v.update(Input::new(), json!({"items": []})).unwrap();
    assert_eq!(ids(&v), Vec::<String>::new());
}
''', "a list receives a value that is not an array, then an empty array", "items stay shown although the list is empty")
seed("negative-false", "C03", "src/value.rs", "value != 0.0", "value > 0.0", r'''
fn main() {
    let mut v = view(r#"<html><body><div ?="{n}" id="a"></div></body></html>"#, "");
    v.update(Input::new(), json!({"n": -1})).unwrap();
    assert_eq!(ids(&v), ["a"]);
}
''', "a condition bound to a negative number", "a non-zero number counts as false")
seed("pipe-order", "C08", "src/view_model.rs", "                        for name in pipe {\n                            match self", "                        for name in pipe.iter().rev() {\n                            match self", r'''
fn twice(v: Value) -> Value { json!(v.as_i64().unwrap_or(0) * 2) }
fn next(v: Value) -> Value { json!(v.as_i64().unwrap_or(0) + 1) }
fn main() {
    let mut v = view(r#"<html><body><div style="width: 10px; height: 10px;" ^onclick="set {n | twice | next}"></div></body></html>"#, "")
        .pipe("twice", twice as fn(Value) -> Value).pipe("next", next as fn(Value) -> Value);
    let data = json!({"n": 5});
    v.update(Input::new().event(MouseMove([5.0, 5.0])), data.clone()).unwrap();
    v.update(Input::new().event(MouseButtonDown(MouseButtons::Left)), data.clone()).unwrap();
    let out = v.update(Input::new().event(MouseButtonUp(MouseButtons::Left)), data).unwrap();
    assert_eq!(out.messages, vec![json!({"set": 11})]);
}
''', "an event handler argument with two transformers that do not commute", "transformers of an argument are applied in reverse order")
seed("attribute-exists", "C09", "src/css/matching.rs", "Matcher::Exist => true,", "Matcher::Exist => !attr.is_empty(),", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a" @data-x="{x}"></div></body></html>"#, "[data-x] { color: #ff0000ff; }");
    v.update(Input::new(), json!({"x": "some"})).unwrap();
    assert_eq!(by_id(&v, "a").color, [255, 0, 0, 255]);
    v.update(Input::new(), json!({"x": ""})).unwrap();
    assert_eq!(by_id(&v, "a").color, [255, 0, 0, 255], "attribute is present");
}
''', "an attribute whose bound value becomes empty", "an existence selector no longer matches an element that has the attribute")
seed("dynamic-prefix", "C10", "src/css/matching.rs", "                Simple::Attribute(name, _, _) => attrs.contains(name),", "                Simple::Attribute(name, operator, _) => {\n                    *operator != Matcher::DashMatch && attrs.contains(name)\n                }", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a" @lang="{l}"></div></body></html>"#, "[lang|=\"en\"] { color: #ff0000ff; }");
    v.update(Input::new(), json!({"l": "en-US"})).unwrap();
    assert_eq!(by_id(&v, "a").color, [255, 0, 0, 255]);
    v.update(Input::new(), json!({"l": "de"})).unwrap();
    assert_eq!(by_id(&v, "a").color, [0, 0, 0, 255]);
}
''', "a rule with a dash-match selector over a bound attribute", "the rule is discarded at load time and never applies")
seed("padding-three", "C11", "src/styles/compute_style.rs", """                overwrite(PropertyKey::PaddingRight, h);
                overwrite(PropertyKey::PaddingBottom, bottom);
                overwrite(PropertyKey::PaddingLeft, h);""", """                overwrite(PropertyKey::PaddingRight, h);
                overwrite(PropertyKey::PaddingBottom, bottom);
                overwrite(PropertyKey::PaddingLeft, top);""", r'''
fn main() {
    let mut v = view(r#"<html><body><div style="padding: 1px 2px 3px;"><div id="c" style="width: 5px; height: 5px;"></div></div></body></html>"#, "");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(by_id(&v, "c").position, [2.0, 1.0]);
}
''', "padding with three values", "the left padding is the top value")
seed("percent-from-zero", "C14", "src/animation.rs", "(Zero, Percentage(b)) => percentage(&0.0, b, t),", "(Zero, Percentage(b)) => percentage(&0.0, b, t.max(0.5)),", r'''
fn main() {
    let css = "@keyframes k { 0% { width: 0; } 100% { width: 100%; } } #a { width: 0; height: 5px; animation: 10s linear k; }";
    let mut v = view(r#"<html><body style="width: 200px;"><div id="a"></div></body></html>"#, css);
    v.update(sec(0.0), json!({})).unwrap();
    v.update(sec(1.0), json!({})).unwrap();
    assert_eq!(by_id(&v, "a").size[0], 20.0);
}
''', "an animation from 0 to a percentage, in its first half", "the value jumps to the middle at once")
seed("pause-running", "C15", "src/animation.rs", "        if self.running && self.duration > 0.0 {", "        if (self.running || self.time > self.delay) && self.duration > 0.0 {", r'''
fn main() {
    let css = "@keyframes k { 0% { width: 0px; } 100% { width: 100px; } } #a { height: 5px; animation: 10s linear k; } #a[stop] { animation-play-state: paused; }";
    let mut v = view(r#"<html><body><div id="a" #stop="{stop}"></div></body></html>"#, css);
    v.update(sec(0.0), json!({"stop": false})).unwrap();
    v.update(sec(1.0), json!({"stop": false})).unwrap();
    v.update(sec(0.0), json!({"stop": true})).unwrap();
    v.update(sec(2.0), json!({"stop": true})).unwrap();
    v.update(sec(2.0), json!({"stop": true})).unwrap();
    let paused = by_id(&v, "a").size[0];
    v.update(sec(2.0), json!({"stop": true})).unwrap();
    assert_eq!(by_id(&v, "a").size[0], paused);
}
''', "an animation that is paused after it has begun", "the paused animation goes on")
seed("last-frame-initial", "C16", "src/styles/compute_animation_tracks.rs", "                let value = match style.get(&property) {", "                let value = match style.get(&property).filter(|_| property.index == 0) {", r'''
fn main() {
    let css = "@keyframes k { 0% { background-color: #000000ff, #000000ff; } } #a { width: 5px; height: 5px; background-color: #c8c8c8ff, #c8c8c8ff; animation: 1s linear k; }";
    let mut v = view(r#"<html><body><div id="a"></div></body></html>"#, css);
    v.update(sec(0.0), json!({})).unwrap();
    v.update(sec(3.0), json!({})).unwrap();
    let b = &by_id(&v, "a").backgrounds;
    assert_eq!(b[0].color, [200, 200, 200, 255]);
    assert_eq!(b[1].color, [200, 200, 200, 255]);
}
''', "a second layer of an animated property missing in the last key frame", "the layer goes to the initial value and not to the element's own")
seed("restart-late", "C17", "src/animation.rs", "        self.time = 0.0;\n    }", "        self.time = (self.time - self.delay - self.duration).max(0.0);\n    }", r'''
fn main() {
    let css = "#a { height: 5px; width: 10px; transition: width 1s; } #a[big] { width: 110px; }";
    let mut v = view(r#"<html><body><div id="a" #big="{big}"></div></body></html>"#, css);
    let width = |v: &View| by_id(v, "a").size[0];
    v.update(sec(0.0), json!({"big": false})).unwrap();
    v.update(sec(0.1), json!({"big": false})).unwrap();
    v.update(sec(3.0), json!({"big": false})).unwrap();
    v.update(sec(0.0), json!({"big": true})).unwrap();
    let start = width(&v);
    assert_eq!(start, 10.0);
    v.update(sec(0.5), json!({"big": true})).unwrap();
    assert_eq!(width(&v), 60.0);
}
''', "a change long after the previous transition settled", "the transition does not start at the displayed value but jumps ahead")
seed("scroll-keeps", "C18", "src/styles/scrolling.rs", "        if content.width > size.width || content.height > size.height {", "        if content.width > size.width && size.width > 0.0 || content.height > size.height {", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a" style="width: 0; height: 20px;"><div style="width: 30px; height: 10px; flex-shrink: 0;"></div></div></body></html>"#, "");
    v.update(Input::new(), json!({})).unwrap();
    assert!(by_id(&v, "a").scrolling.is_some());
}
''', "an element of zero width with wider content that fits in height", "the element does not scroll although its content is larger than its box")
seed("repeat-scope", "C21", "src/rendering.rs", "                        } else {\n                            self.locals.remove(name);\n                        }\n                    } else {", "                        } else if count == 0 {\n                            self.locals.remove(name);\n                        }\n                    } else {", r'''
fn main() {
    let mut v = view(r#"<html><body><div *item="2 {items}" @id="{item}"></div><div @id="{item}"></div></body></html>"#, "");
    v.update(Input::new(), json!({"items": ["a", "b"], "item": "top"})).unwrap();
    assert_eq!(ids(&v), ["a", "b", "top"]);
}
''', "a name used after a repeated element with a variable of that name", "the name still stands for the last item")
seed("flag-value", "C22", "src/view.rs", "                    element.attrs.insert(key.clone(), key.clone());", "                    element.attrs.entry(key.clone()).or_insert(key.clone());", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a" data-on="static" #data-on="{on}"></div></body></html>"#, "");
    v.update(Input::new(), json!({"on": true})).unwrap();
    assert_eq!(by_id(&v, "a").attrs.get("data-on").map(|s| s.as_str()), Some("data-on"));
}
''', "a flag attribute that is also written as a static attribute", "the flag is present but its value is not its own name")
seed("empty-id", "C23", "src/view.rs", """                if key == "id" {
                    if let""", """                if key == "id" && !value.is_empty() {
                    if let""", r'''
fn main() {
    let mut v = view(r#"<html><body><div @id="{name}"></div></body></html>"#, "");
    v.update(Input::new(), json!({"name": "a"})).unwrap();
    assert!(v.get_element_by_id("a").is_some());
    v.update(Input::new(), json!({"name": null})).unwrap();
    assert!(v.get_element_by_id("a").is_none(), "nothing bears the id any more");
}
''', "an identifier that becomes empty", "the element is still found by the identifier it no longer bears")
seed("double-drop", "C07", "src/view_model.rs", "                                self.drag = None;\n                                let element = tree.get_element_mut(source)?;", "                                if *node != source {\n                                    self.drag = None;\n                                }\n                                let element = tree.get_element_mut(source)?;", r'''
fn main() {
    let mut v = view(r#"<html><body><div draggable="true" style="width: 10px; height: 10px;" ^ondragstart="start" ^ondragend="end" ^ondrop="drop"></div></body></html>"#, "");
    v.update(Input::new().event(MouseMove([5.0, 5.0])), json!({})).unwrap();
    let out = v.update(Input::new().event(MouseButtonDown(MouseButtons::Left)).event(MouseButtonUp(MouseButtons::Left)), json!({})).unwrap();
    assert_eq!(out.messages, vec![json!("start"), json!("drop"), json!("end")]);
}
''', "an element dropped on itself", "the drag ends twice")
