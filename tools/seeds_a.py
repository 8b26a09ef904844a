seed("hover-held", "C05", "src/view_model.rs", "                            element.state.hover = false;\n", "                            element.state.hover = element.state.active;\n", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a" style="width: 10px; height: 10px;"></div></body></html>"#, "#a:hover { color: #ff0000ff; }");
    v.update(Input::new().event(MouseMove([5.0, 5.0])), json!({})).unwrap();
    v.update(Input::new().event(MouseButtonDown(MouseButtons::Left)), json!({})).unwrap();
    v.update(Input::new().event(MouseMove([500.0, 500.0])), json!({})).unwrap();
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(by_id(&v, "a").color, [0, 0, 0, 255], "pointer is elsewhere");
}
''', "press a button over an element and move the pointer out of it while it is held", "the element stays in the hover state (and :hover style) although the pointer left it")
seed("blur-button", "C06", "src/view_model.rs", "                        if !self.elements_under_mouse.contains(&focus) {\n", "                        if button == MouseButtons::Left && !self.elements_under_mouse.contains(&focus) {\n", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a" style="width: 10px; height: 10px;" ^oninput="typed $event" ^onblur="blur"></div></body></html>"#, "");
    v.update(Input::new().event(MouseMove([5.0, 5.0])), json!({})).unwrap();
    v.update(Input::new().event(MouseButtonDown(MouseButtons::Left)).event(MouseButtonUp(MouseButtons::Left)), json!({})).unwrap();
    v.update(Input::new().event(MouseMove([700.0, 500.0])), json!({})).unwrap();
    let out = v.update(Input::new().event(MouseButtonDown(MouseButtons::Right)).event(Char('x')), json!({})).unwrap();
    assert_eq!(out.messages, vec![json!("blur")]);
}
''', "focus an input, then press the right button somewhere else", "pressing elsewhere must leave no focus, but the element stays focused and receives the characters")
seed("release-right", "C07", "src/view_model.rs", "                        element.state.active = false;\n", "                        element.state.active = button == MouseButtons::Right;\n", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a" style="width: 10px; height: 10px;" ^onclick="click"></div></body></html>"#, "");
    v.update(Input::new().event(MouseMove([5.0, 5.0])), json!({})).unwrap();
    v.update(Input::new().event(MouseButtonDown(MouseButtons::Right)).event(MouseButtonUp(MouseButtons::Right)), json!({})).unwrap();
    v.update(Input::new().event(MouseMove([700.0, 500.0])), json!({})).unwrap();
    v.update(Input::new().event(MouseButtonDown(MouseButtons::Left)), json!({})).unwrap();
    v.update(Input::new().event(MouseMove([5.0, 5.0])), json!({})).unwrap();
    let out = v.update(Input::new().event(MouseButtonUp(MouseButtons::Left)), json!({})).unwrap();
    assert_eq!(out.messages, Vec::<Value>::new(), "not pressed since the last release");
}
''', "a press and release of the right button over the element, later a left press elsewhere released over it", "the element stays active after the release and a click is delivered to an element that was not pressed")
seed("shrink-three", "C04", "src/view.rs", "                let hidden = &children[cursor..end];\n", "                let hidden = &children[cursor..end.min(cursor + 2)];\n", r"""
fn main() {
    let mut v = view(r#"<html><body><div *i="5 {items}" @id="{i}"></div><div id="z"></div></body></html>"#, "");
    v.update(Input::new(), json!({"items": ["a", "b", "c", "d"]})).unwrap();
    v.update(Input::new(), json!({"items": ["a"]})).unwrap();
    assert_eq!(ids(&v), ["a", "z"]);
}
""", "a list that shrinks by three or more items in one update", "items beyond the length of the list stay shown")
seed("opacity-min", "C19", "src/view.rs", "        opacity = element.opacity;\n", "        opacity = opacity.min(element.self_opacity);\n", r'''
fn main() {
    let mut v = view(r#"<html><body><div style="opacity: 0.5;"><div style="opacity: 0.5;"><div id="c"></div></div></div></body></html>"#, "");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(by_id(&v, "c").opacity, 0.25);
}
''', "two nested translucent ancestors", "opacity of a descendant is not the product of the opacities of its ancestors")
seed("variable-scope", "C13", "src/view.rs", "                    self.apply_styles(child, input, sizes, variables.clone())?;\n", "                    self.apply_styles(child, input, sizes, if sizes.parent_font_size == 16.0 { variables.clone() } else { Variables::default() })?;\n", r'''
fn main() {
    let mut v = view(r#"<html><body style="--c: #ff0000ff;"><div style="font-size: 20px;"><div id="c" style="background-color: var(--c);"></div></div></body></html>"#, "");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(by_id(&v, "c").backgrounds[0].color, [255, 0, 0, 255]);
}
''', "a variable of an ancestor used below an element whose font size is not 16px", "variables of ancestors are lost")
seed("vmin", "C12", "src/styles/apply.rs", "        Units::Vmin => sizes.viewport_width.min(sizes.viewport_height) * value / 100.0,\n", "        Units::Vmin => sizes.viewport_height * value / 100.0,\n", r'''
fn main() {
    let mut v = view(r#"<html><body><div id="a" style="width: 10vmin; height: 5px;"></div></body></html>"#, "");
    v.update(Input::new().viewport([300.0, 600.0]), json!({})).unwrap();
    assert_eq!(by_id(&v, "a").size[0], 30.0);
}
''', "a vmin length in a viewport higher than wide", "vmin resolves against the height, not the smaller side")
seed("inherit-weight", "C20", "src/styles/inherit.rs", "    element.font.weight = parent.font.weight;\n", "    element.font.weight = parent.font.weight.max(element.font.weight);\n", r'''
fn main() {
    let mut v = view(r#"<html><body><div style="font-weight: 300;"><div id="a">text</div></div></body></html>"#, "");
    v.update(Input::new(), json!({})).unwrap();
    assert_eq!(by_id(&v, "a").font.weight, 300);
}
''', "an ancestor with a font weight below normal", "a light font weight is not inherited")
