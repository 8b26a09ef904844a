/// Turns the wheel over an element, as the host of a view would.
pub fn scroll(view: &mut View, node: NodeId, wheel: [f32; 2]) {
    if let Ok(element) = view.tree.get_element_mut(node) {
        if let Some(scrolling) = element.scrolling.as_mut() {
            scrolling.offset(wheel);
        }
    }
}
