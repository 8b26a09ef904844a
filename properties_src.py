#!/usr/bin/env python3
"""Source of properties.jsonl: `python3 properties_src.py > properties.jsonl` (long statements stay readable here)."""
import json
def p(id, title, st, over, text, why, files, mech, observe, state=(), hook=None):
    print(json.dumps(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook))))
IH = ["inputs", "histories"]

p("C01", "Bound places always show the latest data",
  "After every update, each bound text, attribute, flag attribute, conditional element and repeated list shows what the latest value prescribes, whatever the earlier values were. Values are taken to fit the template's structure (objects where it reads fields, arrays where it repeats; null or a missing key is allowed anywhere, any JSON is allowed where a value is used whole), and a place that has never received a non-null value may keep its initial placeholder text. A value that did not change the data causes no changes.",
  ["programs", "histories"], "every template, and every finite history of update values that fit its structure",
  "tests bind two hand-picked values in a row to flat models; nested lists, regrowing lists, nulls after non-nulls and whole-value arrays/objects are histories they never take",
  ["src/view_model.rs", "src/view.rs", "src/rendering.rs"],
  [("data diff: compare with the previous model, overwrite, react on each changed path", "src/view_model.rs: bind_value_state, react"),
   ("structure described by the template", "src/view_model.rs: memorize_array_default, Schema"),
   ("reactions applied to the tree", "src/view.rs: update_tree")],
  ["View::body text/attrs/children after View::update", "ViewModel::bind reactions"],
  [("model", "last bound value, per template structure", "ViewModel.model"), ("bindings", "path -> places", "ViewModel.bindings")])

p("C02", "No data can crash an update or break later ones",
  "For every template and every history of arbitrary JSON values, including values of the wrong kind, every update returns normally (no panic, no error, no hang). After any such history, a value that fits the template's structure is displayed correctly again.",
  ["programs", "histories"], "every template and every finite history of arbitrary JSON values",
  "the tests bind only well-formed values of the expected shape",
  ["src/view_model.rs", "src/view.rs", "src/value.rs"],
  [("total match over (model value, new value)", "src/view_model.rs: bind_value_state"), ("list window clamp", "src/view_model.rs: Binding::react_value_change"),
   ("bounds of the child window", "src/view.rs: update_tree Reaction::Repeat")],
  ["View::update returning Ok"], [("model", "keeps the template's structure whatever is bound", "ViewModel.model")])

p("C03", "Values convert to text, truth and counts by fixed rules",
  "A bound value is shown as text: null as empty, strings verbatim, numbers and booleans as their JSON text. It counts as true exactly when it is `true`, a non-zero number, a non-empty string or array, or any object; as an unsigned integer it is the truncated, saturated numeric value (0/1 for booleans, parsed decimal for strings, otherwise 0). A list reaction shows min(length, capacity) items and a condition is met exactly when the value's truth equals the condition's polarity.",
  ["inputs"], "every JSON value, every capacity and every start position of a list",
  "tests use a handful of strings and booleans; numbers like -0.0, 1e300, huge arrays or over-long lists are not sampled",
  ["src/value.rs", "src/view_model.rs"],
  [("conversions", "src/value.rs: ValueExtensions for Value"), ("reaction contents", "src/view_model.rs: Binding::react_value_change")],
  ["ValueExtensions::eval_*", "reactions returned by ViewModel::bind"])

p("C04", "Shown children keep document order",
  "After every update the shown children of an element are pairwise distinct and appear in document order: exactly the unconditional ones, the conditional ones whose condition holds, and the first items of each list. Showing, hiding, growing or shrinking in any order never displaces, duplicates or loses another child.",
  ["programs", "histories"], "every parent with any mix of plain, conditional and repeated children and every history of visibility and length changes",
  "tests check one or two orders of changes; the number of interleavings of shows, hides, grows and shrinks is unbounded",
  ["src/view.rs"], [("insertion index search and list window", "src/view.rs: update_tree Reaction::Reattach / Reaction::Repeat")],
  ["Fragment::children after View::update"], [("children", "all children in document order", "Element.children"), ("shown", "current children of the layout tree", "View.tree")])

p("C05", "Hover follows the pointer, and enter/leave events pair up",
  "After every update with a pointer move an element is hovered exactly when it is shown, visible, accepts pointer events and its box contains the pointer (left/top edge inclusive, right/bottom exclusive). Over any event history, each element's mouseenter and mouseleave messages strictly alternate starting with enter, mousemove is delivered exactly to the hovered elements, and the hover state equals having entered and not left.",
  IH, "every element tree with arbitrary geometry and every history of input events",
  "tests move the pointer along one path over two boxes",
  ["src/view_model.rs"], [("hit test", "src/view_model.rs: hovers, calculate_mouse_hovers"), ("diff of hovered sets", "src/view_model.rs: handle_elements_input MouseMove")],
  ["Output.messages", "Output.is_input_captured", ":hover styling"], [("elements_under_mouse", "hovered elements in tree order", "ViewModel.elements_under_mouse")])

p("C06", "Keyboard input goes to the single focused element",
  "At any moment at most one element is focused; pressing a button over elements that accept input focuses the first of them in document order (the outermost), pressing elsewhere leaves no focus, and nothing else changes focus. Over any event history onfocus and onblur messages pair up per element and match the focus state, and key and character events are delivered exactly once to the focused element and to nobody when there is none.",
  IH, "every tree with any nesting of input-accepting elements and every history of input events",
  "no existing test covers focus or keyboard delivery at all",
  ["src/view_model.rs"], [("focus transfer on press", "src/view_model.rs: handle_elements_input MouseButtonDown"), ("keyboard delivery", "src/view_model.rs: handle_elements_input KeyDown/KeyUp/Char")],
  ["Output.messages (onfocus, onblur, onkeydown, onkeyup, oninput)", ":focus styling"], [("focus", "the focused element", "ViewModel.focus")])

p("C07", "Clicks, presses and drags have a well-formed lifecycle",
  "A click is delivered exactly to the elements under the pointer that were pressed since the last release, when the left button is released and no drag was in progress; after any release no element is in the active state. Every drag start is followed by exactly one drag end on the dragged element, at the next release, right after at most one drop on the first accepting element under the pointer; drag enter/over/leave accompany the mouse events exactly while a drag is in progress.",
  IH, "every tree with any mix of draggable and accepting elements and every history of input events",
  "one test clicks once on one element; drags are untested",
  ["src/view_model.rs"], [("press bookkeeping", "src/view_model.rs: handle_elements_input MouseButtonDown/Up"), ("drag context", "src/view_model.rs: DragContext")],
  ["Output.messages", ":active styling", "Output.is_input_captured"], [("elements_in_action", "pressed elements", "ViewModel.elements_in_action"), ("drag", "dragged element", "ViewModel.drag")])

p("C08", "Messages carry the handler's arguments in order",
  "A handler with one argument produces the string of that argument; with two, an object mapping the first argument's text to the second; with more, an object mapping it to the array of the others in order. Keywords stand for themselves, the event argument for the event data, and a bound argument for the current data at its path passed through its transformers in order (arguments whose path holds no data are omitted; in the first place such an argument stands as the text Undefined). Exactly one message is produced per delivered event that has a handler.",
  ["programs", "inputs"], "every handler argument list, every data value and every event",
  "tests cover a keyword with at most one argument",
  ["src/view_model.rs"], [("argument evaluation and message construction", "src/view_model.rs: ViewModel::emit")],
  ["Output.messages"], [("output", "messages of the current update", "ViewModel.output")])

p("C09", "Selectors match as CSS defines",
  "A rule applies to an element exactly when one of its selectors matches: every part of the compound must hold for the element (type, id, one of the space separated classes, attribute operators, pseudo-class state), `>` continues with the parent and `+` with the immediately preceding shown sibling. `[a=v]`, `~=`, `|=`, `^=`, `$=`, `*=` compare as in CSS, with `|=` meaning equal to v or starting with v followed by a hyphen.",
  ["inputs", "programs"], "every element tree and every selector list built from the supported parts and the > and + combinators",
  "tests try a few class selectors; combinations of compound parts, combinators and tree positions are unbounded",
  ["src/css/matching.rs"], [("right to left matching", "src/css/matching.rs: match_complex_selector, find_next_target"), ("single parts", "src/css/matching.rs: match_simple_selector, match_class")],
  ["computed style of the elements after View::update"])

p("C10", "Rule pre-selection never changes what is displayed",
  "Splitting the style sheet at load time into always-applied, never-applied and per-update rules is invisible: after every update each element is styled exactly as if every rule were matched against the current tree, attributes and states. In particular a rule that depends on bound attributes, classes, ids or state of the element, of its ancestors, or of its siblings follows every change of them.",
  ["programs", "histories"], "every style sheet, every template and every history of data and input events",
  "tests use rules on the bound element itself; rules that depend on bound attributes elsewhere in the tree are not sampled",
  ["src/view.rs", "src/css/matching.rs", "src/rendering.rs"], [("static/dynamic classification", "src/view.rs: calculate_elements_stylesheet"), ("selector inspection", "src/css/matching.rs: Style::has_*"), ("dynamic hints", "src/rendering.rs: render_element style_hints")],
  ["computed style of the elements after View::update"], [("styles", "rules kept per element", "Element.styles")])

p("C11", "Shorthands expand to exactly their longhands",
  "A shorthand with 1 to 4 values sets exactly its longhands in the CSS order (top right bottom left; 1, 2, 3 or 4 values for widths, colors, padding, margin and radii; 1 or 4 for inset; 1 or 2 for overflow, gap (column first) and background position; width/style/color for borders; property duration timing delay for transitions; duration timing [delay|count] name for animations) and nothing else. Any other property with a single value sets exactly itself, an unsupported number of values sets nothing, and the position in a comma separated list is preserved.",
  ["inputs"], "every property, every list position, every number of values and every value",
  "tests cover two or three shorthands with distinct values; swapped sides with equal values go unnoticed",
  ["src/styles/compute_style.rs"], [("shorthand table", "src/styles/compute_style.rs: Cascade::compute_style")],
  ["computed style of the elements after View::update"])

p("C12", "Each property sets its own field, in the right unit",
  "Applying a property changes exactly the attribute it names, on the element and in the layout, and nothing else; a value of an unsupported kind or keyword changes nothing and does not affect other properties. Lengths resolve as px, em of the parent font size, rem of the root font size, vw/vh/vmin/vmax of the viewport, percentages stay relative, 0 and auto are accepted where CSS accepts them. An element shows the border of a side exactly when that side has a width.",
  ["inputs"], "every property, every value and every viewport and font size",
  "tests check a dozen properties at a single viewport size with px values",
  ["src/styles/apply.rs", "src/element.rs"], [("property table", "src/styles/apply.rs: Cascade::apply"), ("units", "src/styles/apply.rs: parse_dimension_length, resolve_*, lengthp, lengthp_auto, dimension, length"), ("indexed backgrounds", "src/element.rs: get_background_mut")],
  ["Element fields and layout style after View::update"])

p("C13", "Later and inline declarations win; variables resolve in scope",
  "For every property the last declaration in the order of the style sheet's matching rules wins, and inline declarations win over the sheet. A variable stands for the value most recently declared for it on the element or else its nearest ancestor, also inside functions and other variables; undefined or cyclic variables terminate and spoil only the declarations that use them.",
  ["programs", "inputs"], "every style sheet, nesting of elements and set of (also cyclic) variable definitions",
  "tests define one variable on one element",
  ["src/styles/mod.rs", "src/view.rs", "src/styles/compute_function.rs"], [("declaration order", "src/styles/mod.rs: Cascade::apply_styles, compute_declaration_block"), ("variable expansion", "src/styles/mod.rs: compute_shorthand, set_variable, get_variable"), ("inheritance of variables", "src/view.rs: apply_styles")],
  ["computed style of the elements after View::update"], [("variables", "definitions visible at this element", "Cascade.variables")])

p("C14", "Interpolated values stay between their end points",
  "For every progress between 0 and 1 an interpolated value has the kind and unit of its end points, lies between them, never moves back when progress grows, and equals the first end point at progress 0 and the second at 1. Values that cannot be interpolated switch from the first to the second at the middle.",
  ["inputs"], "every pair of values (numbers within 1e30) and every progress in [0, 1]",
  "tests look at one or two frames of a width transition",
  ["src/animation.rs"], [("interpolation", "src/animation.rs: animate, color, dimension, percentage, number")],
  ["element attributes during animations and transitions"])

p("C15", "Animation progress is a clock that stays within one cycle",
  "Progress is always between 0 and 1, computing it terminates for every duration, delay and iteration count, and there is none before the delay has passed. While running it advances by elapsed/duration within a cycle, a finite animation stays at the end of its last cycle forever, and a paused one does not move.",
  ["inputs", "histories"], "every non-negative duration and iteration count, every delay and every history of frame times",
  "tests step a transition at fixed frame times with delay 0",
  ["src/animation.rs"], [("clock", "src/animation.rs: Animator::update, restart")],
  ["element attributes during animations and transitions"], [("time", "elapsed seconds", "Animator.time")])

p("C16", "Animated properties are sampled between the surrounding key frames",
  "At every step an animated property takes the value interpolated between the nearest key frames at or before and at or after the current percentage, exactly a key frame's value at that key frame. A property missing in the first or last key frame takes the element's own value there (or the initial value), so every animated property is defined over the whole cycle, and properties not mentioned in any key frame are untouched.",
  ["inputs", "programs"], "every set of key frames with percentages between 0 and 100, every step, and every underlying style",
  "tests use two key frames for one property",
  ["src/animation.rs", "src/styles/compute_animation_tracks.rs"], [("bracketing search", "src/animation.rs: Animator::play_track"), ("track completion", "src/styles/compute_animation_tracks.rs: compute_animation_tracks")],
  ["element attributes during animations"])

p("C17", "Transitions run from the shown value to the new one and settle",
  "When a property with a transition changes, the displayed value starts at what was displayed before, stays there during the transition's delay, moves toward the new value within its duration, and equals the new value from then on; the first value ever applied is shown at once. A change in the middle of a transition continues from the value currently displayed, and playing a transition always terminates and touches only its own property.",
  ["histories", "inputs"], "every history of property values and frame times, and every duration and delay",
  "three tests sample one width transition at a few frame times",
  ["src/animation.rs", "src/styles/mod.rs"], [("retargeting", "src/animation.rs: Transition::play, init_after_style_applied"), ("lifetime", "src/styles/mod.rs: Cascade::apply_styles")],
  ["element attributes over consecutive updates"], [("ranges", "values the transition moves between, per layer", "Transition.ranges")])

p("C18", "Scroll offsets stay within the scrollable range",
  "An element scrolls exactly when its content is larger than its box in some direction; the scrollable range in each direction is the overflow, never negative, and the offset is always between 0 and the range, in particular after the content shrinks and after any sequence of wheel steps. Content that fits in a direction is never shifted in that direction.",
  ["inputs", "histories"], "every box and content size and every sequence of wheel inputs and relayouts",
  "no existing test covers scrolling",
  ["src/styles/scrolling.rs", "src/view.rs"], [("clamping", "src/styles/scrolling.rs: Scrolling::ensure, offset")],
  ["Element.scrolling after View::update"], [("scrolling", "offset and range", "Element.scrolling")])

p("C19", "Screen position, opacity and clipping compose down the tree",
  "After every update each shown element's position is the sum of the layout offsets of itself and its ancestors minus the scroll offsets of its scrolling ancestors (as they were before the wheel events of the update itself), and its size is its layout size. Its opacity is the product of its own and its ancestors' opacities, and it is clipped by the box of the nearest scrolling ancestor, by nothing if there is none.",
  ["inputs", "programs"], "every element tree with arbitrary layout offsets, opacities and overflow",
  "tests check positions one or two levels deep without scrolling",
  ["src/view.rs"], [("recursive composition", "src/view.rs: compute_final_positions_and_clipping")],
  ["Element.position, size, opacity, clipping"])

p("C20", "An element's look depends only on the styles that apply now",
  "Apart from running animations and transitions, an element's style after an update is a function of the rules that match now, its inline style and its parent's inheritable style: when a rule stops matching every attribute it set returns to the inherited or initial value. Colour, font family, size, style, weight, line height and pointer-events inherit; every other attribute starts from its initial value; text takes the inherited style of its element.",
  ["histories", "programs"], "every style sheet and every history of class, attribute and state changes",
  "tests add a class but rarely remove one, and look at one attribute",
  ["src/styles/default.rs", "src/styles/inherit.rs", "src/styles/mod.rs", "src/view.rs"], [("reset", "src/styles/default.rs: reset_element_style, default_layout"), ("inheritance", "src/styles/inherit.rs: inherit"), ("per update recomputation", "src/view.rs: apply_styles")],
  ["Element fields and layout style after View::update"])

p("C21", "Names in a template resolve to the data in their scope",
  "Inside a repeated element its variable stands for the item at the element's position, inside an element with aliases each alias stands for the data it names, and any other name for the top-level field; the innermost definition wins. Scopes end with their element: siblings and later content see the names exactly as before, also when a name shadows another or its own array. A link stands for the template it names.",
  ["programs"], "every nesting of repeats, aliases and template links with any reuse of names",
  "tests nest at most two levels with distinct names",
  ["src/rendering.rs", "src/view_model.rs"], [("scoping of names", "src/rendering.rs: render_element locals"), ("pointer construction", "src/view_model.rs: Binder::to_json_pointer, Schema::index, Schema::field, define_value")],
  ["bound texts and attributes after View::update"], [("locals", "name -> data path", "Renderer.locals")])

p("C22", "Text and attribute spans update independently",
  "A text or attribute made of static and bound parts always equals the concatenation of its parts in document order, with each bound part showing its own current value; changing one part leaves the others untouched, and a bound inline style takes effect exactly as if it were written in the document. An attribute bound as a flag is present (with its own name as value) exactly when its value is true. An image shows the source that its src attribute has now.",
  ["programs", "histories"], "every text or attribute with any number of static and bound parts and every history of values",
  "tests use a single bound part per text",
  ["src/element.rs", "src/rendering.rs", "src/view.rs"], [("span storage", "src/element.rs: TextContent"), ("span numbering", "src/rendering.rs: render_text, render_element"), ("application", "src/view.rs: update_tree Type/Bind/Tag"), ("images", "src/controls/img.rs: render_img, update_img_src; src/rendering.rs: render_bg_image")],
  ["Element.text, Element.attrs after View::update, Element.backgrounds of an image's child"])

p("C23", "Looking up an id finds the element that bears it now",
  "After every update, looking up an identifier borne by exactly one element (in its one id attribute, with text as its value) returns that element, and looking up an identifier that no element bears any more or ever returns nothing; static identifiers and identifiers bound to data that has arrived alike.",
  ["histories", "programs"], "every template with distinct static and bound ids and every history of id changes",
  "no existing test looks up an id after it changed",
  ["src/view.rs", "src/rendering.rs"], [("id index", "src/view.rs: get_element_by_id, update_tree Bind; src/rendering.rs: static_id")],
  ["View::get_element_by_id"], [("identified", "id -> element", "View.identified")])

p("C24", "Any text is accepted or rejected by the readers, never a crash",
  "Reading any character sequence as a document, a style sheet or an inline style returns either what was read or an error: it never panics or overflows the stack, and ends within a time that does not explode with the nesting of the text. Building a view of a document in which a template contains itself through links is an error.",
  ["inputs"], "every character sequence",
  "tests parse a few well-formed snippets",
  ["src/html/reader.rs", "src/css/reader.rs"], [("generated parsers and tree walks", "src/html/reader.rs, src/css/reader.rs")],
  ["View::from_html"])

p("C25", "Well-formed documents and sheets are read without loss",
  "Reading a well-formed document of the supported grammar yields its elements, attributes, bindings and texts in document order with the written names and values, however they are spaced (within a text, white space before its first character is dropped, a line break with the white space after it is one space, and at the end of an element nothing). Reading a well-formed style sheet yields its rules, selectors, declarations and key frames (steps in whole percent) in order, with the written numbers, units, colours and strings; a declaration of an unknown property is left out, the fallback of a variable is not kept.",
  ["inputs"], "every well-formed document and style sheet of the supported grammar",
  "tests parse a few snippets",
  ["src/html/reader.rs", "src/css/reader.rs", "src/css/model.rs"], [("generated parsers and tree walks", "src/html/reader.rs, src/css/reader.rs"), ("property and unit names", "src/css/model.rs: PropertyKey::parse, Units::parse")],
  ["View::from_html"])
