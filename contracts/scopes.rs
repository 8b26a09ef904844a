#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::prelude::View as _;
verus! {
// C21 (and C03, C08, C10, C22, C23): what a template is rendered to: bindings, handlers, identifiers and scopes of names
//@texts
//@include prelude.inc
//@include texts.inc
//@type TaffyTree<Element> => Tree
//@type HashMap<String, String> => Locals
//@type HashMap<String, TextContent> => Spans
//@type HashMap<String, Vec<NodeId>> => Ids
//@type HashMap<String, Handler> => Listeners
//@type HashMap<String, Html> => Templates
//@type Box<dyn RendererTranslator> => Translator
pub enum ViewError { TemplateNotFound(Text), Other }
#[verifier::external_body]
pub struct Declaration { x: u64 }
pub enum Dimension { Percent(f32) }
pub struct Size { pub width: Dimension, pub height: Dimension }
/// (other fields are not used here)
pub struct Layout { pub size: Size, pub min_size: Size }
//@item src/view_model.rs Binder
//@item src/view_model.rs BindingParams
//@item src/view_model.rs Binding
//@item src/html/reader.rs CallbackArgument
//@item src/html/reader.rs TextSpan
//@item src/html/reader.rs TextBinding
//@item src/html/reader.rs ElementBinding
//@item src/html/reader.rs Html
//@item src/element.rs TextContent
//@item src/element.rs HandlerArgument
//@item src/element.rs Handler
//@item src/element.rs ElementStyleHints
//@item src/element.rs Background keep image,is_src
//@item src/element.rs Element keep node,children,tag,text,attrs,attrs_bindings,backgrounds,listeners,style_hints,style
//@item src/rendering.rs Renderer
impl Clone for Html { #[verifier::external_body] fn clone(&self) -> (r: Html) ensures r == *self { unimplemented!() } }
impl Clone for ElementBinding { #[verifier::external_body] fn clone(&self) -> (r: ElementBinding) ensures r == *self { unimplemented!() } }
// ---- what is rendered ----
pub enum Arg { Word(Seq<char>), Event, Data(Seq<char>, Seq<Text>) }
/// a binding, with its transformers
pub ghost struct Bound { pub params: BindingParams, pub pipe: Seq<Text> }
/// what a background shows, and if that is the source of an image
pub ghost struct Image { pub image: Option<Seq<char>>, pub is_src: bool }
/// what a template gives to an element
pub ghost struct Face {
    pub node: NodeId, pub children: Seq<NodeId>, pub tag: Seq<char>, pub text: Option<Seq<Seq<char>>>, pub attrs: Map<Seq<char>, Seq<char>>, pub spans: Map<Seq<char>, Seq<Seq<char>>>,
    pub images: Seq<Image>, pub listeners: Map<Seq<char>, Seq<Arg>>, pub style: Seq<Declaration>, pub classes: bool, pub id: bool, pub dynamic: Set<Seq<char>>,
}
pub ghost struct Out {
    /// data path -> the bindings that it has
    pub binds: Map<Seq<char>, Seq<Bound>>,
    /// identifier -> the elements that have it from the template
    pub ids: Map<Seq<char>, Seq<NodeId>>,
    pub faces: Map<NodeId, Face>, pub kids: Map<NodeId, Seq<NodeId>>, pub n: nat,
}
pub open spec fn blank(node: NodeId) -> Face {
    Face { node, children: Seq::empty(), tag: Seq::empty(), text: None, attrs: Map::empty(), spans: Map::empty(), images: Seq::empty(), listeners: Map::empty(), style: Seq::empty(), classes: false, id: false, dynamic: Set::empty() }
}
pub open spec fn listed<T>(m: Map<Seq<char>, Seq<T>>, k: Seq<char>) -> Seq<T> { if m.contains_key(k) { m[k] } else { Seq::empty() } }
pub open spec fn bind(o: Out, path: Seq<char>, params: BindingParams, pipe: Seq<Text>) -> Out { Out { binds: o.binds.insert(path, listed(o.binds, path).push(Bound { params, pipe })), ..o } }
/// the n-th node that a tree makes: all are different (assumed of taffy)
pub uninterp spec fn number(n: nat) -> NodeId;
pub uninterp spec fn shown(b: Binder) -> Seq<char>;
pub uninterp spec fn translated(t: Translator, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn inline(s: Seq<char>) -> Option<Seq<Declaration>>;
/// the words with a '/' before each
pub open spec fn below(p: Seq<Text>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { below(p.drop_last()) + "/"@ + p.last()@ } }
pub type Names_ = Map<Seq<char>, Seq<char>>;
/// C21: the data that a name stands for here: what its first word stands for in scope or else the top-level field, and below it
pub open spec fn pointer(b: Binder, l: Names_) -> Seq<char> { (if l.contains_key(b.path@[0]@) { l[b.path@[0]@] } else { "/"@ + b.path@[0]@ }) + below(b.path@.subrange(1, b.path@.len() as int)) }
// ---- texts ----
pub open spec fn piece(s: TextSpan, t: Option<Translator>) -> Seq<char> { match s { TextSpan::String(x) => match t { Some(t) => translated(t, x@), None => x@ }, TextSpan::Binder(b) => shown(b) } }
pub open spec fn pieces(s: Seq<TextSpan>, t: Option<Translator>) -> Seq<Seq<char>> { s.map_values(|x: TextSpan| piece(x, t)) }
pub open spec fn place(node: NodeId, key: Option<Text>, i: int) -> BindingParams { match key { None => BindingParams::Text(node, i as usize), Some(k) => BindingParams::Attribute(node, k, i as usize) } }
pub open spec fn spans_bound(o: Out, s: Seq<TextSpan>, k: int, l: Names_, node: NodeId, key: Option<Text>) -> Out
    decreases k
{
    if k <= 0 || k > s.len() { o } else {
        let p = spans_bound(o, s, k - 1, l, node, key);
        match s[k - 1] { TextSpan::Binder(b) => bind(p, pointer(b, l), place(node, key, k - 1), b.pipe@), TextSpan::String(_) => p }
    }
}
pub open spec fn joined(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last() } }
// ---- the attributes of an element ----
pub ghost struct St { pub o: Out, pub f: Face }
pub open spec fn hinted(f: Face, key: Seq<char>) -> Face { Face { classes: f.classes || key == "class"@, id: f.id || key == "id"@, dynamic: f.dynamic.insert(key), ..f } }
pub open spec fn arg_of(a: CallbackArgument, l: Names_) -> Arg {
    match a { CallbackArgument::Keyword(k) => Arg::Word(k@), CallbackArgument::Event => Arg::Event, CallbackArgument::Binder(b) => Arg::Data(pointer(b, l), b.pipe@) }
}
pub open spec fn args_of(a: Seq<CallbackArgument>, l: Names_) -> Seq<Arg> { a.map_values(|x: CallbackArgument| arg_of(x, l)) }
pub open spec fn simple(t: TextBinding) -> Option<Text> { if t.spans@.len() == 1 { match t.spans@[0] { TextSpan::String(s) => Some(s), _ => None } } else { None } }
pub open spec fn own(s: St, b: ElementBinding, l: Names_) -> St {
    match b {
        ElementBinding::None(key, value) => St {
            o: if key@ == "id"@ { Out { ids: s.o.ids.insert(value@, listed(s.o.ids, value@).push(s.f.node)), ..s.o } } else { s.o },
            f: Face { attrs: s.f.attrs.insert(key@, value@), style: if key@ == "style"@ && inline(value@) is Some { inline(value@)->0 } else { s.f.style }, ..s.f },
        },
        ElementBinding::Tag(key, b) => St { o: bind(s.o, pointer(b, l), BindingParams::Tag(s.f.node, key), b.pipe@), f: hinted(s.f, key@) },
        ElementBinding::Attribute(key, t) => match simple(t) {
            Some(x) => St { o: s.o, f: Face { attrs: s.f.attrs.insert(key@, x@), ..s.f } },
            None => St {
                o: spans_bound(s.o, t.spans@, t.spans@.len() as int, l, s.f.node, Some(key)),
                f: hinted(Face { attrs: s.f.attrs.insert(key@, joined(pieces(t.spans@, None))), spans: s.f.spans.insert(key@, pieces(t.spans@, None)), ..s.f }, key@),
            },
        },
        ElementBinding::Callback(event, a) => St { o: s.o, f: Face { listeners: s.f.listeners.insert(event@, args_of(a@, l)), ..s.f } },
        _ => s,
    }
}
pub open spec fn owns(s: St, b: Seq<ElementBinding>, k: int, l: Names_) -> St decreases k { if k <= 0 || k > b.len() { s } else { own(owns(s, b, k - 1, l), b[k - 1], l) } }
// ---- scopes ----
/// an element's aliases, each in the scope of those before it
pub open spec fn scope(b: Seq<ElementBinding>, k: int, l: Names_) -> Names_
    decreases k
{
    if k <= 0 || k > b.len() { l } else { let p = scope(b, k - 1, l); match b[k - 1] { ElementBinding::Alias(name, b) => p.insert(name@, pointer(b, p)), _ => p } }
}
pub open spec fn vis(b: ElementBinding) -> Option<(bool, Binder)> { match b { ElementBinding::Visibility(v, b) => Some((v, b)), _ => None } }
pub open spec fn rep(b: ElementBinding) -> Option<(Seq<char>, usize, Binder)> { match b { ElementBinding::Repeat(n, c, b) => Some((n@, c, b)), _ => None } }
/// the first of them
pub open spec fn visibility(b: Seq<ElementBinding>) -> Option<(bool, Binder)> decreases b.len() { if b.len() == 0 { None } else { match visibility(b.drop_last()) { Some(x) => Some(x), None => vis(b.last()) } } }
pub open spec fn repeated(b: Seq<ElementBinding>) -> Option<(Seq<char>, usize, Binder)> decreases b.len() { if b.len() == 0 { None } else { match repeated(b.drop_last()) { Some(x) => Some(x), None => rep(b.last()) } } }
// ---- links to templates ----
pub open spec fn href(b: ElementBinding) -> Option<Seq<char>> { match b { ElementBinding::None(k, v) => if k@ == "href"@ { Some(v@) } else { None }, _ => None } }
pub open spec fn last_href(b: Seq<ElementBinding>) -> Option<Seq<char>> decreases b.len() { if b.len() == 0 { None } else { match href(b.last()) { Some(x) => Some(x), None => last_href(b.drop_last()) } } }
pub open spec fn without_href(b: Seq<ElementBinding>) -> Seq<ElementBinding> decreases b.len() { if b.len() == 0 { Seq::empty() } else { let r = without_href(b.drop_last()); if href(b.last()) is Some { r } else { r.push(b.last()) } } }
pub open spec fn link(h: Html) -> Option<Seq<char>> { if h.tag@ == "link"@ { last_href(h.bindings@) } else { None } }
pub type Temps = Map<Seq<char>, Html>;
pub ghost struct Node { pub tag: Text, pub bindings: Seq<ElementBinding>, pub text: Option<TextBinding>, pub children: Seq<Html> }
pub open spec fn node_of(h: Html) -> Node { Node { tag: h.tag, bindings: h.bindings@, text: h.text, children: h.children@ } }
/// a link is replaced with the template it names, which takes its attributes before its own
pub open spec fn resolved(h: Html, t: Temps) -> Node {
    match link(h) { Some(id) => { let x = t[id]; Node { tag: x.tag, bindings: without_href(h.bindings@) + x.bindings@, text: x.text, children: x.children@ } }, None => node_of(h) }
}
pub open spec fn linked(h: Html, t: Temps) -> bool { link(h) is Some && t.contains_key(link(h)->0) }
/// what can be linked to inside: all but the template itself, so that links come to an end
pub open spec fn inside(h: Html, t: Temps) -> Temps { match link(h) { Some(id) => t.remove(id), None => t } }
// ---- rendering ----
pub open spec fn void(tag: Seq<char>) -> bool {
    tag == "input"@ || tag == "area"@ || tag == "base"@ || tag == "br"@ || tag == "col"@ || tag == "command"@ || tag == "embed"@ || tag == "hr"@ || tag == "keygen"@ || tag == "link"@
    || tag == "meta"@ || tag == "param"@ || tag == "source"@ || tag == "track"@ || tag == "wbr"@
}
pub open spec fn leaf(o: Out) -> Out { Out { n: o.n + 1, ..o } }
pub ghost struct Row { pub parent: NodeId, pub o: Out, pub children: Seq<NodeId> }
pub open spec fn text_rendered(x: TextBinding, l: Names_, tr: Translator, o: Out) -> Out {
    let node = number(o.n);
    let p = spans_bound(leaf(o), x.spans@, x.spans@.len() as int, l, node, None);
    Out { faces: p.faces.insert(node, Face { text: Some(pieces(x.spans@, Some(tr))), ..blank(node) }), ..p }
}
/// C22: an image has one child, that shows the source of the image's src
pub open spec fn background(o: Out, parent: NodeId, src: Seq<char>) -> Row {
    Row { parent, o: Out { faces: o.faces.insert(number(o.n), Face { images: seq![Image { image: Some(src), is_src: true }], ..blank(number(o.n)) }), ..leaf(o) }, children: seq![number(o.n)] }
}
pub open spec fn src_of(f: Face) -> Seq<char> { if f.attrs.contains_key("src"@) { f.attrs["src"@] } else { Seq::empty() } }
pub open spec fn closed(s: St, r: Row) -> Out {
    Out { faces: r.o.faces.insert(s.f.node, Face { children: r.children, ..s.f }), kids: r.o.kids.insert(s.f.node, r.children), ..r.o }
}
pub open spec fn st(o: Out, f: Face) -> St { St { o, f } }
pub open spec fn rw(parent: NodeId, o: Out, children: Seq<NodeId>) -> Row { Row { parent, o, children } }
pub open spec fn start(h: Node, o: Out) -> St { St { o: leaf(o), f: Face { tag: h.tag@, ..blank(number(o.n)) } } }
pub open spec fn opened(h: Node, l: Names_, o: Out) -> St { owns(start(h, o), h.bindings, h.bindings.len() as int, l) }
/// what a part of a template becomes where the names l are in scope
pub open spec fn rendered(h: Node, l: Names_, t: Temps, tr: Translator, o: Out) -> Out
    decreases t.len(), h.children, 1int, 0int
{
    if h.text is Some { text_rendered(h.text->0, l, tr, o) } else {
        let s = opened(h, l, o);
        let r = if h.tag@ == "img"@ { background(s.o, s.f.node, src_of(s.f)) } else if void(h.tag@) { Row { parent: s.f.node, o: s.o, children: Seq::empty() } } else { row(h.children, s.f.node, l, t, tr, s.o) };
        closed(s, r)
    }
}
pub open spec fn row(s: Seq<Html>, parent: NodeId, l: Names_, t: Temps, tr: Translator, o: Out) -> Row
    decreases t.len(), s, 0int, 0int
{
    if s.len() == 0 { Row { parent, o, children: Seq::empty() } } else { one_child(s.last(), l, t, tr, row(s.drop_last(), parent, l, t, tr, o)) }
}
pub open spec fn one_child(h: Html, l: Names_, t: Temps, tr: Translator, r: Row) -> Row
    decreases (if linked(h, t) { inside(h, t).len() } else { t.len() }), (if linked(h, t) { t[link(h)->0].children@ } else { h.children@ }), 3int, 0int
{
    let c = resolved(h, t);
    if link(h) is Some && !t.contains_key(link(h)->0) { r } else {
        let l1 = scope(c.bindings, c.bindings.len() as int, l);
        match visibility(c.bindings) {
            Some((v, b)) => {
                let node = number(r.o.n);
                Row { o: bind(rendered(c, l1, inside(h, t), tr, r.o), pointer(b, l1), BindingParams::Visibility(r.parent, node, v), b.pipe@), children: r.children.push(node), ..r }
            },
            None => match repeated(c.bindings) {
                Some((name, count, b)) => items(c, name, pointer(b, l1), count as int, l1, inside(h, t), tr, Row { o: bind(r.o, pointer(b, l1), BindingParams::Repeat(r.parent, r.children.len() as usize, count), b.pipe@), ..r }),
                None => Row { o: rendered(c, l1, inside(h, t), tr, r.o), children: r.children.push(number(r.o.n)), ..r },
            },
        }
    }
}
/// the elements that show the items of a list, each in a scope where the name stands for its item
pub open spec fn items(c: Node, name: Seq<char>, path: Seq<char>, k: int, l: Names_, t: Temps, tr: Translator, r: Row) -> Row
    decreases t.len(), c.children, 2int, k
{
    if k <= 0 { r } else {
        let p = items(c, name, path, k - 1, l, t, tr, r);
        Row { o: rendered(c, l.insert(name, path + "/"@ + digits(k - 1)), t, tr, p.o), children: p.children.push(number(p.o.n)), ..p }
    }
}
/// any order of decimal digits
pub uninterp spec fn digits(n: int) -> Seq<char>;
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { digits(*self as int) } #[verifier::external_body] fn vx_show(&self) -> (r: Text) { unimplemented!() } }
// ---- assumed contracts: the standard library's maps, taffy's tree, translation, inline styles ----
pub open spec fn chars(s: Seq<Text>) -> Seq<Seq<char>> { s.map_values(|x: Text| x@) }
#[verifier::external_body]
pub struct Locals { x: u64 }
impl Locals {
    pub uninterp spec fn map(&self) -> Names_;
    #[verifier::external_body]
    pub fn new() -> (r: Locals) ensures r.map() == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Text) -> (r: Option<&Text>) ensures match r { Some(v) => self.map().contains_key(k@) && v@ == self.map()[k@], None => !self.map().contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: Text) -> (r: Option<Text>)
        ensures final(self).map() == old(self).map().insert(k@, v@), opt(old(self).map(), k@) == text_opt(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Text) -> (r: Option<Text>) ensures final(self).map() == old(self).map().remove(k@), opt(old(self).map(), k@) == text_opt(r) { unimplemented!() }
}
impl Clone for Locals { #[verifier::external_body] fn clone(&self) -> (r: Locals) ensures r == *self { unimplemented!() } }
impl Default for Locals { #[verifier::external_body] fn default() -> (r: Locals) ensures r.map() == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() } }
pub open spec fn opt(m: Names_, k: Seq<char>) -> Option<Seq<char>> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn text_opt(x: Option<Text>) -> Option<Seq<char>> { match x { Some(x) => Some(x@), None => None } }
/// HashMap<String, Option<String>>: what names stood for before
#[verifier::external_body]
pub struct Shadowed { x: u64 }
impl Shadowed {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, Option<Seq<char>>>;
    #[verifier::external_body]
    pub fn new() -> (r: Shadowed) ensures r.map() == Map::<Seq<char>, Option<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or(&mut self, k: Text, v: Option<Text>)
        ensures final(self).map() == if old(self).map().contains_key(k@) { old(self).map() } else { old(self).map().insert(k@, text_opt(v)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: Option<Text>) -> (r: Option<Option<Text>>)
        ensures final(self).map() == old(self).map().insert(k@, text_opt(v))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pairs(self) -> (r: Vec<(Text, Option<Text>)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.map().contains_key((#[trigger] r@[i]).0@) && self.map()[r@[i].0@] == text_opt(r@[i].1),
            forall|k: Seq<char>| #[trigger] self.map().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i].0@ != r@[j].0@,
    { unimplemented!() }
}
pub open spec fn bound(b: Binding) -> Bound { Bound { params: b.params, pipe: b.pipe@ } }
pub open spec fn bounds(s: Seq<Binding>) -> Seq<Bound> { s.map_values(|b: Binding| bound(b)) }
#[verifier::external_body]
pub struct Bindings { x: u64 }
impl Bindings {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, Seq<Bound>>;
    #[verifier::external_body]
    pub fn new() -> (r: Bindings) ensures r.map() == Map::<Seq<char>, Seq<Bound>>::empty() { unimplemented!() }
    /// `entry(k).or_default()`
    #[verifier::external_body]
    pub fn vx_entry(&mut self, k: Text) -> (r: &mut Vec<Binding>)
        ensures bounds(r@) == listed(old(self).map(), k@), final(self).map() == old(self).map().insert(k@, bounds(final(r)@))
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Ids { x: u64 }
impl Ids {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, Seq<NodeId>>;
    #[verifier::external_body]
    pub fn new() -> (r: Ids) ensures r.map() == Map::<Seq<char>, Seq<NodeId>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry(&mut self, k: Text) -> (r: &mut Vec<NodeId>)
        ensures r@ == listed(old(self).map(), k@), final(self).map() == old(self).map().insert(k@, final(r)@)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Spans { x: u64 }
impl Spans {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, Seq<Seq<char>>>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: TextContent) -> (r: Option<TextContent>) ensures final(self).map() == old(self).map().insert(k@, chars(v.spans@)) { unimplemented!() }
}
impl Default for Spans { #[verifier::external_body] fn default() -> (r: Spans) ensures r.map() == Map::<Seq<char>, Seq<Seq<char>>>::empty() { unimplemented!() } }
pub open spec fn as_arg(a: HandlerArgument) -> Arg { match a { HandlerArgument::Keyword(k) => Arg::Word(k@), HandlerArgument::Event => Arg::Event, HandlerArgument::Binder { path, pipe } => Arg::Data(path@, pipe@) } }
pub open spec fn as_args(a: Seq<HandlerArgument>) -> Seq<Arg> { a.map_values(|x: HandlerArgument| as_arg(x)) }
#[verifier::external_body]
pub struct Listeners { x: u64 }
impl Listeners {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, Seq<Arg>>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: Handler) -> (r: Option<Handler>) ensures final(self).map() == old(self).map().insert(k@, as_args(v.arguments@)) { unimplemented!() }
}
impl Default for Listeners { #[verifier::external_body] fn default() -> (r: Listeners) ensures r.map() == Map::<Seq<char>, Seq<Arg>>::empty() { unimplemented!() } }
#[verifier::external_body]
pub struct Templates { x: u64 }
impl Templates {
    pub uninterp spec fn map(&self) -> Temps;
    #[verifier::external_body]
    pub fn get(&self, k: &Text) -> (r: Option<&Html>) ensures match r { Some(v) => self.map().contains_key(k@) && *v == self.map()[k@], None => !self.map().contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(&mut self, k: &Text) -> (r: Option<(Text, Html)>)
        ensures match r { Some(x) => old(self).map().contains_key(k@) && x.0@ == k@ && x.1 == old(self).map()[k@] && final(self).map() == old(self).map().remove(k@), None => !old(self).map().contains_key(k@) && final(self).map() == old(self).map() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: Html) -> (r: Option<Html>) ensures final(self).map() == old(self).map().insert(k@, v) { unimplemented!() }
}
pub open spec fn as_image(b: Background) -> Image { Image { image: text_opt(b.image), is_src: b.is_src } }
pub open spec fn images(s: Seq<Background>) -> Seq<Image> { s.map_values(|b: Background| as_image(b)) }
pub open spec fn face(e: Element) -> Face {
    Face {
        node: e.node, children: e.children@, tag: e.tag@, text: match e.text { Some(t) => Some(chars(t.spans@)), None => None }, attrs: e.attrs.map(), spans: e.attrs_bindings.map(),
        images: images(e.backgrounds@), listeners: e.listeners.map(), style: e.style@, classes: e.style_hints.has_dynamic_classes, id: e.style_hints.has_dynamic_id, dynamic: e.style_hints.dynamic_attrs.set(),
    }
}
#[verifier::external_body]
pub struct Tree { x: u64 }
impl Tree {
    #[verifier::external_body]
    pub fn new() -> (r: Tree) ensures r.faces() == Map::<NodeId, Face>::empty(), r.kids() == Map::<NodeId, Seq<NodeId>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_child(&mut self, n: NodeId, c: NodeId) -> (r: Result<(), ViewError>)
        ensures final(self).count() == old(self).count(), final(self).faces() == old(self).faces(),
            r is Ok ==> final(self).kids() == old(self).kids().insert(n, (if old(self).kids().contains_key(n) { old(self).kids()[n] } else { Seq::empty() }).push(c))
    { unimplemented!() }
    pub uninterp spec fn count(&self) -> nat;
    pub uninterp spec fn faces(&self) -> Map<NodeId, Face>;
    pub uninterp spec fn kids(&self) -> Map<NodeId, Seq<NodeId>>;
    #[verifier::external_body]
    pub fn new_leaf(&mut self, l: Layout) -> (r: Result<NodeId, ViewError>)
        ensures r is Ok ==> r->Ok_0 == number(old(self).count()), final(self).count() == old(self).count() + 1, final(self).faces() == old(self).faces(), final(self).kids() == old(self).kids()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_node_context(&mut self, n: NodeId, e: Option<Element>) -> (r: Result<(), ViewError>)
        ensures final(self).count() == old(self).count(), final(self).kids() == old(self).kids(), e is Some && r is Ok ==> final(self).faces() == old(self).faces().insert(n, face(e->0))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_children(&mut self, n: NodeId, c: &Vec<NodeId>) -> (r: Result<(), ViewError>)
        ensures final(self).count() == old(self).count(), final(self).faces() == old(self).faces(), r is Ok ==> final(self).kids() == old(self).kids().insert(n, c@)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Translator { x: u64 }
impl Translator { #[verifier::external_body] pub fn translate(&self, s: Text) -> (r: Text) ensures r@ == translated(*self, s@) { unimplemented!() } }
#[verifier::external_body]
pub fn default_layout() -> Layout { unimplemented!() }
#[verifier::external_body]
pub fn read_inline_css(s: &Text) -> (r: Result<Vec<Declaration>, ()>) ensures match r { Ok(d) => inline(s@) == Some(d@), Err(_) => inline(s@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_joined(s: &Vec<Text>) -> (r: Text) ensures r@ == joined(chars(s@)) { unimplemented!() }
/// words.join("/"), with a '/' before each
pub trait Joins { spec fn words(&self) -> Seq<Text>; fn join(&self, sep: &Text) -> (r: Text) ensures self.words().len() > 0 && sep@ == "/"@ ==> "/"@ + r@ == below(self.words()); }
impl Joins for [Text] { open spec fn words(&self) -> Seq<Text> { self@ } #[verifier::external_body] fn join(&self, sep: &Text) -> Text { unimplemented!() } }
#[verifier::external_body]
pub fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_extend_one<T>(v: &mut Vec<T>, w: [T; 1]) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
impl Default for Names { #[verifier::external_body] fn default() -> (r: Names) ensures r.set() == Set::<Seq<char>>::empty() { unimplemented!() } }
//@default src/element.rs ElementStyleHints
    ensures r.dynamic_attrs.set() == Set::<Seq<char>>::empty(), !r.has_dynamic_classes, !r.has_dynamic_id,
//@end
//@fn src/styles/default.rs create_element
//@ret r
    ensures face(r) == blank(node),
//@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(images(Seq::<Background>::empty()) =~= Seq::empty()); }
//@end
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut() -> T>[Vec::<T, A>::resize_with](v: &mut Vec<T, A>, n: usize, f: F)
    requires call_requires(f, ()),
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> if i < old(v)@.len() { final(v)@[i] == old(v)@[i] } else { call_ensures(f, (), #[trigger] final(v)@[i]) };
impl Default for Background {
//@fn src/element.rs Default for Background::default
//@ret r
    ensures as_image(r) == (Image { image: None, is_src: false }),
//@end
}
impl Element {
//@fn src/element.rs Element::get_background_mut
//@ret r
    requires index < usize::MAX,
    ensures
        if index < old(self).backgrounds@.len() { *r == old(self).backgrounds@[index as int] } else { as_image(*r) == (Image { image: None, is_src: false }) },
        final(self).backgrounds@.len() == if index < old(self).backgrounds@.len() { old(self).backgrounds@.len() } else { (index + 1) as nat },
        forall|i: int| 0 <= i < final(self).backgrounds@.len() && i != index ==> #[trigger] final(self).backgrounds@[i] == old(self).backgrounds@[i] || i >= old(self).backgrounds@.len(),
        final(self).backgrounds@[index as int] == *final(r),
        *final(self) == (Element { backgrounds: final(self).backgrounds, ..*old(self) }),
//@end
}
impl TextContent {
//@fn src/element.rs TextContent::new
//@ret r
    ensures r.spans == spans,
//@end
//@fn src/element.rs TextContent::to_string
//@rewrite self.spans.join("") => vx_joined(&self.spans)
//@ret r
    ensures r@ == joined(chars(self.spans@)),
//@end
}
impl TextBinding {
//@fn src/html/reader.rs TextBinding::as_simple_text
//@ret r
    ensures r == simple(*self),
//@end
}
impl Html {
//@fn src/html/reader.rs Html::as_template_link
//@ret r
    ensures match r { Some(x) => link(*self) == Some(x.0@) && x.1@ == without_href(self.bindings@), None => link(*self) is None },
//@loop 0
    invariant
        *__vx_c0 == self.bindings, __vx_i0 <= __vx_c0@.len(),
        bindings@ == without_href(__vx_c0@.take(__vx_i0 as int)), text_opt(id) == last_href(__vx_c0@.take(__vx_i0 as int)),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    proof { assert(__vx_c0@.take(__vx_i0 + 1).drop_last() =~= __vx_c0@.take(__vx_i0 as int)); }
//@loop 0 after
    proof { assert(self.bindings@.take(self.bindings@.len() as int) =~= self.bindings@); }
//@end
//@fn src/html/reader.rs Html::as_visibility
//@ret r
    ensures match r { Some(x) => visibility(self.bindings@) == Some((x.0, *x.1)), None => visibility(self.bindings@) is None },
//@loop 0
    invariant *__vx_c0 == self.bindings, __vx_i0 <= __vx_c0@.len(), visibility(__vx_c0@.take(__vx_i0 as int)) is None,
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    proof { assert(__vx_c0@.take(__vx_i0 + 1).drop_last() =~= __vx_c0@.take(__vx_i0 as int)); seen_first(__vx_c0@, __vx_i0 + 1); }
//@loop 0 after
    proof { assert(self.bindings@.take(self.bindings@.len() as int) =~= self.bindings@); }
//@end
//@fn src/html/reader.rs Html::as_repeat
//@ret r
    ensures match r { Some(x) => repeated(self.bindings@) == Some((x.0@, x.1, *x.2)), None => repeated(self.bindings@) is None },
//@loop 0
    invariant *__vx_c0 == self.bindings, __vx_i0 <= __vx_c0@.len(), repeated(__vx_c0@.take(__vx_i0 as int)) is None,
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    proof { assert(__vx_c0@.take(__vx_i0 + 1).drop_last() =~= __vx_c0@.take(__vx_i0 as int)); seen_first(__vx_c0@, __vx_i0 + 1); }
//@loop 0 after
    proof { assert(self.bindings@.take(self.bindings@.len() as int) =~= self.bindings@); }
//@end
}
proof fn seen_first(b: Seq<ElementBinding>, k: int)
    requires 0 <= k <= b.len()
    ensures visibility(b.take(k)) is Some ==> visibility(b) == visibility(b.take(k)), repeated(b.take(k)) is Some ==> repeated(b) == repeated(b.take(k))
    decreases b.len()
{
    if k == b.len() { assert(b.take(k) =~= b); } else { assert(b.drop_last().take(k) =~= b.take(k)); seen_first(b.drop_last(), k); }
}
impl Binder {
//@fn src/view_model.rs Binder::to_json_pointer
//@ret r
    requires self.path@.len() > 0
    ensures r@ == pointer(*self, locals.map()),
//@end
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Text) ensures r@ == shown(*self) { unimplemented!() }
}
pub struct Schema { pub x: u64 }
impl Schema {
    #[verifier::external_body]
    pub fn new() -> Schema { unimplemented!() }
    /// (keeps what is bound in the model's structure)
    #[verifier::external_body]
    pub fn define_value(value: &mut u64, pointer: &Text) { unimplemented!() }
//@fn src/view_model.rs Schema::index
//@rewrite self.value => self.x
//@ret r
    requires binder.path@.len() > 0
    ensures r@ == pointer(*binder, locals.map()) + "/"@ + digits(i as int),
//@end
//@fn src/view_model.rs Schema::field
//@rewrite self.value => self.x
//@ret r
    requires binder.path@.len() > 0
    ensures r@ == pointer(*binder, locals.map()),
//@end
}
pub open spec fn out(r: Renderer) -> Out { Out { binds: r.bindings.map(), ids: r.static_id.map(), faces: r.tree.faces(), kids: r.tree.kids(), n: r.tree.count() } }
// ---- templates as the parser makes them: every name has at least one word ----
pub open spec fn named(b: Binder) -> bool { b.path@.len() > 0 }
pub open spec fn span_named(s: TextSpan) -> bool { match s { TextSpan::Binder(b) => named(b), _ => true } }
pub open spec fn spans_named(s: Seq<TextSpan>) -> bool { forall|i: int| 0 <= i < s.len() ==> span_named(#[trigger] s[i]) }
pub open spec fn arg_named(a: CallbackArgument) -> bool { match a { CallbackArgument::Binder(b) => named(b), _ => true } }
pub open spec fn args_named(s: Seq<CallbackArgument>) -> bool { forall|i: int| 0 <= i < s.len() ==> arg_named(#[trigger] s[i]) }
pub open spec fn own_named(b: ElementBinding) -> bool {
    match b {
        ElementBinding::None(_, _) => true, ElementBinding::Alias(_, b) => named(b), ElementBinding::Tag(_, b) => named(b), ElementBinding::Attribute(_, t) => spans_named(t.spans@),
        ElementBinding::Repeat(_, _, b) => named(b), ElementBinding::Callback(_, a) => args_named(a@), ElementBinding::Visibility(_, b) => named(b),
    }
}
pub open spec fn owns_named(b: Seq<ElementBinding>) -> bool { forall|i: int| 0 <= i < b.len() ==> own_named(#[trigger] b[i]) }
pub open spec fn all_named(s: Seq<Html>) -> bool
    decreases s
{
    s.len() == 0 || (all_named(s.drop_last()) && owns_named(s.last().bindings@) && (s.last().text is Some ==> spans_named(s.last().text->0.spans@)) && all_named(s.last().children@))
}
pub open spec fn html_named(h: Html) -> bool { owns_named(h.bindings@) && (h.text is Some ==> spans_named(h.text->0.spans@)) && all_named(h.children@) }
pub open spec fn temps_named(t: Temps) -> bool { forall|id: Seq<char>| #[trigger] t.contains_key(id) ==> html_named(t[id]) }
proof fn child_named(s: Seq<Html>, i: int)
    requires all_named(s), 0 <= i < s.len()
    ensures html_named(s[i])
    decreases s.len()
{
    if i < s.len() - 1 { child_named(s.drop_last(), i); }
}
proof fn href_named(b: Seq<ElementBinding>)
    requires owns_named(b)
    ensures owns_named(without_href(b))
    decreases b.len()
{
    if b.len() > 0 { assert forall|i: int| 0 <= i < b.len() - 1 implies own_named(#[trigger] b.drop_last()[i]) by { assert(own_named(b[i])); } assert(own_named(b[b.len() - 1])); href_named(b.drop_last()); }
}
proof fn first_named(b: Seq<ElementBinding>)
    requires owns_named(b)
    ensures visibility(b) is Some ==> named((visibility(b)->0).1), repeated(b) is Some ==> named((repeated(b)->0).2)
    decreases b.len()
{
    if b.len() > 0 { assert forall|i: int| 0 <= i < b.len() - 1 implies own_named(#[trigger] b.drop_last()[i]) by { assert(own_named(b[i])); } assert(own_named(b[b.len() - 1])); first_named(b.drop_last()); }
}
pub broadcast proof fn bounds_push(s: Seq<Binding>, b: Binding) ensures #[trigger] bounds(s.push(b)) == bounds(s).push(bound(b)) { assert(bounds(s.push(b)) =~= bounds(s).push(bound(b))); }
pub broadcast proof fn chars_push(s: Seq<Text>, b: Text) ensures #[trigger] chars(s.push(b)) == chars(s).push(b@) { assert(chars(s.push(b)) =~= chars(s).push(b@)); }
pub broadcast proof fn args_push(s: Seq<HandlerArgument>, b: HandlerArgument) ensures #[trigger] as_args(s.push(b)) == as_args(s).push(as_arg(b)) { assert(as_args(s.push(b)) =~= as_args(s).push(as_arg(b))); }
proof fn one_more<T>(s: Seq<T>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1) == s.take(k).push(s[k]) { assert(s.take(k + 1) =~= s.take(k).push(s[k])); }
// ---- scopes begin and end ----
/// what names stood for before the element's aliases
pub open spec fn shadows(m: Map<Seq<char>, Option<Seq<char>>>, now: Names_, before: Names_) -> bool {
    forall|k: Seq<char>| #![trigger m.contains_key(k)] #![trigger opt(now, k)] if m.contains_key(k) { m[k] == opt(before, k) } else { opt(now, k) == opt(before, k) }
}
pub open spec fn unrestored(p: Seq<(Text, Option<Text>)>, i: int, k: Seq<char>) -> bool { exists|j: int| i <= j < p.len() && (#[trigger] p[j]).0@ == k }
pub open spec fn restoring(p: Seq<(Text, Option<Text>)>, i: int, now: Names_, before: Names_) -> bool { forall|k: Seq<char>| unrestored(p, i, k) || #[trigger] opt(now, k) == opt(before, k) }
proof fn restored_one(p: Seq<(Text, Option<Text>)>, i: int, now: Names_, before: Names_)
    requires 0 <= i < p.len(), restoring(p, i, now, before)
    ensures
        opt(before, p[i].0@) is Some ==> restoring(p, i + 1, now.insert(p[i].0@, opt(before, p[i].0@)->0), before),
        opt(before, p[i].0@) is None ==> restoring(p, i + 1, now.remove(p[i].0@), before),
{
    let key = p[i].0@;
    let next = if opt(before, key) is Some { now.insert(key, opt(before, key)->0) } else { now.remove(key) };
    assert forall|k: Seq<char>| unrestored(p, i + 1, k) || #[trigger] opt(next, k) == opt(before, k) by {
        if k != key {
            assert(opt(next, k) == opt(now, k));
            if unrestored(p, i, k) { let j = choose|j: int| i <= j < p.len() && (#[trigger] p[j]).0@ == k; assert(p[j].0@ == k); }
        }
    }
}
proof fn all_restored(p: Seq<(Text, Option<Text>)>, now: Names_, before: Names_)
    requires restoring(p, p.len() as int, now, before)
    ensures now == before
{
    assert forall|k: Seq<char>| #![trigger now.contains_key(k)] #![trigger before.contains_key(k)] #![trigger now[k]] #![trigger before[k]] now.contains_key(k) == before.contains_key(k) && (now.contains_key(k) ==> now[k] == before[k]) by { assert(!unrestored(p, p.len() as int, k)); assert(opt(now, k) == opt(before, k)); }
    assert(now =~= before);
}
proof fn renamed(a: Names_, b: Names_, n: Seq<char>)
    requires a.remove(n) == b.remove(n)
    ensures b.contains_key(n) ==> a.insert(n, b[n]) == b, !b.contains_key(n) ==> a.remove(n) == b, forall|v: Seq<char>| #[trigger] a.insert(n, v) == b.insert(n, v)
{
    let (x, y) = (a.remove(n), b.remove(n));
    assert forall|k: Seq<char>| k != n implies a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k]) by { assert(x.contains_key(k) == y.contains_key(k)); if a.contains_key(k) { assert(x[k] == y[k]); } }
    if b.contains_key(n) { assert(a.insert(n, b[n]) =~= b); } else { assert(a.remove(n) =~= b); }
    assert forall|v: Seq<char>| #[trigger] a.insert(n, v) == b.insert(n, v) by { assert(a.insert(n, v) =~= b.insert(n, v)); }
}
/// everything but what rendering adds
pub open spec fn fixed(a: Renderer, b: Renderer) -> bool { b.templates.map() == a.templates.map() && b.translator == a.translator && b.locals.map() == a.locals.map() }
/// the template that is not available inside itself, to be put back
pub open spec fn restores(x: Option<(Text, Html)>, source: Html, t: Temps) -> bool {
    match x { Some(x) => link(source) == Some(x.0@) && t.contains_key(x.0@) && t[x.0@] == x.1 && inside(source, t).insert(x.0@, x.1) == t, None => link(source) is None }
}
pub open spec fn ready(r: Renderer) -> bool { temps_named(r.templates.map()) }
impl Renderer {
//@fn src/rendering.rs Renderer::render_text
//@ret r
    requires spans_named(text.spans@),
    ensures r is Ok ==> r->Ok_0 == number(out(*old(self)).n) && fixed(*old(self), *final(self)) && out(*final(self)) == text_rendered(text, old(self).locals.map(), old(self).translator, out(*old(self))),
//@loop 0
    invariant
        __vx_c0 == text.spans, __vx_i0 <= __vx_c0@.len(), spans_named(text.spans@), fixed(*old(self), *self),
        chars(__vx_r0@) == pieces(text.spans@, Some(old(self).translator)).take(__vx_i0 as int),
        out(*self) == spans_bound(leaf(out(*old(self))), text.spans@, __vx_i0 as int, old(self).locals.map(), node, None),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    broadcast use {bounds_push, chars_push};
    proof { one_more(pieces(text.spans@, Some(old(self).translator)), __vx_i0 as int); }
//@loop 0 after
    proof { assert(chars(__vx_r0@) =~= pieces(text.spans@, Some(old(self).translator))); }
//@end
//@fn src/rendering.rs Renderer::render_bg_image
//@ret r
    ensures r is Ok ==> fixed(*old(self), *final(self)) && out(*final(self)) == background(out(*old(self)), number(0), src@).o && r->Ok_0 == number(out(*old(self)).n),
//@start
    let ghost src0 = src@;
//@before call set_node_context 0
    proof { assert(images(element.backgrounds@) =~= seq![Image { image: Some(src0), is_src: true }]); }
//@end
//@fn src/controls/img.rs Renderer::render_img
//@ret r
    ensures r is Ok ==> fixed(*old(self), *final(self)) && out(*final(self)) == background(out(*old(self)), number(0), src_of(face(*old(img)))).o && r->Ok_0@ =~= seq![number(out(*old(self)).n)], *final(img) == *old(img),
//@end
//@fn src/rendering.rs Renderer::render_node
//@ret r
    requires ready(*old(self)), html_named(template),
    ensures r is Ok ==> r->Ok_0 == number(out(*old(self)).n) && fixed(*old(self), *final(self))
        && out(*final(self)) == rendered(node_of(template), old(self).locals.map(), old(self).templates.map(), old(self).translator, out(*old(self))),
    decreases old(self).templates.map().len(), template.children@, 2int
//@end
//@fn src/rendering.rs Renderer::render_element
//@rewrite bindings.extend(template.bindings) => vx_extend(&mut bindings, template.bindings)
//@rewrite children.extend(self.render_img(&mut element)?) => vx_extend_one(&mut children, self.render_img(&mut element)?)
//@rewrite let mut overridden = HashMap::new() => let mut overridden = Shadowed::new()
//@rewrite in overridden => in overridden.vx_pairs()
//@ret r
    requires ready(*old(self)), html_named(template), template.text is None,
    ensures r is Ok ==> r->Ok_0 == number(out(*old(self)).n) && fixed(*old(self), *final(self))
        && out(*final(self)) == rendered(node_of(template), old(self).locals.map(), old(self).templates.map(), old(self).translator, out(*old(self))),
    decreases old(self).templates.map().len(), template.children@, 1int
//@start
    let ghost l0 = self.locals.map(); let ghost t = self.templates.map(); let ghost tr = self.translator; let ghost h = node_of(template); let ghost o0 = out(*self);
//@loop 0
    invariant
        fixed(*old(self), *self), l0 == old(self).locals.map(), owns_named(h.bindings), node == number(o0.n), element.node == node, element.tag@ == h.tag@,
        __vx_c0@ == h.bindings, __vx_i0 <= __vx_c0@.len(),
        st(out(*self), face(element)) == owns(start(h, o0), h.bindings, __vx_i0 as int, l0),
    decreases __vx_c0@.len() - __vx_i0
//@loop 0 start
    broadcast use bounds_push;
    let ghost before = St { o: out(*self), f: face(element) };
    proof { assert(own_named(__vx_c0@[__vx_i0 as int])); }
//@loop 1
    invariant
        fixed(*old(self), *self), l0 == old(self).locals.map(), spans_named(text.spans@), face(element) == before.f,
        __vx_c1 == text.spans, __vx_i1 <= __vx_c1@.len(),
        chars(__vx_r1@) == pieces(text.spans@, None).take(__vx_i1 as int),
        out(*self) == spans_bound(before.o, text.spans@, __vx_i1 as int, l0, node, Some(key)),
    decreases __vx_c1@.len() - __vx_i1
//@loop 1 start
    broadcast use {bounds_push, chars_push};
    proof { one_more(pieces(text.spans@, None), __vx_i1 as int); }
//@loop 1 after
    proof { assert(chars(__vx_r1@) =~= pieces(text.spans@, None)); }
//@loop 2
    invariant
        fixed(*old(self), *self), l0 == old(self).locals.map(), args_named(__vx_c2@), face(element) == before.f, out(*self) == before.o,
        __vx_i2 <= __vx_c2@.len(), as_args(__vx_r2@) == args_of(__vx_c2@, l0).take(__vx_i2 as int),
    decreases __vx_c2@.len() - __vx_i2
//@loop 2 start
    broadcast use args_push;
    proof { one_more(args_of(__vx_c2@, l0), __vx_i2 as int); }
//@loop 2 after
    proof { assert(as_args(__vx_r2@) =~= args_of(__vx_c2@, l0)); }
//@loop 3
    invariant
        ready(*self), fixed(*old(self), *self), l0 == old(self).locals.map(), t == old(self).templates.map(), tr == old(self).translator, all_named(h.children), __vx_c3@ == h.children, __vx_i3 <= __vx_c3@.len(),
        h.children == template.children@,
        node == number(o0.n), face(element) == opened(h, l0, o0).f,
        rw(node, out(*self), children@) == row(h.children.take(__vx_i3 as int), node, l0, t, tr, opened(h, l0, o0).o),
    decreases __vx_c3@.len() - __vx_i3
//@loop 3 start
    broadcast use bounds_push;
    let ghost source = __vx_c3@[__vx_i3 as int];
    let ghost mut c = h;
    let ghost (mut l1, mut over) = (l0, Map::<Seq<char>, Option<Seq<char>>>::empty());
    let ghost row0 = Row { parent: node, o: out(*self), children: children@ };
    proof { child_named(h.children, __vx_i3 as int); href_named(source.bindings@); assert(h.children.take(__vx_i3 + 1).drop_last() =~= h.children.take(__vx_i3 as int)); }
//@loop 3 before
    let ghost tag = element.tag@;
//@loop 3 after
    proof { assert(h.children.take(h.children.len() as int) =~= h.children); }
//@before call set_node_context 0
    proof {
        let s = opened(h, l0, o0);
        assert(face(element) == (Face { children: children@, ..s.f }));
        if h.tag@ == "img"@ { assert(rw(node, out(*self), children@) == background(s.o, s.f.node, src_of(s.f))); }
        else if void(h.tag@) { assert(rw(node, out(*self), children@) == rw(node, s.o, Seq::empty())); }
        else { assert(rw(node, out(*self), children@) == row(h.children, node, l0, t, tr, s.o)); }
    }
//@loop 3 end
    proof { assert(rw(node, out(*self), children@) == one_child(source, l0, t, tr, row0)); }
//@loop 4 before
    proof { if link(source) is Some { let id = link(source)->0; assert(t.remove(id).insert(id, t[id]) =~= t); } }
    proof { c = node_of(child); assert(c == resolved(source, t)); assert(html_named(child)); }
//@loop 4
    invariant
        self.templates.map() == inside(source, t), restores(linked, source, t), self.translator == old(self).translator, l0 == old(self).locals.map(), out(*self) == row0.o, owns_named(child.bindings@),
        *__vx_c4 == child.bindings, __vx_i4 <= __vx_c4@.len(),
        self.locals.map() == scope(child.bindings@, __vx_i4 as int, l0), shadows(overridden.map(), self.locals.map(), l0),
    decreases __vx_c4@.len() - __vx_i4
//@loop 4 start
    proof { assert(own_named(__vx_c4@[__vx_i4 as int])); }
//@loop 4 after
    proof {
        first_named(child.bindings@); assert(child.bindings@.take(child.bindings@.len() as int) =~= child.bindings@);
        l1 = self.locals.map(); over = overridden.map();
    }
//@loop 5
    invariant
        ready(*self), self.templates.map() == inside(source, t), restores(linked, source, t), self.translator == old(self).translator, t == old(self).templates.map(), tr == old(self).translator,
        html_named(child), c == node_of(child), locals.map() == l1, named(*binder),
        self.locals.map().remove(name@) == l1.remove(name@),
        h.children == template.children@, 0 < __vx_i3 <= h.children.len(), source == h.children[__vx_i3 - 1],
        link(source) is None ==> child.children@ == source.children@,
        __vx_e5 == count, __vx_i5 <= __vx_e5,
        rw(node, out(*self), children@) == items(c, name@, pointer(*binder, l1), __vx_i5 as int, l1, inside(source, t), tr, rw5),
    decreases __vx_e5 - __vx_i5
//@loop 5 before
    let ghost rw5 = rw(node, out(*self), children@);
    proof { assert(l1.remove(name@).remove(name@) =~= l1.remove(name@)); }
//@loop 5 start
    let ghost k = __vx_i5 as int;
    proof { renamed(self.locals.map(), l1, name@); }
//@loop 5 after
    proof { renamed(self.locals.map(), l1, name@); }
//@loop 6 before
    let ghost row1 = rw(node, out(*self), children@);
    proof {
        assert(c == resolved(source, t));
        assert(l1 == scope(c.bindings, c.bindings.len() as int, l0));
        assert(link(source) is Some ==> t.contains_key(link(source)->0));
        match visibility(c.bindings) {
            Some((v, b)) => { assert(row1.children == row0.children.push(number(row0.o.n))); assert(row1.o == bind(rendered(c, l1, inside(source, t), tr, row0.o), pointer(b, l1), BindingParams::Visibility(node, number(row0.o.n), v), b.pipe@)); },
            None => match repeated(c.bindings) {
                Some((name, count, b)) => { assert(row1 == items(c, name, pointer(b, l1), count as int, l1, inside(source, t), tr, rw(node, bind(row0.o, pointer(b, l1), BindingParams::Repeat(node, row0.children.len() as usize, count), b.pipe@), row0.children))); },
                None => { assert(row1.o == rendered(c, l1, inside(source, t), tr, row0.o)); },
            },
        }
        assert(row1 == one_child(source, l0, t, tr, row0));
        assert(self.locals.map() =~= l1);
        assert forall|k: Seq<char>| unrestored(__vx_c6@, 0, k) || #[trigger] opt(self.locals.map(), k) == opt(l0, k) by { if over.contains_key(k) { } }
    }
//@loop 6
    invariant
        self.templates.map() == inside(source, t), restores(linked, source, t), self.translator == old(self).translator, out(*self) == row1.o, __vx_i6 <= __vx_c6@.len(),
        forall|j: int| 0 <= j < __vx_c6@.len() ==> opt(l0, (#[trigger] __vx_c6@[j]).0@) == text_opt(__vx_c6@[j].1),
        restoring(__vx_c6@, __vx_i6 as int, self.locals.map(), l0),
    decreases __vx_c6@.len() - __vx_i6
//@loop 6 start
    proof {
        let now = self.locals.map();
        restored_one(__vx_c6@, __vx_i6 as int, now, l0);
    }
//@loop 6 after
    proof { all_restored(__vx_c6@, self.locals.map(), l0); }
//@end
//@fn src/rendering.rs Renderer::new
//@rewrite TaffyTree::new() => Tree::new()
//@rewrite BTreeMap::new() => Bindings::new()
//@rewrite let locals = HashMap::new() => let locals = Locals::new()
//@rewrite let static_id = HashMap::new() => let static_id = Ids::new()
//@ret r
    ensures
        r.templates == templates, r.translator == translator, r.locals.map() == Map::<Seq<char>, Seq<char>>::empty(),
        out(r) == (Out { binds: Map::empty(), ids: Map::empty(), faces: Map::empty(), kids: Map::empty(), n: out(r).n }),
//@end
//@fn src/rendering.rs Renderer::render
//@ret r
    requires ready(*old(self)), html_named(body),
    ensures r is Ok ==> {
        let o = out(*old(self));
        let o1 = rendered(node_of(body), old(self).locals.map(), old(self).templates.map(), old(self).translator, Out { faces: o.faces.insert(number(o.n), blank(number(o.n))), ..leaf(o) });
        &&& r->Ok_0@ =~= seq![number(o.n), number(o.n + 1)]
        &&& out(*final(self)).binds == o1.binds && out(*final(self)).ids == o1.ids && out(*final(self)).faces == o1.faces
        &&& final(self).locals.map() == old(self).locals.map()
    },
//@end
}
}
fn main() {}
