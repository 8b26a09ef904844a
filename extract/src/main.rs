//! vextract REPO UNIT OUT [--vacuity]: regenerates a verification unit from the current source.
//!
//! The unit file is Verus text with `//@` directives. `//@fn FILE PATH` is replaced by the real function of that name:
//! its signature and body come from the source, the specification lines that follow are spliced in. Everything done to
//! the text is one of the fixed rewrites below and is listed in the report printed on stdout.
//! Exit 3 with `LOST: ...` when something the unit refers to no longer exists or cannot be rewritten.
mod emit;
mod rewrite;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

pub fn lost(msg: impl AsRef<str>) -> ! {
    println!("LOST: {}", msg.as_ref());
    std::process::exit(3)
}

#[derive(Default, Debug)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    /// (where, text)
    pub ghosts: Vec<(String, String)>,
    pub rewrites: Vec<(String, String)>,
    pub types: Vec<(String, String)>,
    pub params: Vec<(String, String)>,
    pub generics: Option<String>,
    pub rename: Option<String>,
    pub drops: Vec<String>,
    pub options: BTreeSet<String>,
    pub arms: Vec<String>,
    pub reals: bool,
    pub texts: bool,
}

struct Source { files: BTreeMap<String, syn::File>, repo: String }
impl Source {
    fn get(&mut self, file: &str) -> &syn::File {
        if !self.files.contains_key(file) {
            let text = std::fs::read_to_string(format!("{}/{file}", self.repo)).unwrap_or_else(|e| lost(format!("{file}: {e}")));
            let parsed = syn::parse_file(&text).unwrap_or_else(|e| lost(format!("{file}: {e}")));
            self.files.insert(file.to_string(), parsed);
        }
        &self.files[file]
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => t.to_token_stream().to_string(),
    }
}

/// `Type::name`, `Trait for Type::name` or `name`
fn find_fn(file: &syn::File, path: &str) -> Option<(syn::Signature, syn::Block)> {
    let (owner, name) = match path.rsplit_once("::") { Some((o, n)) => (Some(o), n), None => (None, path) };
    for item in &file.items {
        match (item, owner) {
            (syn::Item::Fn(f), None) if f.sig.ident == name => return Some((f.sig.clone(), (*f.block).clone())),
            (syn::Item::Impl(i), Some(owner)) => {
                let ty = type_name(&i.self_ty);
                let full = match &i.trait_ { Some((_, t, _)) => format!("{} for {ty}", t.segments.last().unwrap().ident), None => ty };
                if full != owner { continue; }
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x { if f.sig.ident == name { return Some((f.sig.clone(), f.block.clone())); } }
                }
            }
            _ => {}
        }
    }
    None
}

fn normal_type(s: &str) -> String {
    syn::parse_str::<syn::Type>(s).unwrap_or_else(|e| lost(format!("type `{s}`: {e}"))).to_token_stream().to_string()
}
struct Types(Vec<(String, syn::Type)>);
impl syn::visit_mut::VisitMut for Types {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let s = t.to_token_stream().to_string();
        for (a, b) in &self.0 { if *a == s { *t = b.clone(); return; } }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_segment_mut(&mut self, p: &mut syn::PathSegment) {
        syn::visit_mut::visit_path_segment_mut(self, p);
    }
}
fn types(list: &[(String, String)]) -> Types {
    Types(list.iter().map(|(a, b)| (normal_type(a), syn::parse_str(b).unwrap_or_else(|e| lost(format!("type `{b}`: {e}"))))).collect())
}

/// replaces a token sequence, comparing without white space; returns the number of replacements
fn replace_tokens(ts: TokenStream, from: &str, to: &str, n: &mut usize) -> TokenStream {
    let pat: Vec<proc_macro2::TokenTree> = from.parse::<TokenStream>().unwrap_or_else(|e| lost(format!("pattern `{from}`: {e}"))).into_iter().collect();
    let rep: TokenStream = to.parse().unwrap_or_else(|e| lost(format!("replacement `{to}`: {e}")));
    let key = |t: &proc_macro2::TokenTree| t.to_string().split_whitespace().collect::<String>();
    let pk: Vec<String> = pat.iter().map(key).collect();
    fn go(ts: TokenStream, pk: &[String], rep: &TokenStream, n: &mut usize, key: &dyn Fn(&proc_macro2::TokenTree) -> String) -> TokenStream {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            if i + pk.len() <= v.len() && (0..pk.len()).all(|j| key(&v[i + j]) == pk[j]) {
                out.extend(rep.clone());
                *n += 1;
                i += pk.len();
                continue;
            }
            match &v[i] {
                proc_macro2::TokenTree::Group(g) => {
                    let inner = go(g.stream(), pk, rep, n, key);
                    out.extend([proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), inner))]);
                }
                t => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    go(ts, &pk, &rep, n, &key)
}

struct Report {
    /// fields of structures that are left out
    pub gone: BTreeMap<String, BTreeSet<String>>, functions: Vec<String>, dropped: BTreeSet<String>, shapes: Vec<String> }

fn extract(src: &mut Source, f: &FnSpec, vacuity: bool, report: &mut Report) -> String {
    let (mut sig, mut block) = find_fn(src.get(&f.file), &f.path).unwrap_or_else(|| lost(format!("function {} of {}", f.path, f.file)));
    report.functions.push(format!("{}::{}", f.file, f.path));
    sig.generics.where_clause = None;
    // signature: names come from the source, a unit may give a parameter another type
    let mut seen = vec![];
    for p in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(p) = p {
            if let syn::Pat::Ident(id) = &mut *p.pat {
                seen.push(id.ident.to_string());
                if let Some((_, t)) = f.params.iter().find(|x| id.ident == x.0) {
                    report.dropped.insert(format!("{}: parameter {} has type `{t}` instead of `{}`", f.path, id.ident, p.ty.to_token_stream()));
                    *p.ty = syn::parse_str(t).unwrap_or_else(|e| lost(format!("type `{t}`: {e}")));
                }
            }
        }
    }
    for (p, _) in &f.params { if !seen.contains(p) { lost(format!("parameter {p} of {}", f.path)); } }
    sig.inputs = sig.inputs.into_iter().filter(|p| match p {
        syn::FnArg::Typed(p) => !f.drops.contains(&p.pat.to_token_stream().to_string()),
        _ => true,
    }).collect();
    for d in &f.drops { report.dropped.insert(format!("{}: parameter {d} left out", f.path)); if !seen.contains(d) { lost(format!("parameter {d} of {}", f.path)); } }
    for (a, b) in &f.rewrites {
        let mut n = 0;
        let ts = replace_tokens(block.to_token_stream(), a, b, &mut n);
        if n == 0 { lost(format!("rewrite `{a}` finds nothing in {}", f.path)); }
        report.dropped.insert(format!("{}: `{a}` is written `{b}`", f.path));
        block = syn::parse2(ts).unwrap_or_else(|e| lost(format!("after rewrite `{a}` of {}: {e}", f.path)));
    }
    {
        use syn::visit_mut::VisitMut;
        let mut t = types(&f.types);
        t.visit_block_mut(&mut block);
        t.visit_signature_mut(&mut sig);
    }
    {
        use syn::visit_mut::VisitMut;
        let this = f.path.rsplit(" for ").next().unwrap().split("::").next().unwrap().to_string();
        Gone { gone: &report.gone, this }.visit_block_mut(&mut block);
    }
    if !f.arms.is_empty() {
        rewrite::keep_arms(&mut block, &f.arms, &f.path);
        report.dropped.insert(format!("{}: only the cases {} are verified in this function, it requires that the others do not occur", f.path, f.arms.join(", ")));
    }
    if let Some(r) = &f.rename { sig.ident = syn::Ident::new(r, sig.ident.span()); }
    let shape = rewrite::shape(&block);
    report.shapes.push(format!("{} {}", f.path, shape));
    let loops = rewrite::rewrite(&mut block, &sig, f, &mut report.dropped);
    for k in f.loops.keys() { if *k >= loops { lost(format!("loop {k} of {}", f.path)); } }
    rewrite::ghosts(&mut block, f);
    let mut out = String::new();
    let generics = match &f.generics { Some(g) => g.clone(), None => sig.generics.to_token_stream().to_string() };
    let inputs = sig.inputs.to_token_stream().to_string();
    let ret = match (&sig.output, &f.ret) {
        (syn::ReturnType::Default, _) => String::new(),
        (syn::ReturnType::Type(_, t), Some(r)) => format!(" -> ({r}: {})", t.to_token_stream()),
        (syn::ReturnType::Type(_, t), None) => format!(" -> {}", t.to_token_stream()),
    };
    let vis = if f.path.contains(" for ") { "" } else { "pub " };
    let _ = writeln!(out, "{vis}fn {}{generics}({inputs}){ret}\n{}", sig.ident, f.spec);
    if vacuity {
        let stmt: syn::Stmt = syn::parse_str("__vx_false!();").unwrap();
        block.stmts.insert(0, stmt);
    }
    out += &emit::emit(block.to_token_stream(), f);
    out
}

/// values of fields that are left out of a structure
struct Gone<'a> { gone: &'a BTreeMap<String, BTreeSet<String>>, this: String }
impl syn::visit_mut::VisitMut for Gone<'_> {
    fn visit_expr_struct_mut(&mut self, e: &mut syn::ExprStruct) {
        syn::visit_mut::visit_expr_struct_mut(self, e);
        let name = e.path.segments.last().unwrap().ident.to_string();
        let name = if name == "Self" { &self.this } else { &name };
        if let Some(gone) = self.gone.get(name) {
            e.fields = e.fields.clone().into_iter().filter(|f| !gone.contains(&f.member.to_token_stream().to_string())).collect();
        }
    }
}

fn item(src: &mut Source, file: &str, name: &str, keep: Option<Vec<String>>, map: &[(String, String)], derive: &str, add: Option<(String, String)>, report: &mut Report) -> String {
    use syn::visit_mut::VisitMut;
    let parsed = src.get(file).clone();
    for it in parsed.items {
        match it {
            syn::Item::Struct(mut s) if s.ident == name => {
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                types(map).visit_item_struct_mut(&mut s);
                if let syn::Fields::Named(n) = &mut s.fields {
                    let all: Vec<String> = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                    if let Some(keep) = &keep {
                        for k in keep { if !all.contains(k) { lost(format!("field {k} of {name}")); } }
                        let gone: Vec<&String> = all.iter().filter(|a| !keep.contains(a)).collect();
                        report.gone.insert(name.to_string(), gone.iter().map(|s| s.to_string()).collect());
                        if !gone.is_empty() { report.dropped.insert(format!("struct {name}: fields left out: {}", gone.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(" "))); }
                        n.named = n.named.clone().into_iter().filter(|f| keep.contains(&f.ident.as_ref().unwrap().to_string())).collect();
                    }
                    for f in n.named.iter_mut() { f.attrs.clear(); f.vis = syn::parse_quote!(pub); }
                    if let Some((a, t)) = &add {
                        let (a, t): (syn::Ident, syn::Type) = (syn::parse_str(a).unwrap(), syn::parse_str(t).unwrap_or_else(|e| lost(format!("type `{t}`: {e}"))));
                        n.named.push(syn::Field { attrs: vec![], vis: syn::parse_quote!(pub), mutability: syn::FieldMutability::None, ident: Some(a), colon_token: Some(Default::default()), ty: t });
                    }
                }
                return format!("{derive}\n{}", emit::plain(s.to_token_stream()));
            }
            syn::Item::Enum(mut e) if e.ident == name => {
                e.attrs.clear();
                e.vis = syn::parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
                if let Some(keep) = &keep {
                    for k in keep { if !e.variants.iter().any(|v| v.ident == k.as_str()) { lost(format!("variant {k} of {name}")); } }
                    e.variants = e.variants.into_iter().filter(|v| keep.contains(&v.ident.to_string())).collect();
                }
                types(map).visit_item_enum_mut(&mut e);
                return format!("{derive}\n{}", emit::plain(e.to_token_stream()));
            }
            syn::Item::Type(mut t) if t.ident == name => {
                t.attrs.clear();
                t.vis = syn::parse_quote!(pub);
                types(map).visit_item_type_mut(&mut t);
                return emit::plain(t.to_token_stream());
            }
            _ => {}
        }
    }
    lost(format!("item {name} of {file}"))
}

/// what #[derive(Default)] stands for, written out
fn derived_default(src: &mut Source, file: &str, name: &str, map: &[(String, String)], spec: &str, vacuity: bool, reals: bool) -> Option<String> {
    use syn::visit_mut::VisitMut;
    let derives = |attrs: &[syn::Attribute]| attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Default"));
    fn value(t: &syn::Type) -> String {
        let text = emit::plain(t.to_token_stream()).replace(char::is_whitespace, "");
        match t {
            syn::Type::Array(a) => format!("[{}; {}]", value(&a.elem), emit::plain(a.len.to_token_stream())),
            _ => match text.split('<').next().unwrap() {
                "bool" => "false".into(),
                "f32" | "F" => "vx_lit(Ghost(0.0real))".into(),
                "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64" => "0".into(),
                "Option" => "None".into(),
                "Text" | "Vec" => format!("{}::new()", text.split('<').next().unwrap()),
                _ => format!("<{text} as Default>::default()"),
            },
        }
    }
    let parsed = src.get(file).clone();
    let types_of = |t: &syn::Type| { let mut t = t.clone(); types(map).visit_type_mut(&mut t); if let syn::Type::Path(p) = &t { if p.path.is_ident("Rgba") { return "[0; 4]".to_string(); } } value(&t) };
    let body = parsed.items.iter().find_map(|it| match it {
        syn::Item::Struct(s) if s.ident == name && derives(&s.attrs) => match &s.fields {
            syn::Fields::Named(n) => Some(format!("{name} {{ {} }}", n.named.iter().map(|f| format!("{}: {}", f.ident.as_ref().unwrap(), types_of(&f.ty))).collect::<Vec<_>>().join(", "))),
            _ => None,
        },
        syn::Item::Enum(e) if e.ident == name && derives(&e.attrs) => e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).map(|v| format!("{name}::{}", v.ident)),
        _ => None,
    })?;
    Some(format!("impl Default for {name} {{ fn default() -> (r: {name})\n{spec}\n{{ {}{} {body} }} }}", if vacuity { "assert(false); " } else { "" }, if reals { "broadcast use {f_of_view, f_ext};" } else { "" }))
}

fn literals(name: &str, list: &[Vec<char>]) -> String {
    let mut facts: BTreeSet<String> = BTreeSet::new();
    let mut reveals = String::new();
    let lit = |v: &Vec<char>| v.iter().collect::<String>();
    for (i, a) in list.iter().enumerate() {
        let _ = writeln!(reveals, "    reveal_strlit(\"{}\");", lit(a));
        facts.insert(format!("\"{}\"@.len() == {}", lit(a), a.len()));
        for b in &list[i + 1..] {
            if a.len() != b.len() { continue; }
            let k = (0..a.len()).find(|k| a[*k] != b[*k]).unwrap_or_else(|| lost("literal given twice"));
            for x in [a, b] { facts.insert(format!("\"{}\"@[{k}] == '{}'", lit(x), x[k])); }
        }
    }
    format!("proof fn {name}()\n    ensures {},\n{{\n{reveals}}}\n", facts.into_iter().collect::<Vec<_>>().join(", "))
}

/// the rules of a pest grammar: name and definition, white space and comments apart
fn grammar(text: &str) -> BTreeMap<String, String> {
    use proc_macro2::TokenTree;
    let ts: TokenStream = text.parse().unwrap_or_else(|e| lost(format!("grammar: {e}")));
    let mut rules = BTreeMap::new();
    let mut it = ts.into_iter();
    while let Some(TokenTree::Ident(name)) = it.next() {
        let mut body = String::new();
        for t in it.by_ref() {
            let done = matches!(&t, TokenTree::Group(_));
            body += &t.to_string();
            if done { break; }
        }
        rules.insert(name.to_string(), body.replace(char::is_whitespace, ""));
    }
    rules
}

fn pair(s: &str) -> (String, String) {
    let (a, b) = s.split_once("=>").unwrap_or_else(|| lost(format!("bad directive `{s}`")));
    (a.trim().to_string(), b.trim().to_string())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, unit, outfile) = (&a[1], &a[2], &a[3]);
    let vacuity = a.iter().any(|x| x == "--vacuity");
    let mut src = Source { files: BTreeMap::new(), repo: repo.clone() };
    let dir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    let text = std::fs::read_to_string(unit).unwrap();
    // includes
    let mut lines: Vec<String> = vec![];
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            let t = std::fs::read_to_string(dir.join(f.trim())).unwrap_or_else(|e| lost(format!("{f}: {e}")));
            lines.extend(t.lines().map(String::from));
        } else { lines.push(l.to_string()); }
    }
    // //@for X in a b c ... //@endfor: the lines in between once for every word, ${X} stands for it
    let mut unrolled: Vec<String> = vec![];
    let mut at = 0;
    while at < lines.len() {
        let Some(r) = lines[at].trim().strip_prefix("//@for ") else { unrolled.push(lines[at].clone()); at += 1; continue };
        let (name, words) = r.split_once(" in ").unwrap_or_else(|| lost("bad //@for"));
        let end = (at..lines.len()).find(|k| lines[*k].trim() == "//@endfor").unwrap_or_else(|| lost("missing //@endfor"));
        for w in words.split_whitespace() { for l in &lines[at + 1..end] { unrolled.push(l.replace(&format!("${{{}}}", name.trim()), w)); } }
        at = end + 1;
    }
    let lines = unrolled;
    let mut out = String::new();
    let mut report = Report { functions: vec![], dropped: BTreeSet::new(), shapes: vec![], gone: BTreeMap::new() };
    let mut map: Vec<(String, String)> = vec![];
    let mut reals = false;
    let mut texts = false;
    let mut i = 0;
    while i < lines.len() {
        let line = lines[i].clone();
        let t = line.trim();
        i += 1;
        if let Some(r) = t.strip_prefix("//@type ") {
            map.push(pair(r));
        } else if t == "//@texts" {
            texts = true;
            map.push(("String".into(), "Text".into()));
            map.push(("str".into(), "Text".into()));
            report.dropped.insert("String and str are written Text: sequences of characters with the assumed contracts of contracts/texts.inc".into());
        } else if t == "//@reals" {
            reals = true;
            map.push(("f32".into(), "F".into()));
            report.dropped.insert("f32 is written F: real numbers instead of machine floats".into());
        } else if let Some(r) = t.strip_prefix("//@lits ") {
            // //@lits NAME a | b | c: a lemma with the characters that tell these literals apart
            let (name, list) = r.split_once(' ').unwrap_or_else(|| lost("bad //@lits"));
            out += &literals(name.trim(), &list.split('|').map(|x| x.trim().chars().collect::<Vec<char>>()).collect::<Vec<_>>());
        } else if let Some(r) = t.strip_prefix("//@item ") {
            // //@item FILE NAME [keep a,b,c] [derive(...)]
            let mut w = r.split_whitespace();
            let (file, name) = (w.next().unwrap().to_string(), w.next().unwrap().to_string());
            let (mut keep, mut derive, mut add) = (None, String::new(), None);
            while let Some(x) = w.next() {
                if x == "keep" { keep = Some(w.next().unwrap().split(',').map(String::from).collect()); }
                if x.starts_with("derive(") { derive = format!("#[{}]", x.replace(',', ", ")); }
                if x == "add" { add = w.next().unwrap().split_once(':').map(|(a, b)| (a.to_string(), b.to_string())); }
            }
            out += &item(&mut src, &file, &name, keep, &map, &derive, add, &mut report);
            out.push('\n');
        } else if let Some(r) = t.strip_prefix("//@const ") {
            // //@const FILE [TYPE::]NAME FUNCTION TYPE, spec lines, //@end: the constant as a function
            let mut w = r.split_whitespace();
            let (file, path, f, ty) = (w.next().unwrap(), w.next().unwrap(), w.next().unwrap(), w.collect::<Vec<_>>().join(" "));
            let mut spec = String::new();
            while let Some(line) = lines.get(i).cloned() { i += 1; if line.trim() == "//@end" { break; } spec += &line; spec.push('\n'); }
            let parsed = src.get(file).clone();
            let (owner, name) = path.split_once("::").unwrap_or(("", path));
            let init = parsed.items.iter().find_map(|it| match it {
                syn::Item::Const(c) if owner.is_empty() && c.ident == name => Some((*c.expr).clone()),
                syn::Item::Impl(b) if !owner.is_empty() && b.self_ty.to_token_stream().to_string() == owner => b.items.iter().find_map(|x| match x { syn::ImplItem::Const(c) if c.ident == name => Some(c.expr.clone()), _ => None }),
                _ => None,
            }).unwrap_or_else(|| lost(format!("constant {path} of {file}")));
            let text = match &init {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => format!("vx_text({:?})", s.value()),
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(x), .. }) => format!("vx_lit(Ghost({}real))", x.base10_digits()),
                e => emit::plain(e.to_token_stream()),
            };
            report.functions.push(format!("{file}::{f}"));
            out += &format!("pub fn {f}() -> (r: {ty})\n{spec}{{ {}{text} }}\n", if vacuity { "assert(false); " } else { "" });
        } else if let Some(r) = t.strip_prefix("//@grammar ") {
            // //@grammar FILE, lines `Rule = { .. }`, //@end: the rules of a pest grammar as the enumeration Rule. The listed rules must
            // read in the file as they do here: what is assumed about the generated parser was written for them
            let mut text = String::new();
            while let Some(line) = lines.get(i).cloned() { i += 1; if line.trim() == "//@end" { break; } text += &line; text.push('\n'); }
            let file = r.trim();
            let real = std::fs::read_to_string(std::path::Path::new(repo).join(file)).unwrap_or_else(|e| lost(format!("{file}: {e}")));
            let (real, listed) = (grammar(&real), grammar(&text));
            for (k, v) in &listed { if real.get(k) != Some(v) { lost(format!("grammar rule {k} of {file}")); } }
            out += &format!("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum Rule {{ EOI, {} }}\n", real.keys().cloned().collect::<Vec<_>>().join(", "));
        } else if let Some(r) = t.strip_prefix("//@default ") {
            // //@default FILE NAME, spec lines, //@end
            let (file, name) = r.trim().split_once(' ').unwrap_or_else(|| lost("bad //@default"));
            let mut spec = String::new();
            while let Some(line) = lines.get(i).cloned() { i += 1; if line.trim() == "//@end" { break; } spec += &line; spec.push('\n'); }
            match derived_default(&mut src, file, name, &map, &spec, vacuity, reals) {
                Some(text) => { out += &text; report.functions.push(format!("{file}::{name}::default")); report.dropped.insert(format!("the derived Default of {name} is written out")); }
                None => lost(format!("derived Default of {name}")),
            }
            out.push('\n');
        } else if let Some(r) = t.strip_prefix("//@fn ") {
            let (file, path) = r.trim().split_once(' ').unwrap_or_else(|| lost("bad //@fn"));
            let mut f = FnSpec { file: file.into(), path: path.trim().into(), types: map.clone(), reals, texts, ..Default::default() };
            let mut target: Option<String> = None;
            loop {
                let line = lines.get(i).cloned().unwrap_or_else(|| lost("missing //@end"));
                i += 1;
                let t = line.trim();
                if t == "//@end" { break; }
                if let Some(d) = t.strip_prefix("//@") {
                    let d = d.trim();
                    target = None;
                    if let Some(x) = d.strip_prefix("ret ") { f.ret = Some(x.trim().into()); }
                    else if let Some(x) = d.strip_prefix("rewrite ") { f.rewrites.push(pair(x)); }
                    else if let Some(x) = d.strip_prefix("param ") { let (a, b) = x.split_once(':').unwrap(); f.params.push((a.trim().into(), b.trim().into())); }
                    else if let Some(x) = d.strip_prefix("drop ") { f.drops.push(x.trim().into()); }
                    else if let Some(x) = d.strip_prefix("rename ") { f.rename = Some(x.trim().into()); }
                    else if let Some(x) = d.strip_prefix("generics ") { f.generics = Some(x.trim().into()); }
                    else if let Some(x) = d.strip_prefix("arms ") { f.arms = x.split(',').map(|a| a.trim().to_string()).collect(); }
                    else if let Some(x) = d.strip_prefix("option ") { f.options.insert(x.trim().into()); }
                    else { target = Some(d.trim_end_matches(':').to_string()); }
                    continue;
                }
                match target.as_deref() {
                    None => { f.spec += &line; f.spec.push('\n'); }
                    Some(x) => {
                        if let Some(k) = x.strip_prefix("loop ").and_then(|k| k.parse::<usize>().ok()) {
                            let e = f.loops.entry(k).or_default();
                            *e += &line;
                            e.push('\n');
                        } else {
                            match f.ghosts.last_mut() {
                                Some((w, text)) if w == x => { *text += &line; text.push('\n'); }
                                _ => f.ghosts.push((x.to_string(), format!("{line}\n"))),
                            }
                        }
                    }
                }
            }
            out += &extract(&mut src, &f, vacuity, &mut report);
            out.push('\n');
        } else {
            out += &line;
            out.push('\n');
        }
    }
    std::fs::write(outfile, out).unwrap();
    for f in &report.functions { println!("FUNCTION {f}"); }
    for f in &report.dropped { println!("DROPPED {}", f.replace('\n', " ")); }
    for f in &report.shapes { println!("SHAPE {f}"); }
}
