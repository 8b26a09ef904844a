//! The fixed rewrites. Each replaces a construct the verifier does not read by its definition in the standard library:
//!  log macros are removed (logging is no observable behaviour of any property); `for` over a sequence is an index loop;
//!  `any`/`all`/`position` with a closure are the loops that define them; `map`/`and_then`/... of an option with a
//!  closure are matches; `format!` is concatenation of the shown parts; matching on string literals is a chain of
//!  comparisons; `vec![]` is `Vec::new()`.
use crate::{lost, FnSpec};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

const LOGS: [&str; 5] = ["error", "warn", "info", "debug", "trace"];

/// loops and called names of a body, to tell an edited proof target from a restructured one
pub fn shape(b: &Block) -> String {
    #[derive(Default)]
    struct S { loops: usize, calls: BTreeSet<String> }
    impl<'a> Visit<'a> for S {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.loops += 1,
                Expr::MethodCall(m) => { self.calls.insert(m.method.to_string()); }
                Expr::Call(c) => if let Expr::Path(p) = &*c.func { self.calls.insert(p.path.segments.last().unwrap().ident.to_string()); },
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    use syn::visit;
    let mut s = S::default();
    s.visit_block(b);
    format!("loops={} calls={}", s.loops, s.calls.into_iter().collect::<Vec<_>>().join(","))
}

struct R<'a> { refs: BTreeSet<String>, f: &'a FnSpec, dropped: &'a mut BTreeSet<String>, next: usize, maps: usize }

struct Chain { base: Expr, by: By, rev: bool, enumerate: bool, deref: bool }
#[derive(PartialEq, Clone, Copy)]
enum By { Ref, Val, Mut }

fn chain(e: &Expr) -> Chain {
    match e {
        Expr::MethodCall(m) if m.args.is_empty() => {
            let name = m.method.to_string();
            match name.as_str() {
                "iter" => Chain { base: (*m.receiver).clone(), by: By::Ref, rev: false, enumerate: false, deref: false },
                "iter_mut" => Chain { base: (*m.receiver).clone(), by: By::Mut, rev: false, enumerate: false, deref: false },
                "into_iter" => { let mut c = chain(&m.receiver); if c.by != By::Ref { c.by = By::Val; } c }
                "rev" => { let mut c = chain(&m.receiver); if c.enumerate { lost("rev after enumerate"); } c.rev = !c.rev; c }
                "enumerate" => { let mut c = chain(&m.receiver); if c.rev { lost("enumerate after rev"); } c.enumerate = true; c }
                "copied" | "cloned" => { let mut c = chain(&m.receiver); c.by = By::Val; c }
                _ => Chain { base: e.clone(), by: By::Val, rev: false, enumerate: false, deref: false },
            }
        }
        Expr::Reference(r) => Chain { base: (*r.expr).clone(), by: if r.mutability.is_some() { By::Mut } else { By::Ref }, rev: false, enumerate: false, deref: false },
        Expr::Paren(p) => chain(&p.expr),
        _ => Chain { base: e.clone(), by: By::Val, rev: false, enumerate: false, deref: false },
    }
}

fn collected(m: &ExprMethodCall) -> Option<(Expr, Pat, Expr)> {
    let Expr::MethodCall(map) = &*m.receiver else { return None };
    if map.method != "map" || map.args.len() != 1 { return None; }
    let (pat, body): (Pat, Expr) = match &map.args[0] {
        Expr::Closure(c) => (c.inputs.first()?.clone(), (*c.body).clone()),
        Expr::Path(f) => (Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: format_ident!("__vx_x"), subpat: None }), parse_quote!(#f(__vx_x))),
        _ => return None,
    };
    let mut e = &*map.receiver;
    while let Expr::MethodCall(x) = e {
        if x.method == "iter" || x.method == "into_iter" || x.method == "into_inner" { return Some(((*map.receiver).clone(), pat, body)); }
        e = &x.receiver;
    }
    None
}

fn is_log(m: &Macro) -> bool {
    m.path.segments.last().map_or(false, |s| LOGS.contains(&s.ident.to_string().as_str()))
}

impl R<'_> {
    fn ghosts_at(&self, place: &str) -> Vec<Stmt> {
        self.f.ghosts.iter().enumerate().filter(|(_, (w, _))| w == place).map(|(i, _)| {
            let lit = proc_macro2::Literal::usize_unsuffixed(i);
            parse_quote!(__vx_ghost!(#lit);)
        }).collect()
    }
    fn head(k: usize) -> Stmt {
        let lit = proc_macro2::Literal::usize_unsuffixed(k);
        parse_quote!(__vx_loop!(#lit);)
    }
    fn indexing(c: &Chain, k: usize) -> (Stmt, Expr) {
        let (cn, i) = (format_ident!("__vx_c{k}"), format_ident!("__vx_i{k}"));
        let base = &c.base;
        let setup: Stmt = match c.by { By::Ref => parse_quote!(let #cn = &#base;), By::Val => parse_quote!(let #cn = #base;), By::Mut => parse_quote!(let #cn = &mut #base;) };
        let setup = match (setup, c.by) { (_, By::Mut) if c.deref => parse_quote!(let #cn = &mut *#base;), (s, _) => s };
        let at: Expr = if c.rev { parse_quote!(#cn.len() - 1 - #i) } else { parse_quote!(#i) };
        let item: Expr = match c.by { By::Ref => parse_quote!(&#cn[#at]), By::Val => parse_quote!(vx_take(&#cn, #at)), By::Mut => parse_quote!(&mut #cn[#at]) };
        (setup, item)
    }
    fn named(e: &Expr) -> Option<String> {
        match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Unary(u) => Self::named(&u.expr), _ => None }
    }
    /// a parameter that is a reference is walked by reference
    fn chain(&self, e: &Expr) -> Chain {
        let mut c = chain(e);
        if let Expr::Path(p) = &c.base { if let Some(id) = p.path.get_ident() { if c.by == By::Val && (self.refs.contains(&id.to_string()) || self.f.options.contains(&format!("ref {id}"))) && matches!(e, Expr::Path(_)) {
            c = Chain { base: parse_quote!(*#id), by: By::Ref, ..c };
        } else if c.by == By::Mut && self.f.options.contains(&format!("mutref {id}")) { c.deref = true; } } }
        c
    }
    fn for_loop(&mut self, l: &mut ExprForLoop) -> Expr {
        // the values of a map: its entries without their keys
        if let Expr::MethodCall(m) = &*l.expr {
            if m.method == "values_mut" && m.args.is_empty() {
                let (r, p) = (&m.receiver, &l.pat);
                (*l.expr, *l.pat) = (parse_quote!(#r.iter_mut()), parse_quote!((_, #p)));
            }
        }
        self.visit_expr_mut(&mut l.expr);
        let k = self.next;
        self.next += 1;
        self.visit_block_mut(&mut l.body);
        let (cn, i) = (format_ident!("__vx_c{k}"), format_ident!("__vx_i{k}"));
        let head = Self::head(k);
        let (before, start, end, after) = (self.ghosts_at(&format!("loop {k} before")), self.ghosts_at(&format!("loop {k} start")), self.ghosts_at(&format!("loop {k} end")), self.ghosts_at(&format!("loop {k} after")));
        if let Some(Stmt::Expr(_, semi @ None)) = l.body.stmts.last_mut() { *semi = Some(Default::default()); }
        let body = &l.body.stmts;
        let label = l.label.iter();
        if let Expr::Range(r) = &*l.expr {
            let (Some(a), Some(b)) = (&r.start, &r.end) else { lost("open range") };
            if !matches!(r.limits, RangeLimits::HalfOpen(_)) { lost("closed range"); }
            let pat = &l.pat;
            let e = format_ident!("__vx_e{k}");
            return parse_quote!({ let #e = #b; let mut #i = #a; #(#before)* #(#label)* while #i < #e { #head #(#start)* let #pat = #i; #i = #i + 1; #(#body)* #(#end)* } #(#after)* });
        }
        let c = self.chain(&l.expr);
        let (setup, item) = Self::indexing(&c, k);
        let bind: Vec<Stmt> = if let (false, By::Mut, Pat::Tuple(_)) = (c.enumerate, c.by, &*l.pat) {
            let p = &l.pat;
            vec![parse_quote!(let #p = vx_entry_mut(#cn, #i);)]
        } else if let (false, By::Ref, Pat::Tuple(_), Some(true)) = (c.enumerate, c.by, &*l.pat, Self::named(&c.base).map(|n| self.f.options.contains(&format!("entries {n}")))) {
            let p = &l.pat;
            vec![parse_quote!(let #p = vx_entry(#cn, #i);)]
        } else if c.enumerate {
            let Pat::Tuple(t) = &*l.pat else { lost("enumerate without tuple pattern") };
            let (p, x) = (&t.elems[0], &t.elems[1]);
            vec![parse_quote!(let #p = #i;), parse_quote!(let #x = #item;)]
        } else {
            let p = &l.pat;
            vec![parse_quote!(let #p = #item;)]
        };
        parse_quote!({ #setup let mut #i: usize = 0; #(#before)* #(#label)* while #i < #cn.len() { #head #(#start)* #(#bind)* #i = #i + 1; #(#body)* #(#end)* } #(#after)* })
    }
    fn search(&mut self, m: &mut ExprMethodCall) -> Expr {
        self.visit_expr_mut(&mut m.receiver);
        let k = self.next;
        self.next += 1;
        let Expr::Closure(c) = &mut m.args[0] else { lost("search without closure") };
        self.visit_expr_mut(&mut c.body);
        let (cn, i, r) = (format_ident!("__vx_c{k}"), format_ident!("__vx_i{k}"), format_ident!("__vx_r{k}"));
        let head = Self::head(k);
        let (before, start, end, after) = (self.ghosts_at(&format!("loop {k} before")), self.ghosts_at(&format!("loop {k} start")), self.ghosts_at(&format!("loop {k} end")), self.ghosts_at(&format!("loop {k} after")));
        let ch = chain(&m.receiver);
        let (setup, item) = Self::indexing(&ch, k);
        let (pat, body) = (&c.inputs[0], &c.body);
        let (init, cond, hit): (Expr, Expr, Expr) = match m.method.to_string().as_str() {
            "any" => (parse_quote!(false), parse_quote!(!#r), parse_quote!(if #body { #r = true; })),
            "all" => (parse_quote!(true), parse_quote!(#r), parse_quote!(if !(#body) { #r = false; })),
            _ => (parse_quote!(None), parse_quote!(#r.is_none()), parse_quote!(if #body { #r = Some(#i - 1); })),
        };
        let ty: Type = if m.method == "position" { parse_quote!(Option<usize>) } else { parse_quote!(bool) };
        parse_quote!({ #setup let mut #i: usize = 0; let mut #r: #ty = #init; #(#before)* while #i < #cn.len() && #cond { #head #(#start)* let #pat = #item; #i = #i + 1; #hit #(#end)* } #(#after)* #r })
    }
    /// `v.retain(|x| keep)`: removes, in order, the items that are not to be kept
    fn retain(&mut self, m: &mut ExprMethodCall) -> Expr {
        self.visit_expr_mut(&mut m.receiver);
        let k = self.next;
        self.next += 1;
        let Expr::Closure(c) = &mut m.args[0] else { lost("retain without closure") };
        self.visit_expr_mut(&mut c.body);
        let (i, b) = (format_ident!("__vx_i{k}"), format_ident!("__vx_r{k}"));
        let head = Self::head(k);
        let (before, start, end, after) = (self.ghosts_at(&format!("loop {k} before")), self.ghosts_at(&format!("loop {k} start")), self.ghosts_at(&format!("loop {k} end")), self.ghosts_at(&format!("loop {k} after")));
        let (recv, pat, body) = (&m.receiver, &c.inputs[0], &c.body);
        parse_quote!({ let mut #i: usize = 0; #(#before)* while #i < #recv.len() { #head #(#start)* let #b = { let #pat = &#recv[#i]; #body }; if #b { #i = #i + 1; } else { #recv.remove(#i); } #(#end)* } #(#after)* })
    }
    fn format(&mut self, m: &Macro) -> Expr {
        let show = |l: String| -> Expr { if self.f.texts { parse_quote!(vx_text(#l).vx_show()) } else { parse_quote!(#l.vx_show()) } };
        let mut args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).unwrap_or_else(|e| lost(format!("format!: {e}")));
        for a in args.iter_mut().skip(1) { self.visit_expr_mut(a); }
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = args.first() else { lost("format! without literal") };
        let text = s.value();
        let mut rest = args.iter().skip(1);
        let mut parts: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut it = text.chars().peekable();
        while let Some(ch) = it.next() {
            if ch == '{' && it.peek() == Some(&'{') { it.next(); lit.push('{'); continue; }
            if ch == '}' { it.next(); lit.push('}'); continue; }
            if ch == '{' {
                let mut name = String::new();
                for c in it.by_ref() { if c == '}' { break; } name.push(c); }
                if name.contains(':') { lost(format!("format argument {name}")); }
                if !lit.is_empty() { let l = std::mem::take(&mut lit); parts.push(show(l)); }
                let e: Expr = if name.is_empty() { let e = rest.next().unwrap_or_else(|| lost("format! arguments")); parse_quote!((#e)) } else { parse_str(&name).unwrap_or_else(|_| lost("format! name")) };
                parts.push(parse_quote!(#e.vx_show()));
                continue;
            }
            lit.push(ch);
        }
        if !lit.is_empty() { parts.push(show(lit)); }
        let mut parts = parts.into_iter();
        let first = match parts.next() { Some(p) => p, None => return if self.f.texts { parse_quote!(Text::new()) } else { parse_quote!(String::new()) } };
        parts.fold(first, |a, b| parse_quote!(vx_cat(#a, #b)))
    }
    fn mutable_tuple(e: &Expr) -> bool {
        matches!(e, Expr::Tuple(t) if t.elems.iter().any(|e| matches!(e, Expr::Reference(r) if r.mutability.is_some())))
    }
    fn str_pats(p: &Pat) -> Option<Vec<Lit>> {
        match p {
            Pat::Lit(ExprLit { lit: l @ Lit::Str(_), .. }) => Some(vec![l.clone()]),
            Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(Self::str_pats(c)?); } Some(v) }
            _ => None,
        }
    }
}

impl VisitMut for R<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old {
            if let Stmt::Macro(m) = &s {
                if is_log(&m.mac) { self.dropped.insert("logging left out".into()); continue; }
            }
            // a local that is a reference is walked by reference
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) = &s {
                if matches!(&*i.expr, Expr::Reference(r) if r.mutability.is_none()) { self.refs.insert(p.ident.to_string()); } else { self.refs.remove(&p.ident.to_string()); }
            }
            // `let [a, b] = e;` of an array
            if let Stmt::Local(Local { pat: Pat::Slice(p), init: Some(i), .. }) = &s {
                if i.diverge.is_none() && p.elems.iter().all(|e| matches!(e, Pat::Ident(i) if i.subpat.is_none())) {
                    let e = &i.expr;
                    b.stmts.push(parse_quote!(let __vx_a = #e;));
                    for (k, p) in p.elems.iter().enumerate() { let k = proc_macro2::Literal::usize_unsuffixed(k); b.stmts.push(parse_quote!(let #p = __vx_a[#k];)); }
                    continue;
                }
            }
            b.stmts.push(s);
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if let Expr::Macro(m) = &*a.body {
            if is_log(&m.mac) { self.dropped.insert("logging left out".into()); *a.body = parse_quote!({}); return; }
        }
        if !matches!(&*a.body, Expr::Block(_)) {
            let body = &a.body;
            *a.body = parse_quote!({ #body });
            a.comma = None;
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(l) => { *e = self.for_loop(l); return; }
            Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => {
                let walk = &m.receiver;
                let mut l: ExprForLoop = match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); parse_quote!(for #p in #walk { #b; }) }
                    Expr::Path(f) => parse_quote!(for __vx_v in #walk { #f(__vx_v); }),
                    _ => lost("for_each"),
                };
                *e = self.for_loop(&mut l);
                return;
            }
            // `items.into_iter().map(|x| y).collect()`
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() && collected(m).is_some() => {
                let (walk, p, b) = collected(m).unwrap();
                let r = format_ident!("__vx_r{}", self.next);
                let mut l: ExprForLoop = parse_quote!(for #p in #walk { let __vx_v = #b; #r.push(__vx_v); });
                let l = self.for_loop(&mut l);
                *e = parse_quote!({ let mut #r = Vec::new(); #l; #r });
                return;
            }
            Expr::While(w) => {
                let k = self.next;
                self.next += 1;
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let mut stmts = vec![Self::head(k)];
                stmts.extend(self.ghosts_at(&format!("loop {k} start")));
                stmts.append(&mut w.body.stmts);
                stmts.extend(self.ghosts_at(&format!("loop {k} end")));
                w.body.stmts = stmts;
                let (before, after) = (self.ghosts_at(&format!("loop {k} before")), self.ghosts_at(&format!("loop {k} after")));
                if !before.is_empty() || !after.is_empty() { let w = w.clone(); *e = parse_quote!({ #(#before)* #w #(#after)* }); }
                return;
            }
            Expr::Loop(w) => {
                let k = self.next;
                self.next += 1;
                self.visit_block_mut(&mut w.body);
                let mut stmts = vec![Self::head(k)];
                stmts.extend(self.ghosts_at(&format!("loop {k} start")));
                stmts.append(&mut w.body.stmts);
                stmts.extend(self.ghosts_at(&format!("loop {k} end")));
                w.body.stmts = stmts;
                let (before, after) = (self.ghosts_at(&format!("loop {k} before")), self.ghosts_at(&format!("loop {k} after")));
                if !before.is_empty() || !after.is_empty() { let w = w.clone(); *e = parse_quote!({ #(#before)* #w #(#after)* }); }
                return;
            }
            Expr::MethodCall(m) if m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) && ["any", "all", "position"].contains(&m.method.to_string().as_str()) => {
                *e = self.search(m);
                return;
            }
            Expr::MethodCall(m) if m.method == "retain" && m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) => {
                *e = self.retain(m);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if self.f.texts {
            if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = e { *e = parse_quote!(vx_text(#l)); }
            if let Expr::Path(p) = e { if p.path.segments.len() == 2 && p.path.segments[0].ident == "String" { p.path.segments[0].ident = format_ident!("Text"); } }
        }
        // a piece of a text
        if self.f.texts && self.f.options.contains("text slices") {
            if let Expr::Reference(r) = &*e {
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(g) = &*i.index {
                        if !matches!(g.limits, RangeLimits::HalfOpen(_)) { lost("closed range of a text"); }
                        let s = &i.expr;
                        let a: Expr = g.start.as_deref().cloned().unwrap_or_else(|| parse_quote!(0));
                        let b: Expr = g.end.as_deref().cloned().unwrap_or_else(|| parse_quote!(#s.len()));
                        *e = parse_quote!(vx_slice(#s, #a, #b));
                    }
                }
            }
        }
        // a map indexed by a reference to a key
        if let Expr::Index(i) = e {
            if matches!(&*i.index, Expr::Reference(_)) {
                let (m, k) = (&i.expr, &i.index);
                *e = parse_quote!((*#m.vx_at(#k)));
            }
        }
        if self.f.reals {
            match e {
                Expr::Lit(ExprLit { lit: Lit::Float(l), .. }) => {
                    let r: proc_macro2::Literal = format!("{}real", l.base10_digits()).parse().unwrap_or_else(|_| lost("float literal"));
                    *e = parse_quote!(vx_lit(Ghost(#r)));
                }
                Expr::Cast(c) if self.f.options.contains("float casts") && ["u8", "u16", "u32", "u64"].contains(&c.ty.to_token_stream().to_string().as_str()) => {
                    let (x, m) = (&c.expr, format_ident!("vx_to_{}", c.ty.to_token_stream().to_string()));
                    *e = parse_quote!((#x).#m());
                }
                Expr::Cast(c) if c.ty.to_token_stream().to_string() == "F" => {
                    let x = &c.expr;
                    *e = parse_quote!((#x).vx_to_f());
                }
                Expr::Binary(b) => {
                    let (l, r) = (&b.left, &b.right);
                    let op: Option<BinOp> = match b.op {
                        BinOp::AddAssign(_) => Some(parse_quote!(+)),
                        BinOp::SubAssign(_) => Some(parse_quote!(-)),
                        BinOp::MulAssign(_) => Some(parse_quote!(*)),
                        BinOp::DivAssign(_) => Some(parse_quote!(/)),
                        _ => None,
                    };
                    if let Some(op) = op { *e = parse_quote!(#l = #l #op (#r)); }
                }
                _ => {}
            }
        }
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let ordinal = self.maps;
                let closure = |i: usize| match m.args.iter().nth(i) { Some(Expr::Closure(c)) => Some(c.clone()), _ => None };
                let recv = &m.receiver;
                let new: Option<Expr> = match (name.as_str(), m.args.len()) {
                    ("as_deref_mut", 0) => Some(parse_quote!((match &mut #recv { Some(__vx_p) => Some(&mut **__vx_p), None => None }))),
                    ("or_default", 0) => match &**recv { Expr::MethodCall(r) if r.method == "entry" && r.args.len() == 1 => { let (d, k) = (&r.receiver, &r.args[0]); Some(parse_quote!(#d.vx_entry(#k))) } _ => None },
                    ("to_string", 0) if self.f.options.contains("shown") => Some(parse_quote!(#recv.vx_show())),
                    ("map", 1) => closure(0).map(|c| {
                        let (p, b) = (&c.inputs[0], &c.body);
                        self.maps += 1;
                        if self.f.options.contains(&format!("result map {ordinal}")) { parse_quote!((match #recv { Ok(#p) => Ok(#b), Err(__vx_e) => Err(__vx_e) })) }
                        else { parse_quote!((match #recv { Some(#p) => Some(#b), None => None })) }
                    }),
                    ("and_then", 1) => closure(0).map(|c| { let (p, b) = (&c.inputs[0], &c.body); parse_quote!((match #recv { Some(#p) => #b, None => None })) }),
                    ("unwrap_or_else", 1) if closure(0).is_none_or(|c| c.inputs.is_empty()) => closure(0).map(|c| { let b = &c.body; parse_quote!((match #recv { Some(__vx_v) => __vx_v, None => #b })) }),
                    // of a result
                    ("unwrap_or_else", 1) => closure(0).filter(|c| c.inputs.len() == 1).map(|c| { let (p, b) = (&c.inputs[0], &c.body); parse_quote!((match #recv { Ok(__vx_v) => __vx_v, Err(#p) => #b })) }),
                    ("or_insert", 1) => match &**recv { Expr::MethodCall(r) if r.method == "entry" && r.args.len() == 1 => { let (d, k, v) = (&r.receiver, &r.args[0], &m.args[0]); Some(parse_quote!(#d.vx_entry_or(#k, #v))) } _ => None },
                    ("or_insert_with", 1) => match &**recv { Expr::MethodCall(r) if r.method == "entry" && r.args.len() == 1 => { let (d, k) = (&r.receiver, &r.args[0]); closure(0).filter(|c| c.inputs.is_empty()).map(|c| { let b = &c.body; parse_quote!(#d.vx_entry_or(#k, #b)) }) } _ => None },
                    ("filter", 1) => closure(0).map(|c| { let (p, b) = (&c.inputs[0], &c.body); parse_quote!((match #recv { Some(__vx_v) => { if { let #p = &__vx_v; #b } { Some(__vx_v) } else { None } } None => None })) }),
                    ("is_some_and", 1) => closure(0).map(|c| { let (p, b) = (&c.inputs[0], &c.body); parse_quote!((match #recv { Some(#p) => #b, None => false })) }),
                    ("is_none_or", 1) => closure(0).map(|c| { let (p, b) = (&c.inputs[0], &c.body); parse_quote!((match #recv { Some(#p) => #b, None => true })) }),
                    ("or_else", 1) => closure(0).filter(|c| c.inputs.is_empty()).map(|c| { let b = &c.body; parse_quote!((match #recv { Some(__vx_v) => Some(__vx_v), None => #b })) }),
                    ("or", 1) => { let b = &m.args[0]; Some(parse_quote!((match #recv { Some(__vx_v) => Some(__vx_v), None => #b }))) }
                    ("map_or_else", 2) => closure(0).filter(|c| c.inputs.is_empty()).and_then(|d| closure(1).map(|c| { let (p, b, d) = (&c.inputs[0], &c.body, &d.body); parse_quote!((match #recv { Some(#p) => #b, None => #d })) })),
                    ("then", 1) => closure(0).filter(|c| c.inputs.is_empty()).map(|c| { let b = &c.body; parse_quote!((if #recv { Some(#b) } else { None })) }),
                    ("then_some", 1) => { let b = &m.args[0]; Some(parse_quote!((if #recv { Some(#b) } else { None }))) }
                    ("map_or", 2) => closure(1).map(|c| { let (p, b, d) = (&c.inputs[0], &c.body, &m.args[0]); parse_quote!((match #recv { Some(#p) => #b, None => #d })) }),
                    _ => None,
                };
                if let Some(n) = new { *e = n; }
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "unreachable" { *e = parse_quote!(vx_never()); }
                else if name == "format" { *e = self.format(&m.mac); }
                else if name == "vec" {
                    if m.mac.tokens.is_empty() { *e = parse_quote!(Vec::new()); }
                    else {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).unwrap_or_else(|x| lost(format!("vec!: {x}")));
                        let a = args.iter();
                        *e = parse_quote!({ let mut __vx_v = Vec::new(); #(__vx_v.push(#a);)* __vx_v });
                    }
                }
                else if LOGS.contains(&name.as_str()) { self.dropped.insert("logging left out".into()); *e = parse_quote!({}); }
            }
            Expr::Match(m) if R::mutable_tuple(&m.expr) && m.arms.iter().any(|a| a.guard.is_some()) => {
                // which arm is decided on shared references, then the arm is taken on the mutable one
                let Expr::Tuple(scrut) = &*m.expr else { unreachable!() };
                let shared: Vec<Expr> = scrut.elems.iter().map(|e| match e { Expr::Reference(r) => { let x = &r.expr; parse_quote!(&#x) } e => e.clone() }).collect();
                let real = &m.expr;
                let which = m.arms.iter().enumerate().map(|(i, a)| {
                    let (p, g, n) = (&a.pat, a.guard.iter().map(|(_, g)| g), proc_macro2::Literal::usize_unsuffixed(i));
                    quote!(#p #(if #g)* => #n,)
                });
                let mut chain: Option<Expr> = None;
                for (i, a) in m.arms.iter().enumerate().rev() {
                    let (p, b, n) = (&a.pat, &a.body, proc_macro2::Literal::usize_unsuffixed(i));
                    let all = matches!(&a.pat, Pat::Tuple(t) if t.elems.iter().all(|p| matches!(p, Pat::Ident(i) if i.subpat.is_none())));
                    let never = if all { quote!() } else { quote!(_ => { vx_never() }) };
                    let one: Expr = parse_quote!(match #real { #p => #b #never });
                    chain = Some(match chain { None => parse_quote!({ #one }), Some(rest) => parse_quote!(if __vx_arm == #n { #one } else { #rest }) });
                }
                *e = parse_quote!({ let __vx_arm: usize = match (#(#shared),*) { #(#which)* }; #chain });
            }
            Expr::Match(m) if m.arms.iter().any(|a| has_slice(&a.pat)) => *e = slices(m),
            Expr::Match(m) if matches!(&*m.expr, Expr::Tuple(_)) && m.arms.iter().any(|a| matches!(&a.pat, Pat::Tuple(t) if !t.elems.is_empty() && t.elems.iter().all(|p| R::str_pats(p).is_some()))) => {
                let Expr::Tuple(scrut) = &*m.expr else { unreachable!() };
                let names: Vec<Ident> = (0..scrut.elems.len()).map(|i| format_ident!("__vx_s{i}")).collect();
                let values = scrut.elems.iter();
                let mut chain: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let body = &a.body;
                    chain = Some(match (&a.pat, chain) {
                        (Pat::Wild(_), None) => parse_quote!(#body),
                        (Pat::Tuple(t), Some(rest)) => {
                            let g = a.guard.iter().map(|(_, g)| g);
                            let tests: Vec<Expr> = t.elems.iter().zip(&names).filter(|(p, _)| !matches!(p, Pat::Wild(_))).map(|(p, n)| {
                                let l = R::str_pats(p).unwrap_or_else(|| lost("string match with a binding"));
                                parse_quote!((#(vx_str_is(#n, #l))||*))
                            }).collect();
                            parse_quote!(if #(#tests)&&* #(&& #g)* #body else { #rest })
                        }
                        _ => lost("match over strings"),
                    });
                }
                let c = chain.unwrap();
                *e = parse_quote!({ #(let #names = #values;)* #c });
            }
            Expr::Match(m) => {
                if m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, Pat::Or(_))) {
                    let mut arms = vec![];
                    for a in std::mem::take(&mut m.arms) {
                        match (&a.pat, &a.guard) {
                            (Pat::Or(o), Some(_)) => for p in &o.cases { arms.push(Arm { pat: p.clone(), ..a.clone() }); },
                            _ => arms.push(a),
                        }
                    }
                    m.arms = arms;
                }
                let strs: Vec<Option<Vec<Lit>>> = m.arms.iter().map(|a| R::str_pats(&a.pat)).collect();
                if strs.iter().any(Option::is_some) {
                    let scrut = &m.expr;
                    let mut chain: Option<Expr> = None;
                    for (a, s) in m.arms.iter().zip(&strs).rev() {
                        let body = &a.body;
                        chain = Some(match (s, chain) {
                            (None, _) => match &a.pat {
                                Pat::Wild(_) => parse_quote!(#body),
                                Pat::Ident(i) if i.subpat.is_none() && a.guard.is_none() => { let i = &i.ident; parse_quote!({ let #i = __vx_s; #body }) }
                                _ => lost("string match with a binding"),
                            },
                            (Some(l), Some(rest)) => { let g = a.guard.iter().map(|(_, g)| g); parse_quote!(if (#(vx_str_is(__vx_s, #l))||*) #(&& #g)* #body else { #rest }) }
                            (Some(_), None) => lost("string match without default"),
                        });
                    }
                    let c = chain.unwrap();
                    *e = parse_quote!({ let __vx_s = #scrut; #c });
                }
            }
            _ => {}
        }
    }
}

fn has_slice(p: &Pat) -> bool {
    match p { Pat::Slice(_) => true, Pat::Tuple(t) => t.elems.iter().any(has_slice), Pat::Or(o) => o.cases.iter().any(has_slice), _ => false }
}
/// a match with patterns `[a, b]` is a chain: every arm tests the length and the items, then binds them
fn slices(m: &ExprMatch) -> Expr {
    let parts: Vec<Expr> = match &*m.expr { Expr::Tuple(t) => t.elems.iter().cloned().collect(), e => vec![e.clone()] };
    let names: Vec<Ident> = (0..parts.len()).map(|i| format_ident!("__vx_s{i}")).collect();
    fn binds(p: &Pat) -> bool {
        struct B(bool);
        impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, i: &'a PatIdent) { if i.ident != "None" { self.0 = true; } } }
        let mut b = B(false);
        b.visit_pat(p);
        b.0
    }
    // tests of a pattern on a place, and what wraps the body of its arm
    fn one(p: &Pat, at: &Expr, tests: &mut Vec<Expr>, lets: &mut Vec<(Pat, Expr, bool)>) {
        match p {
            Pat::Wild(_) => {}
            Pat::Ident(i) if i.subpat.is_none() => lets.push((p.clone(), at.clone(), false)),
            Pat::Slice(s) => {
                if s.elems.iter().any(|e| matches!(e, Pat::Rest(_))) { lost("pattern with .."); }
                let n = proc_macro2::Literal::usize_unsuffixed(s.elems.len());
                tests.push(parse_quote!(#at.len() == #n));
                for (k, e) in s.elems.iter().enumerate() {
                    let k = proc_macro2::Literal::usize_unsuffixed(k);
                    one(e, &parse_quote!(&#at[#k]), tests, lets);
                }
            }
            p => {
                if let Some(l) = R::str_pats(p) { tests.push(parse_quote!((#(vx_str_is(#at, #l))||*))); return; }
                tests.push(parse_quote!((match #at { #p => true, _ => false })));
                if binds(p) { lets.push((p.clone(), at.clone(), true)); }
            }
        }
    }
    let mut chain: Option<Expr> = None;
    for a in m.arms.iter().rev() {
        let subs: Vec<Pat> = match &a.pat { Pat::Tuple(t) if parts.len() > 1 => t.elems.iter().cloned().collect(), Pat::Wild(_) => vec![], p if parts.len() == 1 => vec![p.clone()], _ => lost("pattern over a list") };
        let (mut tests, mut lets) = (vec![], vec![]);
        for (p, n) in subs.iter().zip(&names) { one(p, &parse_quote!(#n), &mut tests, &mut lets); }
        if a.guard.is_some() { lost("guard over a list"); }
        let mut body = (*a.body).clone();
        for (p, at, refutable) in lets.iter().rev() {
            body = if *refutable { parse_quote!({ match #at { #p => #body _ => { vx_never() } } }) } else { parse_quote!({ let #p = #at; #body }) };
        }
        chain = Some(match (tests.is_empty(), chain) {
            (true, _) => parse_quote!(#body),
            (false, Some(rest)) => parse_quote!(if #(#tests)&&* #body else { #rest }),
            (false, None) => parse_quote!(if #(#tests)&&* #body else { vx_never() }),
        });
    }
    let c = chain.unwrap();
    parse_quote!({ #(let #names = #parts;)* #c })
}

/// a local closure that is only called is written out where it is called
fn inline_closures(b: &mut Block, dropped: &mut BTreeSet<String>) {
    struct Find(Vec<(String, ExprClosure)>);
    impl<'a> Visit<'a> for Find {
        fn visit_local(&mut self, l: &'a Local) {
            if let (Pat::Ident(p), Some(LocalInit { expr, diverge: None, .. })) = (&l.pat, &l.init) { if let Expr::Closure(c) = &**expr { self.0.push((p.ident.to_string(), c.clone())); } }
            visit::visit_local(self, l);
        }
    }
    use syn::visit;
    let mut f = Find(vec![]);
    f.visit_block(b);
    for (name, c) in f.0 {
        struct Uses<'a> { name: &'a str, paths: usize, calls: usize, leaves: bool }
        impl<'a> Visit<'a> for Uses<'_> {
            fn visit_expr_path(&mut self, p: &'a ExprPath) { if p.path.is_ident(self.name) { self.paths += 1; } }
            fn visit_expr_call(&mut self, c: &'a ExprCall) { if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) { self.calls += 1; } visit::visit_expr_call(self, c); }
        }
        let mut u = Uses { name: &name, paths: 0, calls: 0, leaves: false };
        u.visit_block(b);
        struct Leaves(bool);
        impl<'a> Visit<'a> for Leaves {
            fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
            fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        }
        let mut l = Leaves(false);
        l.visit_expr(&c.body);
        u.leaves = l.0;
        if u.paths != u.calls || u.calls == 0 || u.leaves { continue; }
        struct Put<'a> { name: &'a str, c: &'a ExprClosure }
        impl VisitMut for Put<'_> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                b.stmts.retain(|s| !matches!(s, Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) if p.ident == self.name && matches!(&*i.expr, Expr::Closure(_))));
                visit_mut::visit_block_mut(self, b);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Call(call) = e { if matches!(&*call.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                    if call.args.len() != self.c.inputs.len() { lost("closure arguments"); }
                    let names: Vec<Ident> = (0..call.args.len()).map(|i| format_ident!("__vx_p{i}")).collect();
                    let (args, pats, body) = (call.args.iter(), self.c.inputs.iter(), &self.c.body);
                    *e = parse_quote!({ #(let #names = #args;)* #(let #pats = #names;)* #body });
                } }
            }
        }
        Put { name: &name, c: &c }.visit_block_mut(b);
        dropped.insert(format!("the local closure {name} is written out where it is called"));
    }
}

/// returns the number of loops
pub fn rewrite(b: &mut Block, sig: &Signature, f: &FnSpec, dropped: &mut BTreeSet<String>) -> usize {
    let refs = sig.inputs.iter().filter_map(|p| match p {
        FnArg::Typed(p) => match (&*p.pat, &*p.ty) { (Pat::Ident(id), Type::Reference(r)) if r.mutability.is_none() => Some(id.ident.to_string()), _ => None },
        _ => None,
    }).collect();
    inline_closures(b, dropped);
    let mut r = R { refs, f, dropped, next: 0, maps: 0 };
    r.visit_block_mut(b);
    r.next
}

/// inserts the markers of `start`, `end`, `before call NAME n`, `after call NAME n`
pub fn ghosts(b: &mut Block, f: &FnSpec) {
    let marker = |i: usize| -> Stmt { let lit = proc_macro2::Literal::usize_unsuffixed(i); parse_quote!(__vx_ghost!(#lit);) };
    struct C<'a> { f: &'a FnSpec, counts: std::collections::BTreeMap<String, usize>, hits: Vec<Vec<(bool, usize)>>, done: BTreeSet<usize> }
    impl C<'_> {
        fn call(&mut self, name: String) {
            let n = self.counts.entry(name.clone()).or_insert(0);
            let k = *n;
            *n += 1;
            for (i, (w, _)) in self.f.ghosts.iter().enumerate() {
                for (before, word) in [(true, "before call "), (false, "after call ")] {
                    if let Some(rest) = w.strip_prefix(word) {
                        let (x, o) = rest.split_once(' ').unwrap_or((rest, "0"));
                        if x == name && o.trim().parse::<usize>() == Ok(k) { if let Some(h) = self.hits.last_mut() { h.push((before, i)); self.done.insert(i); } }
                    }
                }
            }
        }
    }
    impl VisitMut for C<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let old = std::mem::take(&mut b.stmts);
            let n = old.len();
            for (j, mut s) in old.into_iter().enumerate() {
                self.hits.push(vec![]);
                self.visit_stmt_mut(&mut s);
                let hits = self.hits.pop().unwrap();
                let mk = |i: usize| -> Stmt { let lit = proc_macro2::Literal::usize_unsuffixed(i); parse_quote!(__vx_ghost!(#lit);) };
                for (_, i) in hits.iter().filter(|h| h.0) { b.stmts.push(mk(*i)); }
                let tail = j + 1 == n && matches!(s, Stmt::Expr(_, None));
                if tail && hits.iter().any(|h| !h.0) { lost("ghost code after a tail expression"); }
                b.stmts.push(s);
                for (_, i) in hits.iter().filter(|h| !h.0) { b.stmts.push(mk(*i)); }
            }
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::MethodCall(m) => { let n = m.method.to_string(); self.call(n) }
                Expr::Call(c) => if let Expr::Path(p) = &*c.func { let n = p.path.segments.last().unwrap().ident.to_string(); self.call(n) },
                _ => {}
            }
        }
    }
    let mut c = C { f, counts: Default::default(), hits: vec![], done: BTreeSet::new() };
    c.hits.push(vec![]);
    c.visit_block_mut(b);
    for (i, (w, _)) in f.ghosts.iter().enumerate() {
        if w.contains(" call ") && !c.done.contains(&i) { lost(format!("`{w}` in {}", f.path)); }
        if w == "start" { b.stmts.insert(0, marker(i)); }
        else if w == "end" {
            let at = match b.stmts.last() { Some(Stmt::Expr(_, None)) => b.stmts.len() - 1, _ => b.stmts.len() };
            b.stmts.insert(at, marker(i));
        } else if !w.contains(" call ") && !w.starts_with("loop ") { lost(format!("unknown place `{w}`")); }
    }
    let _ = quote!(#b).to_token_stream();
}

fn last_ident(p: &Pat) -> Option<String> {
    match p {
        Pat::Struct(s) => s.path.segments.last().map(|s| s.ident.to_string()),
        Pat::TupleStruct(s) => s.path.segments.last().map(|s| s.ident.to_string()),
        Pat::Path(s) => s.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}
/// `//@arms A,B`: in the match over these variants the other arms become a call that must be proved unreachable
pub fn keep_arms(b: &mut Block, keep: &[String], path: &str) {
    struct K<'a> { keep: &'a [String], done: bool }
    impl VisitMut for K<'_> {
        fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
            let names: Vec<Option<String>> = m.arms.iter().map(|a| last_ident(&a.pat)).collect();
            if names.iter().flatten().any(|n| self.keep.contains(n)) {
                for k in self.keep { if !names.iter().flatten().any(|n| n == k) { lost(format!("case {k}")); } }
                self.done = true;
                for (a, n) in m.arms.iter_mut().zip(&names) {
                    if n.as_ref().map_or(true, |n| !self.keep.contains(n)) {
                        if let (Pat::Struct(p), Some(_)) = (&mut a.pat, n) { p.fields.clear(); p.rest = Some(PatRest { attrs: vec![], dot2_token: Default::default() }); }
                        *a.body = parse_quote!({ vx_unreached(); });
                    }
                }
                return;
            }
            visit_mut::visit_expr_match_mut(self, m);
        }
    }
    let mut k = K { keep, done: false };
    k.visit_block_mut(b);
    if !k.done { lost(format!("cases {} of {path}", keep.join(","))); }
}
