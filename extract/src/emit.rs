//! Prints tokens with line breaks and splices specification text at the markers left by the rewriter.
use crate::FnSpec;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn plain(ts: TokenStream) -> String {
    let mut o = String::new();
    go(ts, None, &mut o);
    o
}
pub fn emit(ts: TokenStream, f: &FnSpec) -> String {
    let mut o = String::new();
    go(ts, Some(f), &mut o);
    o
}

/// `name!(K);` at position i
fn marker(v: &[TokenTree], i: usize) -> Option<(String, String)> {
    match (v.get(i), v.get(i + 1), v.get(i + 2)) {
        (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) if p.as_char() == '!' && id.to_string().starts_with("__vx_") => {
            Some((id.to_string(), g.stream().to_string()))
        }
        _ => None,
    }
}

fn go(ts: TokenStream, f: Option<&FnSpec>, o: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let (Some(f), Some((name, arg))) = (f, marker(&v, i)) {
            match name.as_str() {
                "__vx_false" => o.push_str("\nassert(false);\n"),
                "__vx_ghost" => {
                    let k: usize = arg.trim().parse().unwrap();
                    o.push('\n');
                    o.push_str(&f.ghosts[k].1);
                }
                _ => {}
            }
            i += 3;
            if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') { i += 1; }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match g.delimiter() {
                    Delimiter::Brace => {
                        if let (Some(f), Some((name, arg))) = (f, marker(&inner, 0)) {
                            if name == "__vx_loop" {
                                let k: usize = arg.trim().parse().unwrap();
                                if let Some(text) = f.loops.get(&k) {
                                    o.push('\n');
                                    o.push_str(text);
                                }
                            }
                        }
                        o.push_str(" {\n");
                        go(g.stream(), f, o);
                        o.push_str("}\n");
                    }
                    Delimiter::Parenthesis => { o.push('('); go(g.stream(), f, o); o.push_str(") "); }
                    Delimiter::Bracket => { o.push('['); go(g.stream(), f, o); o.push_str("] "); }
                    Delimiter::None => go(g.stream(), f, o),
                }
            }
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                if p.as_char() == ';' { o.push('\n'); }
                else if p.as_char() == ',' { o.push(' '); }
                else if p.spacing() == Spacing::Alone { o.push(' '); }
            }
            t => { o.push_str(&t.to_string()); o.push(' '); }
        }
        i += 1;
    }
}
