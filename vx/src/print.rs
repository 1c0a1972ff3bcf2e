//! Prints token streams as lines, expanding the `vx_loop!` markers.

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Marks {
    /// invariants and decreases of loop n, printed before the body's `{`
    pub loops: BTreeMap<usize, String>,
    /// text at the start / end of the body of loop n
    pub in_loop: BTreeMap<usize, String>,
    pub end_loop: BTreeMap<usize, String>,
    pub after_loop: BTreeMap<usize, String>,
    pub before_loop: BTreeMap<usize, String>,
    /// text of the `vx_proof!(k)` markers
    pub proofs: BTreeMap<usize, String>,
}

fn marker(toks: &[TokenTree], name: &str) -> Option<usize> {
    match toks {
        [TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g), ..] if i == name && p.as_char() == '!' => {
            g.stream().to_string().trim().parse().ok()
        }
        _ => None,
    }
}

pub fn print(ts: TokenStream, marks: &Marks) -> String {
    let mut out = String::new();
    emit(ts, marks, &mut out, 1);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    if !out.ends_with('\n') {
        out.push('\n');
    }
    for _ in 0..ind {
        out.push_str("    ");
    }
}

fn emit(ts: TokenStream, marks: &Marks, out: &mut String, ind: usize) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(n) = marker(&toks[i..], "vx_loop") {
            if let Some(t) = marks.in_loop.get(&n) {
                nl(out, ind);
                out.push_str(t);
                nl(out, ind);
            }
            i += 4;
            continue;
        }
        if let Some(n) = marker(&toks[i..], "vx_end") {
            if let Some(t) = marks.end_loop.get(&n) {
                if !ends_diverging(out) {
                    nl(out, ind);
                    out.push_str(t);
                    nl(out, ind);
                }
            }
            i += 4;
            continue;
        }
        if let Some(n) = marker(&toks[i..], "vx_before") {
            if let Some(t) = marks.before_loop.get(&n) {
                nl(out, ind);
                out.push_str(t);
                nl(out, ind);
            }
            i += 4;
            continue;
        }
        if let Some(n) = marker(&toks[i..], "vx_after") {
            if let Some(t) = marks.after_loop.get(&n) {
                nl(out, ind);
                out.push_str(t);
                nl(out, ind);
            }
            i += 4;
            continue;
        }
        if let Some(n) = marker(&toks[i..], "vx_proof") {
            nl(out, ind);
            out.push_str(&marks.proofs[&n]);
            nl(out, ind);
            i += 4;
            continue;
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let Some(n) = marker(&inner, "vx_loop") {
                        if let Some(t) = marks.loops.get(&n) {
                            nl(out, ind + 1);
                            out.push_str(t);
                            nl(out, ind);
                        }
                    }
                    out.push_str(o);
                    nl(out, ind + 1);
                    emit(g.stream(), marks, out, ind + 1);
                    nl(out, ind);
                    out.push_str(c);
                    let next_is_else = matches!(toks.get(i + 1), Some(TokenTree::Ident(id)) if id == "else");
                    let next_punct = matches!(toks.get(i + 1), Some(TokenTree::Punct(_)));
                    if !next_is_else && !next_punct {
                        nl(out, ind);
                    } else {
                        out.push(' ');
                    }
                } else {
                    out.push_str(o);
                    emit(g.stream(), marks, out, ind + 1);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(c);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    if p.as_char() == ';' {
                        nl(out, ind);
                    } else if p.as_char() == '\'' {
                    } else {
                        out.push(' ');
                    }
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}

fn ends_diverging(_out: &str) -> bool {
    false
}
