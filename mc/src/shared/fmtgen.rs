//! Token streams for the formatter: building them, comparing them, and the layout they should have.
#![allow(unused)]
use mc::{explore::*, run::*, tok::*};
use parsel::util::*;
use parsel::ToTokens;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::fmt::{self, Write};

pub fn delim(d: D) -> Delimiter { match d { D::Par => Delimiter::Parenthesis, D::Brk => Delimiter::Bracket, D::Brc => Delimiter::Brace } }

/// a stream as quote! would build it; groups delimited by `none` become invisible ones
pub fn build(ts: &[Tok], none: Option<D>) -> TokenStream {
    ts.iter().map(|t| -> TokenTree { match t {
        Tok::I(s) => match s.strip_prefix("r#") { Some(r) => Ident::new_raw(r, Span::call_site()).into(), None => Ident::new(s, Span::call_site()).into() },
        Tok::L(s) => s.parse::<Literal>().unwrap_or_else(|e| panic!("harness: literal {s:?}: {e}")).into(),
        Tok::P(c, j) => Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone }).into(),
        Tok::G(d, inner) => Group::new(if Some(*d) == none { Delimiter::None } else { delim(*d) }, build(inner, none)).into(),
    } }).collect()
}

/// the tokens with invisible groups replaced by their content
pub fn visible(ts: &[Tok], none: Option<D>) -> Vec<Tok> {
    ts.iter().flat_map(|t| match t {
        Tok::G(d, inner) if Some(*d) == none => visible(inner, none),
        Tok::G(d, inner) => vec![Tok::G(*d, visible(inner, none))],
        t => vec![t.clone()],
    }).collect()
}

/// tokens of a stream, exactly
pub fn read(ts: TokenStream) -> Vec<Tok> {
    ts.into_iter().flat_map(|t| match t {
        TokenTree::Ident(i) => vec![Tok::I(i.to_string().into())],
        TokenTree::Literal(l) => vec![Tok::L(l.to_string().into())],
        TokenTree::Punct(p) => vec![Tok::P(p.as_char(), p.spacing() == Spacing::Joint)],
        TokenTree::Group(g) => { let inner = read(g.stream()); match g.delimiter() { Delimiter::Parenthesis => vec![Tok::G(D::Par, inner)], Delimiter::Bracket => vec![Tok::G(D::Brk, inner)], Delimiter::Brace => vec![Tok::G(D::Brc, inner)], Delimiter::None => inner } }
    }).collect()
}

/// The documented layout. `indent`: none for the compact form.
pub fn layout(ts: &[Tok], indent: Option<&str>, level: usize, o: &mut String) {
    let brk = |o: &mut String, level: usize, compact: &str| match indent { Some(s) => { o.push('\n'); for _ in 0..level { o.push_str(s) } } None => o.push_str(compact) };
    for (i, t) in ts.iter().enumerate() {
        match t {
            Tok::I(s) | Tok::L(s) => o.push_str(s),
            Tok::P(c, _) => o.push(*c),
            Tok::G(d, inner) => {
                o.push(d.open());
                if !inner.is_empty() { brk(o, level + 1, ""); layout(inner, indent, level + 1, o); brk(o, level, "") }
                o.push(d.close());
            }
        }
        if i + 1 == ts.len() { break }
        match t {
            Tok::P(',' | ';', false) | Tok::G(..) => brk(o, level, " "),
            Tok::P(_, true) => {}
            _ => o.push(' '),
        }
    }
}
pub fn laid_out(ts: &[Tok], indent: Option<&str>) -> String { let mut o = String::new(); layout(ts, indent, 0, &mut o); o }

pub struct Shown(pub TokenStream, pub bool);
impl fmt::Display for Shown { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if self.1 { format_tokens(self.0.clone(), f) } else { format_ast_node(&self.0, f) } } }

/// the pretty form through every way the library offers
pub fn pretty(ts: &TokenStream) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    macro_rules! w { ($n:expr, |$o:ident| $e:expr) => { { let mut buf = String::new(); { let $o = &mut buf; $e.expect("formatting into a string") }; v.push(($n, buf)) } } }
    w!("format_tokens_pretty", |o| format_tokens_pretty(ts.clone(), o));
    w!("format_ast_node_pretty", |o| format_ast_node_pretty(ts, o));
    w!("TokenStreamFormatter::pretty", |o| TokenStreamFormatter::pretty(o).write(ts.clone()));
    w!("TokenStreamFormatter::pretty on a node", |o| TokenStreamFormatter::pretty(o).write_ast_node(ts));
    w!("TokenStreamFormatter::with_indent", |o| TokenStreamFormatter::with_indent("    ", o).expect("four spaces").write(ts.clone()));
    w!("format_tokens", |o| write!(o, "{}", Shown(ts.clone(), true)));
    w!("format_ast_node", |o| write!(o, "{}", Shown(ts.clone(), false)));
    v
}
pub fn compact(ts: &TokenStream) -> Vec<(&'static str, String)> {
    let mut v = vec![];
    macro_rules! w { ($n:expr, |$o:ident| $e:expr) => { { let mut buf = String::new(); { let $o = &mut buf; $e.expect("formatting into a string") }; v.push(($n, buf)) } } }
    w!("format_tokens_compact", |o| format_tokens_compact(ts.clone(), o));
    w!("format_ast_node_compact", |o| format_ast_node_compact(ts, o));
    w!("TokenStreamFormatter::compact", |o| TokenStreamFormatter::compact(o).write(ts.clone()));
    w!("TokenStreamFormatter::compact on a node", |o| TokenStreamFormatter::compact(o).write_ast_node(ts));
    w!("format_tokens, alternate", |o| write!(o, "{:#}", Shown(ts.clone(), true)));
    w!("format_ast_node, alternate", |o| write!(o, "{:#}", Shown(ts.clone(), false)));
    v
}
pub fn indented(ts: &TokenStream, indent: &str) -> String {
    let mut o = String::new();
    TokenStreamFormatter::with_indent(indent, &mut o).expect("indentation of whitespace").write(ts.clone()).expect("formatting into a string");
    o
}
pub fn indented_owned(ts: &TokenStream, indent: &str) -> String {
    let mut o = String::new();
    TokenStreamFormatter::with_indent(indent.to_string(), &mut o).expect("indentation of whitespace").write_ast_node(ts).expect("formatting into a string");
    o
}

/// all kinds of single tokens and fixed groups of them
pub fn menu() -> Vec<Vec<Tok>> {
    let mut v: Vec<Vec<Tok>> = vec![];
    for w in ["a", "fn", "_", "é", "r", "b", "br", "c", "e1", "u8", "r#fn", "r#a", "true"] { v.push(vec![Tok::I(w.into())]) }
    for l in ["1", "1.5", "1.0", "0x1f", "1u8", "1e5", "1.5f32", "0b1", "'c'", "'\\''", "\"s\"", "\"\"", "r\"s\"", "r#\"s\"#", "b's'", "b\"s\"", "br#\"s\"#", "c\"s\"", "\"a\n  b\"", "\"//\"", "'\"'", "\"s\"suf", "1_x"] { v.push(vec![Tok::L(l.into())]) }
    for c in "+-*/%^!&|=<>@.,;:#$?~".chars() { v.push(vec![Tok::P(c, false)]); v.push(vec![Tok::P(c, true)]) }
    v.push(vec![Tok::P('\'', true), Tok::I("a".into())]);
    v.push(vec![Tok::P('\'', true), Tok::I("static".into())]);
    for d in D::ALL { v.push(vec![Tok::G(d, vec![])]); v.push(vec![Tok::G(d, vec![Tok::I("x".into())])]) }
    v
}
pub const FORMS: &str = "a 1 \"s\" + , ; += ,, ;; ..= -1 'x";

/// A stream of `n` tokens or so, of one of eight kinds: names on one line, operators, a list on
/// one line or on many, groups, a group with everything in it, one long name, one long literal.
pub fn stretch(n: usize, kind: usize) -> Vec<Tok> {
    let mut v: Vec<Tok> = match kind {
        6 => vec![Tok::I(format!("a{}", "b".repeat(n)).into()), Tok::P(',', false), Tok::I("c".into())],
        7 => vec![Tok::L(format!("\"{}\"", "s t".repeat(n)).into()), Tok::P(';', false), Tok::L("1".into())],
        _ => {
            let unit: Vec<Tok> = [vec!["a"], vec!["a", "+="], vec!["a", ","], vec!["a", "+", "1", ";"], vec!["(a)", "[]", "{b}"], vec!["a", "(b)", ",", "1"]][kind].iter().flat_map(|t| toks(t)).collect();
            (0..n).map(|i| unit[i % unit.len()].clone()).collect()
        }
    };
    if kind == 5 { v = vec![Tok::G(D::Brc, v)] }
    normalise(&mut v);
    v
}
