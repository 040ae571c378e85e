//! What Parsel makes of tokens, wherever it runs: outside, or inside the compiler.
#![allow(unused)]
use mc::spec::*;
use parsel::ast::*;
use parsel::util::*;
use parsel::ToTokens;
use proc_macro2::{Spacing, Span, TokenStream, TokenTree};
use std::convert::TryFrom;
use std::fmt::Display;
use std::panic::{catch_unwind, AssertUnwindSafe};
#[path = "zoo.rs"]
pub mod zoo;
#[path = "values.rs"]
pub mod values;
use zoo::*;

/// where something is; nowhere: all of the macro call in the compiler, line 1 column 0 outside
fn at(s: Span) -> String {
    if loose() { return String::new() }
    let (a, b, here) = (s.start(), s.end(), Span::call_site());
    if (a, b) == (here.start(), here.end()) { "nowhere".into() } else { format!("{}:{}-{}:{}", a.line, a.column, b.line, b.column) }
}
/// A stable compiler does not join locations: a negative number is where its sign is; and both
/// tokens of a lifetime are where all of it is. Places in inputs with either are left out.
fn negative(ts: TokenStream) -> bool {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    v.windows(2).any(|w| matches!(w, [TokenTree::Punct(p), TokenTree::Literal(_)] if p.as_char() == '-') || matches!(w, [TokenTree::Punct(p), _] if p.as_char() == '\'')) || v.into_iter().any(|t| matches!(t, TokenTree::Group(g) if negative(g.stream())))
}
thread_local!(static LOOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
thread_local!(pub static SRC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
fn loose() -> bool { LOOSE.with(|l| l.get()) }
fn value(l: &proc_macro2::Literal) -> String {
    match syn::Lit::new(l.clone()) {
        syn::Lit::Str(x) => format!("{:?}", x.value()), syn::Lit::ByteStr(x) => format!("b{:?}", x.value()), syn::Lit::Char(x) => format!("{:?}", x.value()), syn::Lit::Byte(x) => format!("b{}", x.value()), _ => l.to_string(),
    }
}
/// The tokens, with their places. The compiler makes two tokens of a negative number.
fn tokens(ts: TokenStream, o: &mut String) {
    let mut signed = false;
    let mut ts = ts.into_iter().peekable();
    while let Some(t) = ts.next() {
        let sign = matches!((&t, ts.peek()), (TokenTree::Punct(p), Some(TokenTree::Literal(_))) if p.as_char() == '-');
        let after = std::mem::replace(&mut signed, sign);
        match t {
            TokenTree::Punct(_) if sign => *o += " -",
            TokenTree::Literal(l) if after => *o += &format!(" {l}"),
            TokenTree::Group(g) => { *o += &format!(" {:?}@{}[", g.delimiter(), at(g.span())); tokens(g.stream(), o); o.push(']') }
            TokenTree::Punct(p) => *o += &format!(" {}{}@{}", p.as_char(), if p.spacing() == Spacing::Joint { "~" } else { "" }, at(p.span())),
            TokenTree::Ident(i) => *o += &format!(" {i}@{}", at(i.span())),
            TokenTree::Literal(l) => match l.to_string().strip_prefix('-') { Some(d) => *o += &format!(" - {d}"), None => *o += &format!(" {}@{}", value(&l), at(l.span())) },
        }
    }
}
/// Printed text, up to the space within negative numbers and how characters are escaped.
fn text<T: ToTokens>(v: &T) -> String {
    let (mut p, mut c) = (String::new(), String::new());
    let r = (format_ast_node_pretty(v, &mut p), format_ast_node_compact(v, &mut c));
    if c.contains('\\') {
        let was = LOOSE.with(|l| l.replace(true));
        let [p, c] = [p, c].map(|s| { let mut o = String::new(); match s.parse::<TokenStream>() { Ok(t) => tokens(t, &mut o), Err(_) => o += "cannot be read" } o });
        LOOSE.with(|l| l.set(was));
        return format!("{r:?} {p} {c}");
    }
    format!("{r:?} {p:?} {c:?}").replace("- ", "-")
}
fn error(e: syn::Error) -> String { if loose() { return String::new() } e.into_iter().map(|e| format!("{} {e}", at(e.span()))).collect::<Vec<_>>().join(", ") }

fn tree<T: Spec>(v: &T) -> String { let mut o = String::new(); v.tree(&mut o); o }
/// A type on tokens in parentheses, so that their end has a place; then on what is in the parentheses.
fn one<T: Spec + Display + std::str::FromStr<Err = syn::Error>>(ts: TokenStream) -> String {
    let within: TokenStream = match ts.clone().into_iter().next() { Some(TokenTree::Group(g)) => g.stream(), _ => unreachable!() };
    LOOSE.with(|l| l.set(negative(within.clone())));
    let mut o = match parsel::parse2::<Paren<T>>(ts) {
        Err(e) => format!("error {}", error(e)),
        Ok(v) => {
            let mut o = tree(&v);
            o += " | ";
            tokens(v.to_token_stream(), &mut o);
            o += " | ";
            o + &text(&v)
        }
    };
    match parsel::parse2::<T>(within) {
        Err(_) => o += " | error",
        Ok(v) => {
            o = o + " | " + &tree(&v);
            // where its single tokens are in the source
            SRC.with(|s| if s.borrow().len() < 3000 && !loose() { for n in notes(&v, &s.borrow()) { if n.printed.len() == 1 { o += &format!(" {:?} {:?} {:?} {}", n.bytes, n.chars, n.text, n.shown) } } });
            // the text, read again here
            match v.to_string().parse::<T>() { Ok(w) if w == v => {} Ok(w) => o = o + " | read again: " + &tree(&w), Err(_) => o += " | refused when read again" }
            // and quoted
            match (|| -> syn::Result<T> { Ok(parsel::try_parse_quote!(#v)) })() { Ok(w) if w == v => { let (mut a, mut b) = Default::default(); tokens(v.to_token_stream(), &mut a); tokens(w.to_token_stream(), &mut b); if a != b { o = o + " | quoted: " + &b } } Ok(w) => o = o + " | quoted: " + &tree(&w), Err(_) => o += " | refused when quoted" }
        }
    }
    o
}
/// a value that is made here: printed and parsed
fn made(i: usize) -> String {
    static VS: std::sync::OnceLock<Vec<mc::gram::V>> = std::sync::OnceLock::new();
    let l = values::lit_of(&VS.get_or_init(values::values)[i]);
    let (mut o, ts) = (String::new(), l.to_token_stream());
    l.tree(&mut o);
    match parsel::parse2::<Lit>(ts) { Ok(m) => { o += " | "; m.tree(&mut o); if l != m { o += " differs" } } Err(_) => o += " | refused" }
    match l.to_string().parse::<Lit>() { Ok(m) => { o += " | "; m.tree(&mut o); if l != m { o += " differs" } } Err(_) => o += " | refused" }
    o
}

pub type F = fn(TokenStream) -> String;
macro_rules! env_tys { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), one::<$t> as F)),*] } }
pub fn all() -> Vec<(&'static str, F)> { zoo!(env_tys) }

fn guarded(f: impl FnOnce() -> String) -> String { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| format!("panics: {:?}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())))).replace('\n', "\\n") }

/// One line for `n t (tokens...)`: the number, then what the `t`th type makes of the tokens (0: every
/// type, one after another); `n v i`: what becomes of the `i`th value.
pub fn line(ts: TokenStream) -> String {
    let mut it = ts.into_iter();
    let (n, t) = (it.next().unwrap().to_string(), it.next().unwrap().to_string());
    let rest: TokenStream = it.collect();
    let mut s = n;
    match t.as_str() {
        "v" => { let i: usize = rest.to_string().parse().unwrap(); s += "\t"; s += &guarded(|| made(i)) }
        "0" => for (_, f) in all() { s += "\t"; s += &guarded(|| f(rest.clone())) },
        k => { let k: usize = k.parse().unwrap(); s += "\t"; s += &guarded(|| (all()[k - 1].1)(rest)) }
    }
    s
}
