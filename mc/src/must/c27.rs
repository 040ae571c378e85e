//! Uses of the macros as a program may contain them: in functions with error types of their own,
//! in closures and blocks, next to names that could get in the way.
//! (That this file compiles is part of what is checked.)
use parsel::{try_parse_quote, try_parse_quote_spanned};
use parsel::ast::{Lit, LitInt, Many, Word};
use proc_macro2::{Span, TokenStream};

pub type Out = Result<String, String>;
/// what a form gives for the tokens quoted: the values found, or the error returned
pub type Form = fn(&TokenStream, Span) -> Out;

fn text<T: parsel::ToTokens>(v: T) -> String { v.to_token_stream().to_string() }
fn err(e: impl std::fmt::Display) -> String { e.to_string() }

// other error types
fn boxed(x: &TokenStream, s: Span) -> Result<String, Box<dyn std::error::Error>> { let a: LitInt = try_parse_quote!(1 #x); let b: LitInt = try_parse_quote_spanned!(s => 1 #x); Ok(text(a) + &text(b)) }
fn boxed_sync(x: &TokenStream, s: Span) -> Result<String, Box<dyn std::error::Error + Send + Sync + 'static>> { let a: Many<Word> = try_parse_quote!(#x); let b: LitInt = try_parse_quote_spanned!(s => #x); Ok(text(a) + &text(b)) }
enum Mine { Parsing(parsel::Error), #[allow(dead_code)] Other }
impl From<parsel::Error> for Mine { fn from(e: parsel::Error) -> Self { Mine::Parsing(e) } }
fn mine(x: &TokenStream, s: Span) -> Result<String, Mine> { let a: Many<Word> = try_parse_quote!(#x b); let b: LitInt = try_parse_quote_spanned!(s => #x); Ok(text(a) + &text(b)) }
fn mine_plain(x: &TokenStream, _: Span) -> Result<String, Mine> { Ok(text::<LitInt>(try_parse_quote!(#x))) }
struct Text(String);
impl From<syn::Error> for Text { fn from(e: syn::Error) -> Self { Text(e.to_string()) } }
fn texts(x: &TokenStream, s: Span) -> Result<String, Text> { let v: (LitInt, Word) = (try_parse_quote!(7), try_parse_quote_spanned!(s => #x #x)); Ok(text(v.0) + &text(v.1)) }
// values other than the one parsed
fn unit(x: &TokenStream, _: Span) -> parsel::Result<()> { let _: LitInt = try_parse_quote!(#x); Ok(()) }
fn option(x: &TokenStream, s: Span) -> parsel::Result<Option<Vec<LitInt>>> { Ok(Some(vec![try_parse_quote!(5), try_parse_quote_spanned!(s => #x)])) }
// in expressions
fn closure(x: &TokenStream, s: Span) -> Result<String, String> {
    let f = || -> parsel::Result<LitInt> { Ok(try_parse_quote!(#x)) };
    let g = |s: Span| -> Result<LitInt, Mine> { Ok(try_parse_quote_spanned!(s => #x)) };
    match (f(), g(s)) { (Ok(a), Ok(b)) => Ok(text(a) + &text(b)), (Err(e), Err(Mine::Parsing(f))) if e.to_string() == f.to_string() => Err(err(e)), _ => Err("one of two".into()) }
}
fn tail(x: &TokenStream, s: Span) -> parsel::Result<String> { Ok(if s.start().line > 1_000_000 { String::new() } else { text::<Many<LitInt>>(try_parse_quote! { #x }) }) }
fn loops(x: &TokenStream, s: Span) -> parsel::Result<String> { let mut o = String::new(); for _ in 0..2 { let a: LitInt = try_parse_quote_spanned! { s => #x }; o += &text(a) } Ok(o) }
fn matched(x: &TokenStream, _: Span) -> parsel::Result<String> { match try_parse_quote!(#x) { Lit::Int(i) => Ok(text(i)), l => Ok(text(l)) } }
fn method(x: &TokenStream, s: Span) -> parsel::Result<String> { Ok(text::<LitInt>(try_parse_quote!(6)) + &text::<LitInt>(try_parse_quote_spanned![s => #x])) }
fn nothing(_: &TokenStream, s: Span) -> parsel::Result<String> { let a: Many<Word> = try_parse_quote!(a); let b: LitInt = try_parse_quote_spanned!(s =>); Ok(text(a) + &text(b)) }
fn nothing_plain(_: &TokenStream, _: Span) -> parsel::Result<String> { let b: LitInt = try_parse_quote!(); Ok(text(b)) }
fn asynchronous(x: &TokenStream, s: Span) -> Result<String, String> {
    let f = async { let a: LitInt = try_parse_quote!(#x); let b: LitInt = try_parse_quote_spanned!(s => #x); Ok::<_, parsel::Error>(text(a) + &text(b)) };
    let mut f = std::pin::pin!(f);
    struct W; impl std::task::Wake for W { fn wake(self: std::sync::Arc<Self>) {} }
    match f.as_mut().poll(&mut std::task::Context::from_waker(&std::sync::Arc::new(W).into())) { std::task::Poll::Ready(r) => r.map_err(err), _ => Err("pending".into()) }
}
use std::future::Future;
// names of the program's own
fn names(x: &TokenStream, span: Span) -> parsel::Result<String> {
    let (value, error, tokens, result, stream, e, v, ts) = (x, x, x, x, x, x, x, x);
    let a: Many<Word> = try_parse_quote!(#value #error #tokens #result #stream #e #v #ts);
    let b: Many<LitInt> = try_parse_quote_spanned!(span => #value #error #tokens #result #stream #e #v #ts);
    Ok(text(a) + &text(b))
}
mod shadowed {
    #![no_implicit_prelude]
    #![allow(dead_code, non_camel_case_types)]
    use super::{Span, LitInt};
    pub struct Result; pub struct Option; pub struct Error; pub struct TokenStream; pub struct From; pub struct Into;
    pub fn Ok() {} pub fn Err() {} pub fn Some() {} pub fn None() {}
    pub fn parse2() {} pub fn parse_str() {}
    mod parsel {} mod syn {} mod quote {} mod proc_macro2 {} mod core {} mod std {}
    macro_rules! quote { ($($t:tt)*) => { compile_error!("the wrong macro") } }
    macro_rules! quote_spanned { ($($t:tt)*) => { compile_error!("the wrong macro") } }
    pub fn run(x: &::proc_macro2::TokenStream, s: Span) -> ::parsel::Result<::std::string::String> {
        let _ = s;
        let a: LitInt = ::parsel::try_parse_quote!(#x);
        let b: LitInt = ::parsel::try_parse_quote_spanned!(s => #x);
        ::parsel::Result::Ok(super::text(a) + &super::text(b))
    }
}
fn place(x: &TokenStream, _: Span) -> parsel::Result<String> {
    // the location is an expression, of a value that is moved into it
    struct Place(Span);
    let p = Place(Span::call_site());
    let mut n = 0;
    let a: LitInt = try_parse_quote_spanned!({ n += 1; p.0 } => 1);
    assert_eq!(n, 1, "the location is computed {n} times");
    let q = Some(a.span());
    let b: LitInt = try_parse_quote_spanned!(q.unwrap_or_else(Span::call_site) => #x);
    Ok(text(a) + &text(b))
}

/// Each with what it quotes, in order: `I` a number, `w` a word, `W` words, `N` numbers, `L` a
/// literal; `@` stands for the tokens.
pub fn forms() -> Vec<(&'static str, Form, &'static [(char, &'static str)])> {
    vec![
        ("an error type Box<dyn Error>", |x, s| boxed(x, s).map_err(err), &[('I', "1 @"), ('I', "1 @")]),
        ("an error type Box<dyn Error + Send + Sync>", |x, s| boxed_sync(x, s).map_err(err), &[('W', "@"), ('I', "@")]),
        ("an error type of the program", |x, s| mine(x, s).map_err(|e| match e { Mine::Parsing(e) => err(e), Mine::Other => "other".into() }), &[('W', "@ b"), ('I', "@")]),
        ("an error type of the program, plain", |x, s| mine_plain(x, s).map_err(|e| match e { Mine::Parsing(e) => err(e), Mine::Other => "other".into() }), &[('I', "@")]),
        ("a textual error type", |x, s| texts(x, s).map_err(|e| e.0), &[('I', "7"), ('w', "@ @")]),
        ("a result without value", |x, s| unit(x, s).map(|_| text(x)).map_err(err), &[('I', "@")]),
        ("a result with another value", |x, s| option(x, s).map(|v| v.unwrap().into_iter().map(text).collect()).map_err(err), &[('I', "5"), ('I', "@")]),
        ("closures", closure, &[('I', "@"), ('I', "@")]),
        ("the end of a block", |x, s| tail(x, s).map_err(err), &[('N', "@")]),
        ("a loop", |x, s| loops(x, s).map_err(err), &[('I', "@"), ('I', "@")]),
        ("a scrutinee", |x, s| matched(x, s).map_err(err), &[('L', "@")]),
        ("an argument", |x, s| method(x, s).map_err(err), &[('I', "6"), ('I', "@")]),
        ("nothing quoted, located", |x, s| nothing(x, s).map_err(err), &[('W', "a"), ('I', "")]),
        ("nothing quoted", |x, s| nothing_plain(x, s).map_err(err), &[('I', "")]),
        ("an async block", asynchronous, &[('I', "@"), ('I', "@")]),
        ("names of the program", |x, s| names(x, s).map_err(err), &[('W', "@ @ @ @ @ @ @ @"), ('N', "@ @ @ @ @ @ @ @")]),
        ("a module with other meanings of all names", |x, s| shadowed::run(x, s).map_err(err), &[('I', "@"), ('I', "@")]),
        ("a computed location", |x, s| place(x, s).map_err(err), &[('I', "1"), ('I', "@")]),
    ]
}
