//! Types over leaves of every kind, and an alphabet with tokens of every kind: what a production
//! does must not depend on which kind of token it meets.
#![allow(unused)]
pub const KINDS: &str = "a fn true 1 -1 1.5 -1.5 'c' \"s\" b'x' b\"s\" _ 'a + ; , -> && ///";
pub const FEW: &str = "a fn 1 -1.5 \"s\" 'a + ; , -> &&";

/// Calls `$m!(v; ..)` once for each pair of an item and another production: items of every kind
/// before, after or between others of every kind.
#[macro_export]
macro_rules! over_kinds { ($m:ident, $v:ident) => {
    $m!($v; Ident, Token![;]); $m!($v; Word, Token![->]); $m!($v; Token![fn], Ident); $m!($v; LitBool, LitInt); $m!($v; LitInt, Token![+]); $m!($v; LitUint, LitInt); $m!($v; LitFloat, LitInt);
    $m!($v; LitChar, LitStr); $m!($v; LitStr, LitByteStr); $m!($v; LitByte, syn::Lifetime); $m!($v; LitByteStr, Token![&&]); $m!($v; Lit, Token![;]); $m!($v; syn::Lifetime, Token![+]); $m!($v; syn::Lifetime, Ident);
    $m!($v; Token![->], Token![;]); $m!($v; Token![&&], Token![&]); $m!($v; Token![&], Token![&&]); $m!($v; Token![_], syn::Lifetime); $m!($v; Token![;], Lit); $m!($v; Token![->], syn::Lifetime);
    $m!($v; Paren<Ident>, Token![->]); $m!($v; Bracket<Lit>, LitInt); $m!($v; Brace<syn::Lifetime>, syn::Lifetime); $m!($v; Paren<Token![&&]>, Bracket<LitFloat>); $m!($v; Bracket<Empty>, Brace<Empty>); $m!($v; Lit, Paren<Lit>);
} }

/// Calls `$m!(v; ..)` once for each kind of item: for productions that must put back, or must not
/// take, several tokens of a kind at once.
#[macro_export]
macro_rules! over_each { ($m:ident, $v:ident) => {
    $m!($v; Ident); $m!($v; Word); $m!($v; Token![fn]); $m!($v; LitBool); $m!($v; LitInt); $m!($v; LitUint); $m!($v; LitFloat); $m!($v; LitChar); $m!($v; LitStr); $m!($v; LitByte); $m!($v; LitByteStr); $m!($v; Lit);
    $m!($v; syn::Lifetime); $m!($v; Token![;]); $m!($v; Token![,]); $m!($v; Token![->]); $m!($v; Token![&&]); $m!($v; Token![&]); $m!($v; Token![_]); $m!($v; Token![-]); $m!($v; Token![#]);
    $m!($v; Paren<Ident>); $m!($v; Bracket<Empty>); $m!($v; Brace<Lit>); $m!($v; Paren<Any<Ident>>);
} }
