//! Binding between Parsel's Rust types and the reference model: for each type its
//! grammar, and for each value the model's description of it.
use crate::gram::*;
use crate::tok::*;
use parsel::ast::*;
use parsel::ToTokens;
use syn::parse::{Parse, ParseStream, Parser};
use proc_macro2::{Span, TokenStream};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Spec: Parse + ToTokens + PartialEq + Eq + Hash + Debug {
    fn g() -> G;
    fn tree(&self, o: &mut String);
    /// `tree`, and after it what `noting` takes note of
    fn node(&self, o: &mut String) { self.tree(o); note(self) }
    /// the same value assembled in code, without source locations; `how` selects
    /// among the ways the API offers
    fn rebuild(&self, how: u32) -> Self;
}

/// What is recorded of a node: where it says it is.
#[derive(Clone, Debug, PartialEq)]
pub struct Note { pub what: &'static str, pub lc: Lc, pub bytes: std::ops::Range<usize>, pub chars: std::ops::Range<usize>, pub text: String, pub shown: String, pub printed: Vec<Lc>, pub empty: bool }
thread_local!(static NOTES: std::cell::RefCell<Option<(String, Vec<Note>)>> = const { std::cell::RefCell::new(None) });
fn note<T: ToTokens + ?Sized>(x: &T) {
    NOTES.with(|n| if let Some((src, v)) = n.borrow_mut().as_mut() { v.push(note_of(x, src)) })
}
pub fn note_of<T: ToTokens + ?Sized>(x: &T, src: &str) -> Note {
    use parsel::util::SpannedExt;
    // without tokens there is nothing to locate
    let empty = x.to_token_stream().is_empty();
    let what = std::any::type_name::<T>();
    if empty { return Note { what, lc: Lc::NOWHERE, bytes: 0..0, chars: 0..0, text: String::new(), shown: String::new(), printed: vec![], empty } }
    Note { what, lc: Lc::of(SpannedExt::span(x)), bytes: x.byte_range(src), chars: x.char_range(src), text: x.source_substring(src).to_string(), shown: x.format_span().to_string(), printed: { let mut v = vec![]; places(x.to_token_stream(), &mut v); v }, empty }
}
/// the locations of all tokens, with delimiters on their own
pub fn places(ts: TokenStream, v: &mut Vec<Lc>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => { v.push(Lc::of(g.span_open())); places(g.stream(), v); v.push(Lc::of(g.span_close())) }
            t => v.push(Lc::of(t.span())),
        }
    }
}
/// The notes about every node of a value, children first.
pub fn notes<T: Spec>(v: &T, src: &str) -> Vec<Note> {
    NOTES.with(|n| *n.borrow_mut() = Some((src.to_string(), vec![])));
    v.node(&mut String::new());
    NOTES.with(|n| n.borrow_mut().take().unwrap().1)
}

/// how many values of `how` are worth trying
pub const HOWS: u32 = 6;

fn nowhere() -> Span { Span::call_site() }

pub fn gb<T: Spec>() -> Box<G> { Box::new(T::g()) }

fn lf<T: Parse>(k: K) -> G { G::Leaf(Leaf { k, msg: leaf_msg::<T> }) }

pub fn new_ident(s: &str) -> Ident { match s.strip_prefix("r#") { Some(r) => Ident::new_raw(r, nowhere()), None => Ident::new(s, nowhere()) } }

macro_rules! syn_lit {
    (Bool, $s:ident) => { LitBool::from(syn::LitBool::new($s.value(), nowhere())) };
    (Byte, $s:ident) => { LitByte::from(syn::LitByte::new($s.value(), nowhere())) };
    (Char, $s:ident) => { LitChar::from(syn::LitChar::new($s.value(), nowhere())) };
    (Str, $s:ident) => { LitStr::from(&*$s.value()) };
    (ByteStr, $s:ident) => { LitByteStr::from(&$s.value()[..]) };
    (Int, $s:ident) => { LitInt::try_from(syn::LitInt::new(&$s.value().to_string(), nowhere())).expect("LitInt from syn") };
    (Uint, $s:ident) => { LitUint::try_from(syn::LitInt::new(&$s.value().to_string(), nowhere())).expect("LitUint from syn") };
    (Float, $s:ident) => { LitFloat::try_from($s.value().into_inner()).expect("LitFloat from f64") };
}

macro_rules! leaves { ($($t:ty, $k:expr, |$s:ident, $o:ident| $e:expr, |$h:ident| $r:expr;)*) => {$(
    impl Spec for $t {
        fn g() -> G { lf::<$t>($k) }
        fn tree(&self, $o: &mut String) { let $s = self; $e }
        fn rebuild(&self, $h: u32) -> Self { let _ = $h; let $s = self; $r }
    }
)*} }

leaves! {
    Ident, K::Ident, |s, o| { o.push(' '); o.push_str(&s.to_string()) }, |h| new_ident(&s.to_string());
    LitBool, K::Bool, |s, o| V::Bool(s.value()).put(o), |h| match h % 4 { 0 => LitBool::from(s.value()), 1 => LitBool::new(s.value(), nowhere()), 2 => { let mut x = LitBool::new(s.clone().into_inner(), Span::mixed_site()); x.set_span(nowhere()); x } _ => syn_lit!(Bool, s) };
    LitByte, K::Byte, |s, o| V::Byte(s.value()).put(o), |h| match h % 4 { 0 => LitByte::from(s.value()), 1 => LitByte::new(s.value(), nowhere()), 2 => { let mut x = LitByte::new(s.clone().into_inner(), Span::mixed_site()); x.set_span(nowhere()); x } _ => syn_lit!(Byte, s) };
    LitInt, K::Int, |s, o| V::Int(s.value() as i128).put(o), |h| match h % 4 { 0 => LitInt::from(s.value()), 1 => LitInt::new(s.value(), nowhere()), 2 => { let mut x = LitInt::new(s.clone().into_inner(), Span::mixed_site()); x.set_span(nowhere()); x } _ => syn_lit!(Int, s) };
    LitUint, K::Uint, |s, o| V::Int(s.value() as i128).put(o), |h| match h % 4 { 0 => LitUint::from(s.value()), 1 => LitUint::new(s.value(), nowhere()), 2 => { let mut x = LitUint::new(s.clone().into_inner(), Span::mixed_site()); x.set_span(nowhere()); x } _ => syn_lit!(Uint, s) };
    LitFloat, K::Float, |s, o| V::Float(s.value().into_inner()).put(o), |h| match h % 4 { 0 => LitFloat::from(s.value()), 1 => LitFloat::new(s.value(), nowhere()), 2 => { let mut x = LitFloat::new(s.clone().into_inner(), Span::mixed_site()); x.set_span(nowhere()); x } _ => syn_lit!(Float, s) };
    LitChar, K::Char, |s, o| V::Char(s.value()).put(o), |h| match h % 4 { 0 => LitChar::from(s.value()), 1 => LitChar::new(s.value(), nowhere()), 2 => { let mut x = LitChar::new(s.clone().into_inner(), Span::mixed_site()); x.set_span(nowhere()); x } _ => syn_lit!(Char, s) };
    LitStr, K::Str, |s, o| V::Str(s.value()).put(o), |h| match h % 4 { 0 => LitStr::from(s.value()), 1 => LitStr::new(s.value(), nowhere()), 2 => { let mut x = LitStr::new(s.clone().into_inner(), Span::mixed_site()); x.set_span(nowhere()); x } _ => syn_lit!(Str, s) };
    LitByteStr, K::ByteStr, |s, o| V::ByteStr(s.value()).put(o), |h| match h % 4 { 0 => LitByteStr::from(s.value()), 1 => LitByteStr::new(s.value(), nowhere()), 2 => { let mut x = LitByteStr::new(s.clone().into_inner(), Span::mixed_site()); x.set_span(nowhere()); x } _ => syn_lit!(ByteStr, s) };
    Empty, K::Empty, |s, o| { let _ = s; o.push_str(" empty") }, |h| { let _ = s; if h % 2 == 0 { Empty } else { Empty::new() } };
    Eof, K::Eof, |s, o| { let _ = s; o.push_str(" eof") }, |h| { let _ = s; if h % 2 == 0 { Eof } else { Eof::default() } };
    NotEof, K::NotEof, |s, o| { let _ = s; o.push_str(" more") }, |h| { let _ = s; if h % 2 == 0 { NotEof } else { NotEof::default() } };
    syn::Lifetime, K::Life, |s, o| { o.push(' '); o.push_str(&s.to_string()) }, |h| syn::Lifetime::new(&s.to_string(), nowhere());
    Lit, K::Lit, |s, o| match s {
        Lit::Bool(l) => V::Bool(l.value()).put(o), Lit::Byte(l) => V::Byte(l.value()).put(o),
        Lit::Int(l) => { o.push_str(" int"); V::Int(l.value() as i128).put(o) }
        Lit::Uint(l) => { o.push_str(" uint"); V::Int(l.value() as i128).put(o) }
        Lit::Float(l) => V::Float(l.value().into_inner()).put(o), Lit::Char(l) => V::Char(l.value()).put(o),
        Lit::Str(l) => V::Str(l.value()).put(o), Lit::ByteStr(l) => V::ByteStr(l.value()).put(o),
    }, |h| if h % 2 == 0 { match s {
        Lit::Bool(l) => l.value().into(), Lit::Byte(l) => l.value().into(), Lit::Int(l) => l.value().into(), Lit::Uint(l) => l.value().into(),
        Lit::Float(l) => l.value().into(), Lit::Char(l) => l.value().into(), Lit::Str(l) => l.value().into(), Lit::ByteStr(l) => l.value().into(),
    } } else { match s {
        Lit::Bool(l) => l.rebuild(h / 2).into(), Lit::Byte(l) => l.rebuild(h / 2).into(), Lit::Int(l) => l.rebuild(h / 2).into(), Lit::Uint(l) => l.rebuild(h / 2).into(),
        Lit::Float(l) => l.rebuild(h / 2).into(), Lit::Char(l) => l.rebuild(h / 2).into(), Lit::Str(l) => l.rebuild(h / 2).into(), Lit::ByteStr(l) => l.rebuild(h / 2).into(),
    } };
}

impl<L: KeywordList + Default + Eq + Hash> Spec for CustomIdent<L> {
    fn g() -> G { lf::<Self>(K::Word(L::KEYWORDS)) }
    fn tree(&self, o: &mut String) { o.push(' '); o.push_str(&self.to_string()) }
    fn rebuild(&self, _: u32) -> Self { CustomIdent::try_from(new_ident(&self.to_string())).expect("CustomIdent from Ident") }
}

macro_rules! ops { ($($t:tt)*) => {$(
    impl Spec for Token![$t] {
        fn g() -> G { lf::<Self>(K::Op(stringify!($t))) }
        fn tree(&self, o: &mut String) { o.push(' '); o.push_str(stringify!($t)) }
        fn rebuild(&self, _: u32) -> Self { Default::default() }
    }
)*} }
ops!(+ - * / , ; : :: = == += .. ..= ... . -> <- => && & | || < > <= >= << >> <<= >>= ! != # ? % ^ @ ~ $ -= *= /= %= ^= &= |=);
macro_rules! kws { ($($t:tt)*) => {$(
    impl Spec for Token![$t] {
        fn g() -> G { lf::<Self>(K::RKw(stringify!($t))) }
        fn tree(&self, o: &mut String) { o.push(' '); o.push_str(stringify!($t)) }
        fn rebuild(&self, _: u32) -> Self { Default::default() }
    }
)*} }
kws!(fn if let else match struct as in _);

/// Spec of keyword types declared with `define_keywords!`
#[macro_export]
macro_rules! kw_spec { ($($t:ty => $s:expr;)*) => {$(
    impl $crate::spec::Spec for $t {
        fn g() -> $crate::gram::G { $crate::gram::G::Leaf($crate::gram::Leaf { k: $crate::gram::K::Kw($s), msg: $crate::gram::leaf_msg::<$t> }) }
        fn tree(&self, o: &mut String) { o.push(' '); o.push_str($s) }
        fn rebuild(&self, how: u32) -> Self { if how % 2 == 0 { Default::default() } else { <$t>::new(proc_macro2::Span::call_site()) } }
    }
)*} }

impl<T: Spec> Spec for Box<T> {
    fn g() -> G { G::Ref(T::g) }
    fn tree(&self, o: &mut String) { (**self).node(o) }
    fn rebuild(&self, how: u32) -> Self { Box::new((**self).rebuild(how)) }
}

macro_rules! groups { ($($t:ident $d:expr;)*) => {$(
    impl<T: Spec> Spec for $t<T> {
        fn g() -> G { G::Grp($d, gb::<T>()) }
        fn tree(&self, o: &mut String) { o.push_str(" ("); o.push_str($d.name()); self.as_ref().node(o); o.push(')') }
        fn rebuild(&self, how: u32) -> Self {
            let inner = self.as_ref().rebuild(how);
            match how % 5 { 0 => $t::new(inner, nowhere()), 1 => $t::from((token::$t(nowhere()), inner)), 2 => $t::from((token::$t::default(), inner)), 3 => $t::from(inner),
                _ => { let (tok, inner) = $t::new(inner, nowhere()).into_parts(); $t::from((tok, inner)) } }
        }
    }
)*} }
groups! { Paren D::Par; Bracket D::Brk; Brace D::Brc; }

impl<P: Spec, T: Spec> Spec for Maybe<P, T> {
    fn g() -> G { G::Maybe(gb::<P>(), gb::<T>()) }
    fn tree(&self, o: &mut String) {
        match self.as_parts() { None => o.push_str(" none"), Some((p, t)) => { o.push_str(" (some"); p.node(o); t.node(o); o.push(')') } }
    }
    fn rebuild(&self, how: u32) -> Self {
        match self.as_parts() {
            None => match how % 3 { 0 => Maybe::new(), 1 => Maybe::default(), _ => Maybe::from(None::<(P, T)>) },
            Some((p, t)) => { let x = (p.rebuild(how), t.rebuild(how)); match how % 3 { 0 => Maybe::from(Some(x)), 1 => maybe_of(x), _ => { let mut m = Maybe::new(); *m = Some(x); m } } }
        }
    }
}
// (the tuple conversion is ambiguous where P: Default, hence spelled out)
fn maybe_of<P, T>(x: (P, T)) -> Maybe<P, T> { <Maybe<P, T> as From<(P, T)>>::from(x) }
fn pairs_rebuild<'a, T: Spec + 'a, P: Spec + 'a>(it: impl Iterator<Item = syn::punctuated::Pair<&'a T, &'a P>>, how: u32) -> Vec<syn::punctuated::Pair<T, P>> {
    it.map(|p| { let (t, p) = p.into_tuple(); syn::punctuated::Pair::new(t.rebuild(how), p.map(|p| p.rebuild(how))) }).collect()
}
fn pairs_tree<'a, T: Spec + 'a, P: Spec + 'a>(it: impl Iterator<Item = syn::punctuated::Pair<&'a T, &'a P>>, o: &mut String) {
    for p in it { let (t, p) = p.into_tuple(); t.node(o); if let Some(p) = p { o.push_str(" ,"); p.node(o) } }
}
impl<T: Spec, P: Spec> Spec for Punctuated<T, P> {
    fn g() -> G { G::Punct(gb::<T>(), gb::<P>()) }
    fn tree(&self, o: &mut String) { o.push_str(" ["); pairs_tree(self.pairs(), o); o.push_str(" ]") }
    fn rebuild(&self, how: u32) -> Self {
        let v = pairs_rebuild(self.pairs(), how);
        match how % 3 {
            0 => v.into_iter().collect(),
            1 => { let mut s = syn::punctuated::Punctuated::new(); for p in v { let (t, p) = p.into_tuple(); s.push_value(t); if let Some(p) = p { s.push_punct(p) } } Punctuated::from(s) }
            _ => { let mut s = Punctuated::new(); for p in v { let (t, p) = p.into_tuple(); s.push_value(t); if let Some(p) = p { s.push_punct(p) } } s }
        }
    }
}
impl<T: Spec, P: Spec> Spec for Separated<T, P> {
    fn g() -> G { G::Sep(gb::<T>(), gb::<P>()) }
    fn tree(&self, o: &mut String) { o.push_str(" <"); pairs_tree(self.pairs(), o); o.push_str(" >") }
    fn rebuild(&self, how: u32) -> Self {
        let v = pairs_rebuild(self.pairs(), how);
        if how % 2 == 0 { Separated::try_from(v.into_iter().collect::<syn::punctuated::Punctuated<T, P>>()).expect("Separated from a valid list") }
        else {
            let mut it = v.into_iter();
            let (t, mut sep) = it.next().unwrap().into_tuple();
            let mut one = syn::punctuated::Punctuated::new();
            one.push_value(t);
            let mut s = Separated::try_from(one).expect("Separated from a single item");
            for p in it { let (t, p) = p.into_tuple(); let q = sep.take().unwrap(); if how % 3 == 0 { s.push(q, t) } else { s.extend([(q, t)]) } sep = p }
            s
        }
    }
}
impl<T: Spec> Spec for Any<T> {
    fn g() -> G { G::Any(gb::<T>()) }
    fn tree(&self, o: &mut String) { o.push_str(" {"); for x in self.iter() { x.node(o) } o.push_str(" }") }
    fn rebuild(&self, how: u32) -> Self {
        let v: Vec<T> = self.iter().map(|x| x.rebuild(how)).collect();
        match how % 4 { 0 => Any::from(v), 1 => v.into_iter().collect(), 2 => { let mut a = Any::new(); a.extend(v); a } _ => { let mut a = Any::default(); for x in v { a.push(x) } a } }
    }
}
impl<O: Spec, T: Spec> Spec for LeftAssoc<O, T> {
    fn g() -> G { G::Left(gb::<O>(), gb::<T>()) }
    fn tree(&self, o: &mut String) {
        match self {
            LeftAssoc::Binary { lhs, op, rhs } => { o.push_str(" (bin"); (**lhs).node(o); op.node(o); rhs.node(o); o.push(')') }
            LeftAssoc::Rhs(r) => r.node(o),
        }
    }
    fn rebuild(&self, how: u32) -> Self {
        match self {
            LeftAssoc::Binary { lhs, op, rhs } => LeftAssoc::Binary { lhs: Box::new((**lhs).rebuild(how)), op: op.rebuild(how), rhs: rhs.rebuild(how) },
            LeftAssoc::Rhs(r) => if how % 2 == 0 { LeftAssoc::from(r.rebuild(how)) } else { LeftAssoc::Rhs(r.rebuild(how)) }
        }
    }
}
impl<O: Spec, T: Spec> Spec for RightAssoc<O, T> {
    fn g() -> G { G::Right(gb::<O>(), gb::<T>()) }
    fn tree(&self, o: &mut String) {
        match self {
            RightAssoc::Binary { lhs, op, rhs } => { o.push_str(" (bin"); lhs.node(o); op.node(o); (**rhs).node(o); o.push(')') }
            RightAssoc::Lhs(l) => l.node(o),
        }
    }
    fn rebuild(&self, how: u32) -> Self {
        match self {
            RightAssoc::Binary { lhs, op, rhs } => RightAssoc::Binary { lhs: lhs.rebuild(how), op: op.rebuild(how), rhs: Box::new((**rhs).rebuild(how)) },
            RightAssoc::Lhs(r) => if how % 2 == 0 { RightAssoc::from(r.rebuild(how)) } else { RightAssoc::Lhs(r.rebuild(how)) }
        }
    }
}
impl<L: Spec, R: Spec> Spec for Either<L, R> {
    fn g() -> G { G::Either(gb::<L>(), gb::<R>()) }
    fn tree(&self, o: &mut String) {
        match self { Either::Left(l) => { o.push_str(" (left"); l.node(o); o.push(')') } Either::Right(r) => { o.push_str(" (right"); r.node(o); o.push(')') } }
    }
    fn rebuild(&self, how: u32) -> Self { match self { Either::Left(l) => Either::Left(l.rebuild(how)), Either::Right(r) => Either::Right(r.rebuild(how)) } }
}

/// A production that counts how often it is tried, and where.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Tr<const N: usize, T>(pub T);
thread_local!(pub static TRIES: std::cell::RefCell<Tries> = std::cell::RefCell::default());
impl<const N: usize, T: Parse> Parse for Tr<N, T> {
    fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
        let s = input.span().start();
        // the end of the whole input has no place
        let place = if input.is_empty() && (s.line, s.column) == (1, 0) { None } else { Some((s.line, s.column)) };
        TRIES.with(|t| *t.borrow_mut().entry((N, place)).or_insert(0) += 1);
        T::parse(input).map(Tr)
    }
}
impl<const N: usize, T: ToTokens> ToTokens for Tr<N, T> { fn to_tokens(&self, t: &mut TokenStream) { self.0.to_tokens(t) } }
impl<const N: usize, T: Spec> Spec for Tr<N, T> {
    fn g() -> G { G::Count(N, gb::<T>()) }
    fn tree(&self, o: &mut String) { self.0.node(o) }
    fn rebuild(&self, how: u32) -> Self { Tr(self.0.rebuild(how)) }
}
/// what was tried while `f` ran
pub fn tried<R>(f: impl FnOnce() -> R) -> (R, Tries) {
    TRIES.with(|t| t.borrow_mut().clear());
    let r = f();
    (r, TRIES.with(|t| std::mem::take(&mut *t.borrow_mut())))
}

/// Declares a derived type together with its model.
#[macro_export]
macro_rules! grammar {
    ($(#[$m:meta])* struct $n:ident $(<$($p:ident),*>)? { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? } $($rest:tt)*) => {
        #[derive(PartialEq, Eq, Hash, Debug, Clone, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)] $(#[$m])*
        pub struct $n $(<$($p),*>)? { $($(#[$fm])* pub $f: $t),* }
        impl $(<$($p: $crate::spec::Spec),*>)? $crate::spec::Spec for $n $(<$($p),*>)? {
            fn g() -> $crate::gram::G { $crate::gram::G::Struct(stringify!($n), vec![$((stringify!($f), <$t as $crate::spec::Spec>::g())),*]) }
            #[allow(unused)] fn tree(&self, o: &mut String) { o.push_str(concat!(" (", stringify!($n))); $( self.$f.node(o); )* o.push(')') }
            #[allow(unused)] fn rebuild(&self, how: u32) -> Self { $n { $($f: $crate::spec::Spec::rebuild(&self.$f, how)),* } }
        }
        $crate::grammar!($($rest)*);
    };
    ($(#[$m:meta])* struct $n:ident $(<$($p:ident),*>)? ( $($i:tt : $(#[$fm:meta])* $t:ty),* $(,)? ); $($rest:tt)*) => {
        #[derive(PartialEq, Eq, Hash, Debug, Clone, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)] $(#[$m])*
        pub struct $n $(<$($p),*>)? ( $($(#[$fm])* pub $t),* );
        impl $(<$($p: $crate::spec::Spec),*>)? $crate::spec::Spec for $n $(<$($p),*>)? {
            fn g() -> $crate::gram::G { $crate::gram::G::Struct(stringify!($n), vec![$((stringify!($i), <$t as $crate::spec::Spec>::g())),*]) }
            #[allow(unused)] fn tree(&self, o: &mut String) { o.push_str(concat!(" (", stringify!($n))); $( self.$i.node(o); )* o.push(')') }
            #[allow(unused)] fn rebuild(&self, how: u32) -> Self { $n($($crate::spec::Spec::rebuild(&self.$i, how)),*) }
        }
        $crate::grammar!($($rest)*);
    };
    ($(#[$m:meta])* struct $n:ident; $($rest:tt)*) => {
        #[derive(PartialEq, Eq, Hash, Debug, Clone, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)] $(#[$m])*
        pub struct $n;
        impl $crate::spec::Spec for $n {
            fn g() -> $crate::gram::G { $crate::gram::G::Struct(stringify!($n), vec![]) }
            fn tree(&self, o: &mut String) { o.push_str(concat!(" (", stringify!($n), ")")) }
            fn rebuild(&self, _: u32) -> Self { $n }
        }
        $crate::grammar!($($rest)*);
    };
    // variants: `V { f: T, .. }` or `V ( 0 a: T, 1 b: T )` or `V {}`-less unit `V`
    ($(#[$m:meta])* enum $n:ident $(<$($p:ident),*>)? { $($v:ident $({ $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? })? $(( $($i:tt $b:ident : $(#[$um:meta])* $u:ty),* $(,)? ))? ),* $(,)? } $($rest:tt)*) => {
        #[derive(PartialEq, Eq, Hash, Debug, Clone, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)] $(#[$m])*
        pub enum $n $(<$($p),*>)? { $($v $({ $($(#[$fm])* $f: $t),* })? $(( $($(#[$um])* $u),* ))?),* }
        impl $(<$($p: $crate::spec::Spec),*>)? $crate::spec::Spec for $n $(<$($p),*>)? {
            fn g() -> $crate::gram::G { $crate::gram::G::Enum(stringify!($n), vec![$((stringify!($v), vec![
                $($((stringify!($f), <$t as $crate::spec::Spec>::g())),*)? $($((stringify!($i), <$u as $crate::spec::Spec>::g())),*)?
            ])),*]) }
            #[allow(unused)] fn tree(&self, o: &mut String) { match *self { $(
                $n::$v $({ $(ref $f),* })? $(( $(ref $b),* ))? => { o.push_str(concat!(" (", stringify!($n), "::", stringify!($v))); $($($f.node(o);)*)? $($($b.node(o);)*)? o.push(')') }
            )* } }
            #[allow(unused)] fn rebuild(&self, how: u32) -> Self { match *self { $(
                $n::$v $({ $(ref $f),* })? $(( $(ref $b),* ))? => $n::$v $({ $($f: $crate::spec::Spec::rebuild($f, how)),* })? $(( $($crate::spec::Spec::rebuild($b, how)),* ))?,
            )* } }
        }
        $crate::grammar!($($rest)*);
    };
    () => {};
}

/// An error as observed.
#[derive(Clone, Debug, PartialEq)]
pub struct PErr { pub lc: Lc, pub msg: String }

impl PErr { pub fn of(e: &syn::Error) -> PErr { PErr { lc: Lc::of(e.span()), msg: e.to_string() } } }

/// What one run of a real parser did at the start of a stream.
#[derive(Clone, Debug)]
pub struct Obs {
    pub res: Result<String, PErr>,
    /// top-level tokens left in the stream afterwards
    pub rest: usize,
    /// whether the whole parse was accepted by syn once the rest had been discarded
    /// (it is not if a group had unparsed content)
    pub accepted: bool,
}

pub fn observe<T: Spec>(ts: TokenStream) -> Obs {
    let mut seen = None;
    let r = (|input: ParseStream| {
        let r = T::parse(input);
        let rest: TokenStream = input.parse()?;
        let res = r.map(|t| { let mut o = String::new(); t.tree(&mut o); o }).map_err(|e| PErr::of(&e));
        seen = Some((res, rest.into_iter().count()));
        Ok(())
    }).parse2(ts);
    let (res, rest) = seen.expect("parser function not run");
    Obs { res, rest, accepted: r.is_ok() }
}

pub fn full<T: Spec>(ts: TokenStream) -> Result<String, PErr> {
    parsel::parse2::<T>(ts).map(|t| { let mut o = String::new(); t.tree(&mut o); o }).map_err(|e| PErr::of(&e))
}

/// Flat text of a token stream, with literals reduced to kind and value.
pub fn flat(ts: TokenStream, o: &mut String) {
    use proc_macro2::{Delimiter, TokenTree};
    for t in ts {
        match t {
            TokenTree::Ident(i) => { o.push(' '); o.push_str(&i.to_string()) }
            TokenTree::Literal(l) => lit_value(&l.to_string()).put(o),
            TokenTree::Punct(p) => { o.push(' '); o.push(p.as_char()) }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => (" (", " )"), Delimiter::Bracket => (" [", " ]"), Delimiter::Brace => (" {", " }"), Delimiter::None => (" <<", " >>") };
                o.push_str(a); flat(g.stream(), o); o.push_str(b)
            }
        }
    }
}

pub fn flat_model(l: &[LTok], o: &mut String) {
    for t in l {
        match &t.t {
            LT::I(i) => { o.push(' '); o.push_str(i) }
            LT::L(l) => lit_value(l).put(o),
            LT::P(c, _) => { o.push(' '); o.push(*c) }
            LT::G { d, inner, .. } => { o.push(' '); o.push(d.open()); flat_model(inner, o); o.push(' '); o.push(d.close()) }
        }
    }
}

/// Parses a prefix of the stream and prints the result.
pub fn print_prefix<T: Spec>(ts: TokenStream) -> Option<String> {
    let mut seen = None;
    let _ = (|input: ParseStream| {
        seen = T::parse(input).ok().map(|t| { let mut o = String::new(); flat(t.to_token_stream(), &mut o); o });
        input.parse::<TokenStream>().map(|_| ())
    }).parse2(ts);
    seen
}

/// One grammar type under exploration.
#[derive(Clone, Copy)]
pub struct Ty {
    pub name: &'static str,
    pub g: fn() -> G,
    pub obs: fn(TokenStream) -> Obs,
    pub full: fn(TokenStream) -> Result<String, PErr>,
    pub print: fn(TokenStream) -> Option<String>,
    /// parses the whole, rebuilds the value in code: what that prints, its description,
    /// and whether it is equal to the parsed one
    pub rebuilt: fn(TokenStream, u32) -> Option<(String, String, bool)>,
    /// what a property checks in addition, on the source text and its tokens
    pub ext: fn(&mut crate::run::Ctx, &Ty, &G, &str, &[LTok]),
}

/// the check a type carries itself
pub fn ext(c: &mut crate::run::Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) { (t.ext)(c, t, g, src, l) }

pub fn rebuilt<T: Spec>(ts: TokenStream, how: u32) -> Option<(String, String, bool)> {
    let v = parsel::parse2::<T>(ts).ok()?;
    let r = v.rebuild(how);
    let (mut f, mut t) = (String::new(), String::new());
    flat(r.to_token_stream(), &mut f);
    r.tree(&mut t);
    Some((f, t, r == v && v == r))
}

pub fn ty<T: Spec>(name: &'static str) -> Ty { Ty { name, g: T::g, obs: observe::<T>, full: full::<T>, print: print_prefix::<T>, rebuilt: rebuilt::<T>, ext: |_, _, _, _, _| {} } }

#[macro_export]
macro_rules! tys { ($($t:ty),* $(,)?) => { vec![$($crate::spec::ty::<$t>(stringify!($t))),*] } }

/// What the model says about a type on a token sequence.
pub struct Verdict { pub res: Result<(String, usize), Fail>, pub left: usize, pub over: Vec<Lc>, pub steps: u64, pub joint: Vec<usize>, pub nodes: Vec<Option<Sp>>, pub tries: Tries }
pub type Tries = std::collections::HashMap<(usize, Place), u64>;

pub fn model(g: &G, l: &[LTok], want_msgs: bool) -> Verdict {
    let mut m = M { want_msgs, want_nodes: true, ..M::default() };
    let mut o = String::new();
    let res = m.go(g, &Scope { toks: l, end: None }, 0, &mut o).map(|p| (o, p));
    Verdict { res, left: m.left, over: m.over, steps: m.steps, joint: m.joint, nodes: m.nodes, tries: m.tries }
}

/// the same tokens, all located at `at`
pub fn respan(ts: TokenStream, at: Span) -> TokenStream {
    ts.into_iter().map(|mut t| {
        if let proc_macro2::TokenTree::Group(g) = &t { t = proc_macro2::Group::new(g.delimiter(), respan(g.stream(), at)).into() }
        t.set_span(at);
        t
    }).collect()
}

/// Compares a real type with the model on one source text, both as a prefix parse
/// (observing what is left in the stream) and as a parse of the whole input.
pub fn conform(c: &mut crate::run::Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    let ts: TokenStream = match src.parse() { Ok(t) => t, Err(e) => { c.fail(format!("harness: cannot lex {src:?}: {e}")); return } };
    // the model first: it is what rejects ill-founded grammars
    let v = model(g, l, false);
    c.states += 1;
    c.transitions += v.steps;
    c.runs += 2;
    let o = (t.obs)(ts.clone());
    let f = (t.full)(ts.clone());
    // where the tokens come from plays no role: as a macro makes them, all from one place or from nowhere
    for (how, at) in [("all at one place", ts.clone().into_iter().next().map(|t| t.span())), ("without locations", Some(nowhere()))] {
        let Some(at) = at else { continue };
        if src.len() > 60 { break }
        c.runs += 1;
        let p = (t.obs)(respan(ts.clone(), at));
        if (p.res.as_ref().ok(), p.rest, p.accepted) != (o.res.as_ref().ok(), o.rest, o.accepted) {
            c.fail(format!("{} on the tokens of `{src}` {how}: {:?}, {} tokens left, accepted={}, but where they are in the source {:?}, {} tokens left, accepted={}",
                t.name, p.res, p.rest, p.accepted, o.res, o.rest, o.accepted))
        }
    }
    match &v.res {
        Ok((tree, pos)) => {
            let whole = *pos == l.len() && v.left == 0;
            c.outcome(if whole { "accepted" } else if v.left > 0 { "leftover in group" } else { "accepted prefix" });
            match &o.res {
                Err(e) => c.fail(format!("{} on `{src}`: rejected ({}), but should parse as{tree}", t.name, e.msg)),
                Ok(x) => {
                    if x != tree { c.fail(format!("{} on `{src}`: parsed as{x}, should be{tree}", t.name)) }
                    if o.rest != l.len() - pos { c.fail(format!("{} on `{src}`: left {} tokens in the stream, should leave {}", t.name, o.rest, l.len() - pos)) }
                    if o.accepted != (v.left == 0) { c.fail(format!("{} on `{src}`: whole parse accepted={}, but groups with unparsed content={}", t.name, o.accepted, v.left)) }
                }
            }
            match (&f, whole) {
                (Ok(x), true) => if x != tree { c.fail(format!("{} on `{src}`: full parse gives{x}, should be{tree}", t.name)) },
                (Err(_), false) => {}
                (Ok(x), false) => c.fail(format!("{} on `{src}`: full parse accepted as{x}, but {} top-level tokens and {} groups are left over", t.name, l.len() - pos, v.left)),
                (Err(e), true) => c.fail(format!("{} on `{src}`: full parse rejected: {}", t.name, e.msg)),
            }
        }
        Err(_) => {
            c.outcome("rejected");
            if let Ok(x) = &o.res { c.fail(format!("{} on `{src}`: accepted as{x}, should be rejected", t.name)) }
            if let Ok(x) = &f { c.fail(format!("{} on `{src}`: full parse accepted as{x}, should be rejected", t.name)) }
            // a failed choice consumes nothing
            if matches!(g, G::Either(..) | G::Enum(..)) && o.rest != l.len() {
                c.fail(format!("{} on `{src}`: the failed choice consumed {} tokens", t.name, l.len() - o.rest))
            }
        }
    }
    c.sample(|| format!("{} on `{src}`: {}", t.name, match &v.res { Ok((t, p)) => format!("tree{t}, {p} tokens consumed, {} groups left over", v.left), Err(_) => "rejected".into() }));
}

/// As `conform`, and in addition the parsed value prints as the tokens consumed.
pub fn conform_print(c: &mut crate::run::Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    conform(c, t, g, src, l);
    let v = model(g, l, false);
    if let (Ok((_, pos)), 0) = (&v.res, v.left) {
        c.runs += 1;
        let mut want = String::new();
        flat_model(&l[..*pos], &mut want);
        let got = (t.print)(src.parse().unwrap());
        if got.as_deref() != Some(&want) { c.fail(format!("{} on `{src}`: parsed value prints as{}, should print as{want}", t.name, got.unwrap_or_else(|| " <not parsed>".into()))) }
    }
}


/// The value assembled in code is the same and prints the same.
pub fn conform_rebuilt(c: &mut crate::run::Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    conform_print(c, t, g, src, l);
    let v = model(g, l, false);
    let (Ok((tree, pos)), 0) = (&v.res, v.left) else { return };
    if *pos < l.len() { return }
    let mut want = String::new();
    flat_model(l, &mut want);
    for how in 0..HOWS {
        c.runs += 1;
        match (t.rebuilt)(src.parse().unwrap(), how) {
            None => c.fail(format!("{} on `{src}`: not parsed", t.name)),
            Some((f, tr, eq)) => {
                if f != want { c.fail(format!("{}: the value of `{src}` assembled in code (way {how}) prints as{f}, should print as{want}", t.name)) }
                if tr != *tree || !eq { c.fail(format!("{}: the value of `{src}` assembled in code (way {how}) is{tr} (equal: {eq}), should be{tree}", t.name)) }
            }
        }
    }
}
