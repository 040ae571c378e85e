//! C25: derived types of every shape, with any generics, where clause and names. The types are
//! written by tools/c25.py; that they compile is part of the property, and each is then compared
//! with the reference interpreter.
#![allow(non_camel_case_types, non_snake_case, uncommon_codepoints, private_interfaces, private_bounds, dead_code, unused)]
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ToTokens;
use proc_macro2::TokenStream;
use std::cell::Cell;
use std::fmt::Display;
use std::str::FromStr;
use syn::parse::{Parse, ParseStream, Parser};
#[path = "../shared/fmtgen.rs"]
mod fmtgen;
use fmtgen::{laid_out, read};

/// what the types are made of
pub mod pre {
    pub use parsel::ast::*;
    pub use parsel::ast::token::{Comma, Minus, Plus};
    use std::fmt;
    use std::marker::PhantomData;
    pub type W = Word;
    /// parses and prints nothing, whatever it is of
    pub struct Mark<'a, T: ?Sized, const N: usize>(PhantomData<(&'a (), *const T)>);
    impl<'a, T: ?Sized, const N: usize> parsel::Parse for Mark<'a, T, N> { fn parse(_: parsel::syn::parse::ParseStream<'_>) -> parsel::Result<Self> { Ok(Mark(PhantomData)) } }
    impl<'a, T: ?Sized, const N: usize> parsel::ToTokens for Mark<'a, T, N> { fn to_tokens(&self, _: &mut parsel::TokenStream) {} }
    impl<'a, T: ?Sized, const N: usize> PartialEq for Mark<'a, T, N> { fn eq(&self, _: &Self) -> bool { true } }
    impl<'a, T: ?Sized, const N: usize> Eq for Mark<'a, T, N> {}
    impl<'a, T: ?Sized, const N: usize> std::hash::Hash for Mark<'a, T, N> { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }
    impl<'a, T: ?Sized, const N: usize> fmt::Debug for Mark<'a, T, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mark") } }
    impl<'a, T: ?Sized, const N: usize> Clone for Mark<'a, T, N> { fn clone(&self) -> Self { Mark(PhantomData) } }
    impl<'a, T: ?Sized, const N: usize> mc::spec::Spec for Mark<'a, T, N> {
        fn g() -> mc::gram::G { <Empty as mc::spec::Spec>::g() }
        fn tree(&self, o: &mut String) { o.push_str(" empty") }
        fn rebuild(&self, _: u32) -> Self { unreachable!() }
    }
    /// neither parses nor prints
    #[derive(PartialEq, Eq, Hash, Debug, Clone)]
    pub struct No;
    parsel::define_keywords! { pub mod ks {
        k0 => K0; k1 => K1; k2 => K2; k3 => K3; k4 => K4; k5 => K5; k6 => K6; k7 => K7; k8 => K8; k9 => K9; k10 => K10; k11 => K11; k12 => K12; k13 => K13; k14 => K14; k15 => K15;
        k16 => K16; k17 => K17; k18 => K18; k19 => K19; k20 => K20; k21 => K21; k22 => K22; k23 => K23; k24 => K24; k25 => K25; k26 => K26; k27 => K27; k28 => K28; k29 => K29; k30 => K30; k31 => K31;
        k32 => K32; k33 => K33; k34 => K34; k35 => K35; k36 => K36; k37 => K37; k38 => K38; k39 => K39; k40 => K40; k41 => K41; k42 => K42; k43 => K43; k44 => K44; k45 => K45; k46 => K46; k47 => K47;
        k48 => K48; k49 => K49; k50 => K50; k51 => K51; k52 => K52; k53 => K53; k54 => K54; k55 => K55; k56 => K56; k57 => K57; k58 => K58; k59 => K59; k60 => K60; k61 => K61; k62 => K62; k63 => K63;
    } }
    pub use ks::*;
    mc::kw_spec! {
        K0 => "k0"; K1 => "k1"; K2 => "k2"; K3 => "k3"; K4 => "k4"; K5 => "k5"; K6 => "k6"; K7 => "k7"; K8 => "k8"; K9 => "k9"; K10 => "k10"; K11 => "k11"; K12 => "k12"; K13 => "k13"; K14 => "k14"; K15 => "k15";
        K16 => "k16"; K17 => "k17"; K18 => "k18"; K19 => "k19"; K20 => "k20"; K21 => "k21"; K22 => "k22"; K23 => "k23"; K24 => "k24"; K25 => "k25"; K26 => "k26"; K27 => "k27"; K28 => "k28"; K29 => "k29"; K30 => "k30"; K31 => "k31";
        K32 => "k32"; K33 => "k33"; K34 => "k34"; K35 => "k35"; K36 => "k36"; K37 => "k37"; K38 => "k38"; K39 => "k39"; K40 => "k40"; K41 => "k41"; K42 => "k42"; K43 => "k43"; K44 => "k44"; K45 => "k45"; K46 => "k46"; K47 => "k47";
        K48 => "k48"; K49 => "k49"; K50 => "k50"; K51 => "k51"; K52 => "k52"; K53 => "k53"; K54 => "k54"; K55 => "k55"; K56 => "k56"; K57 => "k57"; K58 => "k58"; K59 => "k59"; K60 => "k60"; K61 => "k61"; K62 => "k62"; K63 => "k63";
    }
}
pub mod harness { pub use mc::gram::G; pub use mc::spec::Spec; }
mod gen { include!("../../../target/c25/gen.rs"); }

/// A value of whatever type is being explored.
#[derive(Clone, Debug, PartialEq)]
pub struct Probe { tree: String, toks: Vec<Tok>, flat: String, shown: String, alt: String }
thread_local!(static PARSER: Cell<fn(ParseStream) -> syn::Result<Probe>> = const { Cell::new(nothing) });
fn nothing(_: ParseStream) -> syn::Result<Probe> { unreachable!() }
impl Parse for Probe { fn parse(i: ParseStream) -> syn::Result<Self> { PARSER.with(|p| p.get())(i) } }
fn probe(tree: &dyn Fn(&mut String), ts: TokenStream, shown: &dyn Display) -> Probe {
    let (mut t, mut f) = (String::new(), String::new());
    tree(&mut t);
    flat(ts.clone(), &mut f);
    Probe { tree: t, toks: read(ts), flat: f, shown: format!("{shown}"), alt: format!("{shown:#}") }
}
fn stream<T: Spec + Display>(i: ParseStream) -> syn::Result<Probe> { let v = T::parse(i)?; Ok(probe(&|o| v.tree(o), v.to_token_stream(), &v)) }
fn string<T: Spec + Display + FromStr<Err = parsel::Error>>(s: &str) -> syn::Result<Probe> { let v: T = s.parse()?; Ok(probe(&|o| v.tree(o), v.to_token_stream(), &v)) }

#[derive(Clone, Copy)]
pub struct Entry { what: &'static str, number: usize, g: fn() -> G, stream: fn(ParseStream) -> syn::Result<Probe>, string: fn(&str) -> syn::Result<Probe> }
pub fn entry<T: Spec + Display + FromStr<Err = parsel::Error>>(what: &'static str, number: usize) -> Entry { Entry { what, number, g: T::g, stream: stream::<T>, string: string::<T> } }

fn follow(c: &mut Ctx, t: &Entry, g: &G, src: &str, l: &[LTok]) {
    PARSER.with(|p| p.set(t.stream));
    let ts: TokenStream = match src.parse() { Ok(t) => t, Err(e) => { c.fail(format!("harness: cannot lex {src:?}: {e}")); return } };
    let m = model(g, l, false);
    c.states += 1;
    c.transitions += m.steps;
    c.runs += 3;
    let mut seen = None;
    let r = (|i: ParseStream| {
        let r = i.parse::<Probe>();
        let rest: TokenStream = i.parse()?;
        seen = Some((r, rest.into_iter().count()));
        Ok(())
    }).parse2(ts.clone());
    let (prefix, rest) = seen.expect("parser run");
    let whole = parsel::parse2::<Probe>(ts).map_err(|e| PErr::of(&e));
    let text = (t.string)(src).map_err(|e| PErr::of(&e));
    let at = || format!("{} (type {}) on `{src}`", t.what, t.number);
    match (&prefix, &m.res) {
        (Ok(p), Ok((tree, pos))) => {
            if p.tree != *tree { c.fail(format!("{}: parsed as{}, should be{tree}", at(), p.tree)) }
            if rest != l.len() - pos { c.fail(format!("{}: left {rest} tokens, should leave {}", at(), l.len() - pos)) }
            if m.left == 0 {
                let mut want = String::new();
                flat_model(&l[..*pos], &mut want);
                if p.flat != want { c.fail(format!("{}: prints as{}, should print as{want}", at(), p.flat)) }
                let (a, b) = (laid_out(&p.toks, Some("    ")), laid_out(&p.toks, None));
                if p.shown != a || p.alt != b { c.fail(format!("{}: displayed as {:?} and {:?}, should be {a:?} and {b:?}", at(), p.shown, p.alt)) }
                c.outcome("printed");
            }
        }
        (Ok(p), Err(_)) => c.fail(format!("{}: parsed as{}, should be rejected", at(), p.tree)),
        (Err(e), Ok((tree, _))) => c.fail(format!("{}: rejected: {e}, should be{tree}", at())),
        (Err(_), Err(_)) => if matches!(g, G::Enum(..)) && rest != l.len() { c.fail(format!("{}: the failed choice consumed {} tokens", at(), l.len() - rest)) },
    }
    let all = matches!(&m.res, Ok((_, p)) if *p == l.len()) && m.left == 0;
    if whole.is_ok() != all { c.fail(format!("{}: accepted: {}, should be: {all}", at(), whole.is_ok())) }
    if text != whole { c.fail(format!("{}: from text {text:?}, from tokens {whole:?}", at())) }
    c.outcome(if all { "accepted" } else if m.res.is_ok() { "leftovers" } else { "rejected" });
    c.sample(|| format!("{}: {:?}", at(), prefix.as_ref().map(|p| &p.tree)));
}

/// a shortest sentence; none if there is none
fn least(g: &G) -> Option<Vec<Tok>> {
    match g {
        G::Struct(_, fs) => { let mut v = vec![]; for (_, f) in fs { v.extend(least(f)?) } Some(v) }
        G::Enum(n, vs) => vs.iter().filter_map(|(v, fs)| least(&G::Struct(n, fs.clone())).filter(|_| !v.is_empty())).min_by_key(|s| size(s)),
        g => { for n in 0..4 { if let Some(s) = sentences(g, n).into_iter().next() { return Some(s) } } None }
    }
}

// --- what the derived impls require --------------------------------------------------------

struct Has<T>(std::marker::PhantomData<T>);
trait HasNot { const PARSE: bool = false; const TO_TOKENS: bool = false; const FROM_STR: bool = false; const DISPLAY: bool = false; }
impl<T> HasNot for Has<T> {}
impl<T: parsel::Parse> Has<T> { const PARSE: bool = true; }
impl<T: parsel::ToTokens> Has<T> { const TO_TOKENS: bool = true; }
impl<T: FromStr<Err = parsel::Error>> Has<T> { const FROM_STR: bool = true; }
impl<T: Display> Has<T> { const DISPLAY: bool = true; }

mod need {
    use crate::pre::*;
    use parsel::{Parse, ToTokens, FromStr, Display, TokenStream};
    pub struct POnly;
    impl Parse for POnly { fn parse(i: parsel::syn::parse::ParseStream<'_>) -> parsel::Result<Self> { i.parse::<Word>().map(|_| POnly) } }
    pub struct TOnly;
    impl ToTokens for TOnly { fn to_tokens(&self, t: &mut TokenStream) { word("t").to_tokens(t) } }
    /// parses and prints only of a type that does not
    pub struct Contrary<T>(pub std::marker::PhantomData<T>);
    impl Parse for Contrary<No> { fn parse(_: parsel::syn::parse::ParseStream<'_>) -> parsel::Result<Self> { Ok(Contrary(std::marker::PhantomData)) } }
    impl ToTokens for Contrary<No> { fn to_tokens(&self, _: &mut TokenStream) {} }
    // by the parameter
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A1<T>(pub T);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A2<T>(pub Word, pub T);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A3<T> { pub a: T, pub b: Word }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A4<T> { pub a: Word, pub b: Maybe<Plus, T>, pub c: Word }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A5<T>(pub Box<T>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum A6<T> { A(T), B(Word) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum A7<T> { A(Word), B { a: Word, b: T }, C }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum A8<T> { A, B(), C {}, D(Word, Paren<Any<T>>) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A9<T> { pub a: T, #[parsel(recursive)] pub b: Maybe<Plus, Box<A9<T>>> }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct A10<T> where T: Sized { pub a: Maybe<Plus>, pub b: Either<Word, T> }
    // whatever the parameter is
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct B1<T>(pub Mark<'static, T, 0>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct B2<T> { pub w: Word, pub m: Mark<'static, T, 0> }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum B3<T> { A(Mark<'static, T, 0>), B { m: Mark<'static, T, 1>, p: Plus } }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct B4<T>(#[parsel(recursive)] pub Mark<'static, T, 0>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct B5<T> { pub w: Word, #[parsel(recursive)] pub m: Maybe<Plus, Box<B5<T>>>, pub x: Mark<'static, T, 0> }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum B6<T> { A { #[parsel(recursive)] a: Paren<Box<B6<T>>> }, B(Mark<'static, T, 0>, Plus) }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct B7<T: ?Sized>(pub Mark<'static, T, 0>);
    // where the field's type does although the parameter's does not
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct C1<T>(pub Contrary<T>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct C2<T> { pub a: Word, pub b: Paren<Contrary<T>> }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum C3<T> { A(Word), B(Contrary<T>) }
    // only some derives, of types that have no more
    #[derive(Parse, FromStr)] pub struct D1 { pub a: POnly, pub b: Maybe<Plus, Word> }
    #[derive(Parse, FromStr)] pub enum D2<'a> { A(POnly, Mark<'a, u8, 0>), B }
    #[derive(ToTokens, Display)] pub struct E1<'a, T: ?Sized>(pub &'a T, pub Option<&'a Word>);
    #[derive(ToTokens, Display)] pub enum E2<'a, T> { R { r: &'a T, s: &'static str }, M(&'a mut Word, std::rc::Rc<T>), N(u8, bool, char, String), O(Option<Box<T>>), T(TOnly) }
    #[derive(ToTokens, Display)] pub struct E3<'a, T: ToTokens + ?Sized + 'a> where Box<T>: Sized { pub tokens: &'a T, pub r#type: std::borrow::Cow<'a, str> }
    #[derive(ToTokens, Display)] pub struct E4<'a>(pub &'a dyn ToTokensToo);
    // field types written in other ways
    pub trait Pick { type Out; }
    impl Pick for W { type Out = Word; }
    impl Pick for No { type Out = No; }
    impl Pick for POnly { type Out = POnly; }
    impl Pick for TOnly { type Out = TOnly; }
    macro_rules! me { ($t:ty) => { $t } }
    macro_rules! made { ($($n:ident $t:ty;)*) => { $( #[derive(Parse, ToTokens, FromStr, Display)] pub struct $n<T>(pub Word, pub $t, pub Maybe<Plus, T>); )* } }
    made! { F1 Word; F2 Paren<Any<Word>>; F3 Box<Maybe<Plus, Word>>; }
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct F4<T: Pick>(pub T::Out);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct F5<T: Pick> { pub w: Word, pub m: Maybe<Plus, <T as Pick>::Out> }
    #[derive(Parse, ToTokens, FromStr, Display)] pub enum F6<T> { A(me!(T)), B { a: me![Word] } }
    #[derive(Parse, ToTokens, FromStr, Display)] #[allow(unused_parens)] pub struct F7<T>(pub (T), pub (Maybe<Plus, (T)>));
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct F8<T>(pub ::std::boxed::Box<T>, pub self::Word, pub super::pre::Maybe<Plus, T>);
    #[derive(Parse, ToTokens, FromStr, Display)] pub struct F9<T>(pub T, pub T, pub Maybe<Plus, T>, pub T);
    #[derive(ToTokens, Display)] pub struct F10<'a, T>(pub &'a T, pub &'a &'a T, pub &'a mut T, pub Option<&'a T>);
    #[derive(ToTokens, Display)] pub enum F11<'a, T> { A(&'a T), B { b: &'static str }, C((&'a T)) }
    pub trait ToTokensToo { fn word(&self) -> Word; }
    impl ToTokens for dyn ToTokensToo + '_ { fn to_tokens(&self, t: &mut TokenStream) { self.word().to_tokens(t) } }
    impl ToTokensToo for u8 { fn word(&self) -> Word { word("eight") } }
}

fn requirements(c: &mut Ctx) {
    use need::*;
    use pre::{No, W};
    macro_rules! row { ($t:ty, $p:expr, $k:expr) => {
        c.states += 1;
        c.transitions += 4;
        let got = (Has::<$t>::PARSE, Has::<$t>::TO_TOKENS, Has::<$t>::FROM_STR, Has::<$t>::DISPLAY);
        let want = ($p, $k, $p, $k);
        if got != want { c.fail(format!("{}: (Parse, ToTokens, FromStr, Display) implemented: {got:?}, should be {want:?}", stringify!($t))) }
    } }
    macro_rules! as_parameter { ($($t:ident)*) => { $( row!($t<W>, true, true); row!($t<No>, false, false); row!($t<POnly>, true, false); row!($t<TOnly>, false, true); )* } }
    macro_rules! whatever { ($($t:ident)*) => { $( row!($t<W>, true, true); row!($t<No>, true, true); row!($t<POnly>, true, true); row!($t<TOnly>, true, true); row!($t<&'static u8>, true, true); )* } }
    macro_rules! contrary { ($($t:ident)*) => { $( row!($t<W>, false, false); row!($t<No>, true, true); row!($t<POnly>, false, false); )* } }
    as_parameter!(A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 F1 F2 F3 F4 F5 F6 F7 F8 F9);
    row!(F10<'static, W>, false, true);
    row!(F10<'static, No>, false, false);
    row!(F11<'static, TOnly>, false, true);
    row!(F11<'static, No>, false, false);
    whatever!(B1 B2 B3 B4 B5 B6 B7);
    row!(B7<str>, true, true);
    row!(B7<dyn Send>, true, true);
    contrary!(C1 C2 C3);
    row!(D1, true, false);
    row!(D2<'static>, true, false);
    row!(E1<'static, W>, false, true);
    row!(E1<'static, str>, false, true);
    row!(E1<'static, No>, false, false);
    row!(E2<'static, W>, false, true);
    row!(E2<'static, No>, false, false);
    row!(E3<'static, str>, false, true);
    row!(E4<'static>, false, true);
    // controls: the probe itself
    row!(W, true, true);
    c.outcome("requirements");
    // what cannot be parsed is printed all the same
    c.runs += 10;
    macro_rules! prints { ($e:expr, $s:expr) => { { let v = $e; let (t, d) = (v.to_token_stream().to_string(), v.to_string()); if t != $s || d != $s { c.fail(format!("{}: prints {t:?} and {d:?}, should print {:?}", stringify!($e), $s)) } } } }
    let (mut w, x) = (parsel::ast::word("w"), parsel::ast::word("x"));
    prints!(E1(&x, None), "x");
    prints!(E1("text", Some(&x)), "\"text\" x");
    prints!(E2::R { r: &x, s: "s" }, "x \"s\"");
    prints!(E2::M(&mut w, std::rc::Rc::new(x.clone())), "w x");
    prints!(E2::<W>::N(1, true, 'c', "s".into()), "1u8 true 'c' \"s\"");
    prints!(E2::O(Some(Box::new(x.clone()))), "x");
    prints!(E2::<W>::O(None), "");
    prints!(E2::<W>::T(TOnly), "t");
    prints!(E3 { tokens: "a", r#type: "b".into() }, "\"a\" \"b\"");
    prints!(E4(&8_u8), "eight");
    if !("a + b".parse::<D1>().is_ok() && "a +".parse::<D1>().is_err() && matches!("".parse::<D2>(), Ok(D2::B)) && matches!("q".parse::<D2>(), Ok(D2::A(..)))) { c.fail("types that only parse") }
}

fn main() {
    let q = !thorough();
    let es: &'static [Entry] = gen::entries().leak();
    let gs: &'static [G] = es.iter().map(|e| (e.g)()).collect::<Vec<_>>().leak();
    let n = es.len() as u64;
    let mut s = vec![];
    s.push(suite("a shortest input of every type", n, &["accepted", "printed", "no input"], move |i, c| {
        let i = i as usize;
        let Some(v) = least(&gs[i]) else { assert!(es[i].what.contains("empty enum"), "harness: {}", es[i].what); c.outcome("no input"); let (src, l) = render(&[]); follow(c, &es[i], &gs[i], &src, &l); return };
        let (src, l) = render(&fresh_names(&v));
        assert!(matches!(model(&gs[i], &l, false).res, Ok((_, p)) if p == l.len()), "harness: {} on {src}", es[i].what);
        follow(c, &es[i], &gs[i], &src, &l);
        let mut e = vec![];
        edits(&v, &alphabet("a 1 + ,"), &mut e);
        for mut x in e { normalise(&mut x); let (src, l) = render(&fresh_names(&x)); follow(c, &es[i], &gs[i], &src, &l) }
    }));
    let f = Forests::new(alphabet("a 1 + ,"), &[D::Par], if q { 4 } else { 5 });
    s.push(suite("all small token trees, every type", f.len(), &["accepted", "leftovers", "rejected", "printed"], move |i, c| {
        let (src, l) = render(&f.get(i));
        for (e, g) in es.iter().zip(gs) { follow(c, e, g, &src, &l) }
    }));
    let lists: Vec<Vec<Vec<Tok>>> = build_near(gs, if q { 6 } else { 8 }, 0, &alphabet("a 1 + , k7"));
    let mut starts = vec![0u64];
    for l in &lists { starts.push(starts.last().unwrap() + l.len() as u64) }
    let total = *starts.last().unwrap();
    s.push(suite("derivable sequences and their edits, every type", total, &["accepted", "leftovers", "rejected", "printed"], move |i, c| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        let (src, l) = render(&fresh_names(&lists[k][(i - starts[k]) as usize]));
        follow(c, &es[k], &gs[k], &src, &l)
    }));
    s.push(suite("what the derived impls require", 1, &["requirements"], |_, c| requirements(c)));
    main_("C25", s)
}
