//! C27: the quasi-quoting macros against quoting and parsing by hand, over all templates up to
//! a length, interpolated values, types and locations.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::{try_parse_quote, try_parse_quote_spanned, ToTokens};
use proc_macro2::{Span, TokenStream, TokenTree};
use std::cell::{Cell, RefCell};
use std::str::FromStr;
use syn::parse::{Parse, ParseStream};
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;
#[path = "../must/c27.rs"]
mod must;

/// A value of whatever type is being explored: what it is, and all its tokens with their places.
#[derive(Clone, Debug, PartialEq)]
struct Probe { tree: String, toks: Vec<(String, Lc)> }
thread_local!(static PARSER: Cell<fn(ParseStream) -> syn::Result<Probe>> = const { Cell::new(nothing) });
fn nothing(_: ParseStream) -> syn::Result<Probe> { unreachable!() }
impl Parse for Probe { fn parse(i: ParseStream) -> syn::Result<Self> { PARSER.with(|p| p.get())(i) } }
fn probe<T: Spec>(i: ParseStream) -> syn::Result<Probe> {
    let v = T::parse(i)?;
    let mut tree = String::new();
    v.tree(&mut tree);
    Ok(Probe { tree, toks: located(v.to_token_stream()) })
}
fn located(ts: TokenStream) -> Vec<(String, Lc)> {
    let mut v = vec![];
    fn go(ts: TokenStream, v: &mut Vec<(String, Lc)>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Bracket => ("[", "]"), proc_macro2::Delimiter::Brace => ("{", "}"), _ => ("<<", ">>") };
                    v.push((a.into(), Lc::of(g.span_open())));
                    go(g.stream(), v);
                    v.push((b.into(), Lc::of(g.span_close())));
                }
                t => v.push((t.to_string(), Lc::of(t.span()))),
            }
        }
    }
    go(ts, &mut v);
    v
}

type Dyn = Box<dyn ToTokens>;
/// what is interpolated, and the location for the spanned form
struct Env { x: Dyn, xs: Vec<Dyn>, span: Span, calls: Cell<u32>, name: String }

/// One template: run by the macros, and quoted by hand.
struct Tpl { parts: &'static [&'static str], plain: fn(&Env) -> syn::Result<Probe>, at: fn(&Env) -> syn::Result<Probe>, quoted: fn(&Env) -> TokenStream, quoted_at: fn(&Env) -> TokenStream }

thread_local!(static AFTER: Cell<u32> = const { Cell::new(0) });
fn after<T>(x: T) -> T { AFTER.with(|a| a.set(a.get() + 1)); x }

macro_rules! entry { ($v:ident $x:ident $xs:ident $({ $($t:tt)* })*) => {
    $v.push(Tpl {
        parts: &[$(stringify!($($t)*)),*],
        plain: |e| { #[allow(unused)] let ($x, $xs) = (&e.x, &e.xs); let p = try_parse_quote!($($($t)*)*); Ok(after(p)) },
        at: |e| { #[allow(unused)] let ($x, $xs) = (&e.x, &e.xs); let p = try_parse_quote_spanned! { { e.calls.set(e.calls.get() + 1); e.span } => $($($t)*)* }; Ok(after(p)) },
        quoted: |e| { #[allow(unused)] let ($x, $xs) = (&e.x, &e.xs); quote::quote!($($($t)*)*) },
        quoted_at: |e| { #[allow(unused)] let ($x, $xs) = (&e.x, &e.xs); let s = e.span; quote::quote_spanned!(s => $($($t)*)*) },
    });
} }
macro_rules! three { ($v:ident $x:ident $xs:ident $p:tt $q:tt; $($r:tt)*) => { $( entry!($v $x $xs $p $q $r); )* } }
macro_rules! two { ($f:ident $x:ident $xs:ident $p:tt $all:tt; $($q:tt)*) => {
    fn $f(v: &mut Vec<Tpl>) { entry!(v $x $xs $p); $( entry!(v $x $xs $p $q); )* $( unpack!(v $x $xs $p $q $all); )* }
} }
macro_rules! unpack { ($v:ident $x:ident $xs:ident $p:tt $q:tt [ $($r:tt)* ]) => { three!($v $x $xs $p $q; $($r)*); } }

macro_rules! all { ($x:ident $xs:ident $all:tt; $($f:ident $p:tt)*) => {
    $( two_of!($f $x $xs $p $all); )*
    fn templates() -> Vec<Tpl> { let mut v = vec![]; entry!(v $x $xs); $( $f(&mut v); )* v }
} }
macro_rules! two_of { ($f:ident $x:ident $xs:ident $p:tt [ $($q:tt)* ]) => { two!($f $x $xs $p [ $($q)* ]; $($q)*); } }
all! { x xs [ {a} {-} {1} {,} {->} {#x} {#(#xs),*} {(#x a)} ];
    t1 {a} t2 {-} t3 {1} t4 {,} t5 {->} t6 {#x} t7 {#(#xs),*} t8 {(#x a)} }

macro_rules! longer { ($x:ident $xs:ident $($t:tt)*) => { fn long_templates() -> Vec<Tpl> { let mut v = vec![]; $( entry!(v $x $xs $t); )* v } } }
longer! { x xs
    {#(#xs)*} {[#(#xs);*]} {{#(#xs,)*}} {#(#xs)+*} {#(#xs)->*} {(#(#xs)-*)} {#(#x #xs)*} {[#x, #x, #x]} {{#x; a}} {(((#x)))} {([{#(#xs)*}])} {#x :: #x} {#x::#x::a} {a::#x::alpha}
    {alpha} {fn} {_} {alphabet alpha fn _} {r#fn} {r#match} {true} {false} {"s"} {'c'} {b"s"} {b's'} {1.5} {-1.5} {-1} {- 1} {7} {71} {'a} {'a + 'b} {'static} {""} {"ab"}
    {()} {[]} {{}} {(())} {([]{})} {(,)} {(;)} {&&} {&} {..=} {..} {.} {==} {=} {<<} {<} {|} {&& & ..= .. . == = << < |} {<<=} {<< =} {+=} {+ =} {- >} {->} {-->} {: :} {::} {:::}
    {a + 1 - #x} {a : a = 1 + a;} {a: #x;} {a : alpha2 :: b = (1) + 2; { c; [d, e]; }} {{ [#(#xs),*]; a = #x; }} {[1, "s", {"k": [#x]}, -2.5]} {{"a": #x, "b": [#(#xs),*],}} {{"a" #x}} {1.5 * 2.5 + a :: #x} {1.5 * a + #x - b :: c}
    {a -> a} {alpha 1} {(a)} {(#x)} {[ #x - #x ]} {((#x -> a) -> #x)} {a, #x, b,} {#x, #(#xs),*, a} {#(#xs),*,} {#(#xs),* a} {a #(#xs),*} {#[a]} {#![a]} {$} {$ a} {a!} {a?} {@ a ~ ^ %}
    {#(a #xs b),*} {#((#xs)),*} {#([#xs, #x]);*} {#({#x} #xs)*} {a #x a #x a #x a #x a #x a #x a} {1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + #x} {a * b * c * d * #x * e} {[[[[[[[[#x]]]]]]]]}
    {#x #x} {#x + #x} {-#x} {- #x} {#x-#x} {#x->#x} {a #x} {"s" #x} {#x "s"} {#x,} {,#x} {#x;} {#x::} {#x = #x} {-#(#xs)*}
}

/// The tokens a template stands for: text, and whose: none if written in the template.
fn pieces(e: &Env, parts: &[&str]) -> Option<Vec<(String, Option<Lc>)>> {
    let lit = |v: &mut Vec<(String, Option<Lc>)>, s: &str| v.push((s.to_string(), None));
    let val = |v: &mut Vec<(String, Option<Lc>)>, d: &Dyn| v.extend(located(d.to_token_stream()).into_iter().map(|(s, l)| (s, Some(l))));
    let mut v = vec![];
    for p in parts {
        if *p == "- >" { return None }
        match p.replace(' ', "").as_str() {
            s @ ("a" | "1" | "-" | ",") => lit(&mut v, s),
            "->" => { lit(&mut v, "-"); lit(&mut v, ">") }
            "#x" => val(&mut v, &e.x),
            "#(#xs),*" => for (i, d) in e.xs.iter().enumerate() { if i > 0 { lit(&mut v, ",") } val(&mut v, d) },
            "(#xa)" => { lit(&mut v, "("); val(&mut v, &e.x); lit(&mut v, "a"); lit(&mut v, ")") }
            _ => return None,
        }
    }
    Some(v)
}

fn val<T: FromStr<Err = syn::Error> + ToTokens + 'static>(text: &str, line: usize) -> Dyn { Box::new(format!("{}{text}", "\n".repeat(line)).parse::<T>().expect("harness: value")) }
fn tok<T: Parse + ToTokens>(text: &str, line: usize) -> T { syn::parse_str(&format!("{}{text}", "\n".repeat(line))).expect("harness: token") }
fn raw(text: &str, line: usize) -> Dyn { Box::new(format!("{}{text}", "\n".repeat(line)).parse::<TokenStream>().expect("harness: tokens")) }
fn value(i: usize, line: usize) -> (Dyn, &'static str) {
    match i {
        0 => (val::<Word>("x", line), "x"),
        1 => (val::<Lit>("-7", line), "-7"),
        2 => (val::<LitStr>("\"t\"", line), "\"t\""),
        3 => (val::<Paren<Many<Word>>>("(p q)", line), "(p q)"),
        4 => (val::<LeftAssoc<Minus, Word>>("p - q", line), "p - q"),
        5 => (val::<Maybe<Plus>>("", line), "nothing"),
        6 => (Box::new(tok::<Arrow>("->", line)), "->"),
        7 => (raw("u , 3", line), "u , 3"),
        8 => (val::<Two<Word, Minus>>("w -", line), "w -"),
        9 => (Box::new(word("here")), "here, of no source"),
        10 => (Box::new(Lit::from(-25_i64)), "-25, of no source"),
        11 => (val::<Bracket<Punctuated<Lit, Comma>>>("[1, 2,]", line), "[1, 2,]"),
        12 => (val::<kw::Alpha>("alpha", line), "alpha"),
        _ => (val::<LitFloat>("1.5", line), "1.5"),
    }
}
const XS: &[&[usize]] = &[&[], &[0], &[1], &[0, 0], &[0, 4], &[2, 1, 3], &[5, 0], &[6], &[13, 0, 13], &[11, 7]];
const VALUES: usize = 14;
fn envs() -> usize { VALUES * XS.len() * 2 }
fn env(i: usize) -> Env {
    let (x, name) = value(i % VALUES, 10);
    let xs = XS[i / VALUES % XS.len()];
    let span = if i / VALUES / XS.len() == 0 { format!("{}   location", "\n".repeat(90)).parse::<Word>().expect("harness: location").span() } else { Span::call_site() };
    let (xs, names): (Vec<_>, Vec<_>) = xs.iter().enumerate().map(|(k, v)| value(*v, 20 + k)).unzip();
    Env { x, xs, span, calls: Cell::new(0), name: format!("x: {name}, xs: {names:?}") }
}

struct Cur { plain: fn(&Env) -> syn::Result<Probe>, at: fn(&Env) -> syn::Result<Probe>, parts: &'static [&'static str], env: Env, by_hand: TokenStream, by_hand_at: TokenStream, pieces: Option<Vec<(String, Option<Lc>)>> }
thread_local!(static CUR: RefCell<Option<Cur>> = const { RefCell::new(None) });

type Seen = Result<Probe, (PErr, String)>;
fn seen(r: syn::Result<Probe>) -> Seen { r.map_err(|e| (PErr::of(&e), e.to_compile_error().to_string())) }

fn run<T: Spec>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    c.states += 1;
    c.runs += 4;
    PARSER.with(|p| p.set(probe::<T>));
    CUR.with(|cur| {
        let cur = cur.borrow();
        let cur = cur.as_ref().unwrap();
        let what = || format!("{} quoted from `{}` with {}", t.name, cur.parts.join(" "), cur.env.name);
        AFTER.with(|a| a.set(0));
        cur.env.calls.set(0);
        let plain = seen((cur.plain)(&cur.env));
        let at = seen((cur.at)(&cur.env));
        let (calls, went_on) = (cur.env.calls.get(), AFTER.with(|a| a.get()));
        let hand = seen(parsel::parse2::<Probe>(cur.by_hand.clone()));
        let hand_at = seen(parsel::parse2::<Probe>(cur.by_hand_at.clone()));
        if plain != hand { c.fail(format!("{}: {plain:?}, but quoting and parsing by hand gives {hand:?}", what())) }
        if at != hand_at { c.fail(format!("{}, located: {at:?}, but quoting and parsing by hand gives {hand_at:?}", what())) }
        if calls != 1 { c.fail(format!("{}: the location was computed {calls} times", what())) }
        if went_on != plain.is_ok() as u32 + at.is_ok() as u32 { c.fail(format!("{}: {plain:?} and {at:?}, but the function went on {went_on} times", what())) }
        // independently of syn and quote: the model on the text of the template
        let m = model(g, l, false);
        c.transitions += m.steps;
        let whole = matches!(&m.res, Ok((_, p)) if *p == l.len()) && m.left == 0;
        for (how, r) in [("", &plain), (", located", &at)] {
            match (r, &m.res) {
                (Ok(p), Ok((tree, _))) if whole => {
                    if p.tree != *tree { c.fail(format!("{}{how}: {}, should be{tree}", what(), p.tree)) }
                    if let Some(ps) = &cur.pieces {
                        let sp = if how.is_empty() { Lc::NOWHERE } else { Lc::of(cur.env.span) };
                        let fits = p.toks.len() == ps.len() && p.toks.iter().zip(ps).enumerate().all(|(i, (got, want))| {
                            // sign and digits of a literal may share a location
                            let lit = |s: &str| s.starts_with(|c: char| c.is_ascii_digit());
                            let signed = want.0 == "-" && ps.get(i + 1).is_some_and(|n| lit(&n.0)) || lit(&want.0) && i > 0 && ps[i - 1].0 == "-";
                            let group = matches!(&*want.0, "(" | ")");
                            let within = |l: Lc| got.1 == l || group && (got.1.sl, got.1.el) == (l.sl, l.el) && got.1.sc >= l.sc && got.1.ec <= l.ec;
                            (got.0 == want.0 || lit(&want.0) && lit(&got.0)) && (signed || want.1.is_none() && how.is_empty() || within(want.1.unwrap_or(sp)))
                        });
                        if !fits { c.fail(format!("{}{how}: prints {:?}, should print {ps:?}; location given: {sp:?}", what(), p.toks)) }
                        c.outcome("located");
                    }
                    c.outcome("accepted");
                }
                (Ok(p), _) => c.fail(format!("{}{how}: {}, should be an error", what(), p.tree)),
                (Err(e), _) => {
                    if whole { c.fail(format!("{}{how}: rejected: {e:?}", what())) }
                    c.outcome("error returned");
                }
            }
        }
        let _ = src;
        c.sample(|| format!("{}: {plain:?}", what()));
    })
}

macro_rules! run_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: run::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

fn all_of(name: &str, tpls: fn() -> Vec<Tpl>, envs_of: Vec<usize>, tys: Vec<Ty>) -> Suite {
    let n = tpls().len() as u64;
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let e = envs_of.len() as u64;
    let must: &[&str] = &["accepted", "error returned"];
    suite(name, n * e, must, move |i, c| {
        let t = &tpls()[(i / e) as usize];
        let env = env(envs_of[(i % e) as usize]);
        let (by_hand, by_hand_at) = ((t.quoted)(&env), (t.quoted_at)(&env));
        let pieces = pieces(&env, t.parts);
        // the text as the model reads it
        let src = match &pieces {
            Some(ps) => { let mut s = String::new(); for (i, p) in ps.iter().enumerate() { if i > 0 && !(p.0 == ">" && ps[i - 1].0 == "-") { s.push(' ') } s.push_str(&p.0) } s }
            None => by_hand.to_string(),
        };
        let l = render(&toks(&src)).1;
        CUR.with(|cur| *cur.borrow_mut() = Some(Cur { plain: t.plain, at: t.at, parts: t.parts, env, by_hand, by_hand_at, pieces }));
        for (t, g) in tys.iter().zip(&gs) { ext(c, t, g, &src, &l) }
    })
}

// --- where the macros are used -------------------------------------------------------------

/// several in one function: the first failure is what comes out
fn several(a: TokenStream, b: TokenStream, d: TokenStream) -> parsel::Result<(Word, Many<Lit>, Vec<Expr>)> {
    let x: Word = try_parse_quote!(#a);
    let y = { let inner = |b: &TokenStream| -> parsel::Result<Many<Lit>> { Ok(try_parse_quote!(#b 1)) }; inner(&b)? };
    Ok((x, y, vec![try_parse_quote! { #d }, try_parse_quote! { (#d) + 1 }]))
}
fn several_spanned(a: TokenStream, b: TokenStream, d: TokenStream, s: Span) -> parsel::Result<(Word, Many<Lit>, Vec<Expr>)> {
    let x: Word = try_parse_quote_spanned!(s => #a);
    let y = { let inner = |b: &TokenStream| -> parsel::Result<Many<Lit>> { Ok(try_parse_quote_spanned!(s => #b 1)) }; inner(&b)? };
    Ok((x, y, vec![try_parse_quote_spanned! { s => #d }, try_parse_quote_spanned! { s => (#d) + 1 }]))
}
fn several_by_hand(a: TokenStream, b: TokenStream, d: TokenStream, s: Option<Span>) -> parsel::Result<(Word, Many<Lit>, Vec<Expr>)> {
    let one = match s { Some(s) => quote::quote_spanned!(s => #b 1), None => quote::quote!(#b 1) };
    let sum = match s { Some(s) => quote::quote_spanned!(s => (#d) + 1), None => quote::quote!((#d) + 1) };
    Ok((parsel::parse2(a)?, parsel::parse2(one)?, vec![parsel::parse2(d)?, parsel::parse2(sum)?]))
}

/// names of the surroundings do not matter
mod strange {
    #![allow(unused, non_camel_case_types, non_snake_case)]
    pub struct Result;
    pub struct Option;
    pub fn Err() {}
    pub fn Ok() {}
    pub fn Some() {}
    pub fn parse2() {}
    pub fn parse_str() {}
    pub mod quote {}
    pub mod syn {}
    pub mod parsel {}
    pub mod proc_macro2 {}
    pub mod std {}
    pub mod core {}
    pub trait From {}
    pub trait Into {}
    pub struct String;
    pub struct TokenStream;
    pub fn plain<T: ::parsel::Parse>(x: &::proc_macro2::TokenStream) -> ::parsel::Result<T> { let r = ::parsel::try_parse_quote!(#x); ::parsel::Result::Ok(r) }
    pub fn located<T: ::parsel::Parse>(x: &::proc_macro2::TokenStream, span: ::proc_macro2::Span) -> ::parsel::Result<T> { let r = ::parsel::try_parse_quote_spanned!(span => #x); ::parsel::Result::Ok(r) }
}

fn uses() -> Suite {
    let texts: &'static [&'static str] = &["", "a", "1", "-1", "a b", "a + 1", "( a", "(a)", "1 2 \"s\"", "a -", "fn", "+"];
    let texts: Vec<&'static str> = texts.iter().copied().filter(|t| t.parse::<TokenStream>().is_ok()).collect();
    let k = texts.len() as u64;
    suite("several in one function, and in strange surroundings", k * k * k, &["accepted", "error returned"], move |i, c| {
        c.states += 1;
        c.runs += 6;
        let ts = |j: u64, line: usize| format!("{}{}", "\n".repeat(line), texts[(j % k) as usize]).parse::<TokenStream>().unwrap();
        let (a, b, d) = (ts(i, 10), ts(i / k, 20), ts(i / k / k, 30));
        let span = "        place".parse::<Word>().unwrap().span();
        let show = |r: parsel::Result<(Word, Many<Lit>, Vec<Expr>)>| r.map(|(x, y, z)| { let q = [located(x.to_token_stream()), located(y.to_token_stream()), located(z[0].to_token_stream()), located(z[1].to_token_stream())]; (x, y, z, q) }).map_err(|e| (PErr::of(&e), e.to_compile_error().to_string()));
        let got = show(several(a.clone(), b.clone(), d.clone()));
        let want = show(several_by_hand(a.clone(), b.clone(), d.clone(), None));
        if got != want { c.fail(format!("several quotes of `{a}`, `{b}`, `{d}`: {got:?}, by hand {want:?}")) }
        let got = show(several_spanned(a.clone(), b.clone(), d.clone(), span));
        let want = show(several_by_hand(a.clone(), b.clone(), d.clone(), Some(span)));
        if got != want { c.fail(format!("several located quotes of `{a}`, `{b}`, `{d}`: {got:?}, by hand {want:?}")) }
        c.outcome(if got.is_ok() { "accepted" } else { "error returned" });
        if i < k {
            let s = |r: parsel::Result<Expr>| r.map(|e| located(e.to_token_stream())).map_err(|e| PErr::of(&e));
            let want = s(parsel::parse2(a.clone()));
            for (how, got) in [("", s(strange::plain(&a))), (", located", s(strange::located(&a, span)))] {
                if got != want { c.fail(format!("quote of `{a}` in strange surroundings{how}: {got:?}, by hand {want:?}")) }
            }
        }
    })
}

/// where and how the macros can be used
fn forms() -> Suite {
    let fs = must::forms();
    let texts: &'static [&'static str] = &["7", "-7", "b", "", "+", "7 7", "b b", "(7)", "1.5", "\"s\"", "- 7", "true", "b, b"];
    suite("in functions of every form", (fs.len() * texts.len()) as u64, &["accepted", "error returned"], move |i, c| {
        let (name, f, quotes) = fs[i as usize / texts.len()];
        let text = texts[i as usize % texts.len()];
        let x: TokenStream = text.parse().unwrap();
        c.states += 1;
        c.runs += 1;
        c.transitions += quotes.len() as u64;
        let got = f(&x, "   place".parse::<Word>().unwrap().span());
        // the same by hand
        let mut want = Ok(String::new());
        for (kind, q) in quotes {
            let src = q.replace('@', text);
            fn by_hand<T: Parse + ToTokens>(src: &str) -> Result<String, String> { syn::parse_str::<T>(src).map(|v| v.to_token_stream().to_string()).map_err(|e| e.to_string()) }
            let one = match kind { 'I' => by_hand::<LitInt>(&src), 'w' => by_hand::<Word>(&src), 'W' => by_hand::<Many<Word>>(&src), 'N' => by_hand::<Many<LitInt>>(&src), _ => by_hand::<Lit>(&src) };
            match one { Ok(t) => if let Ok(w) = &mut want { *w += &t }, Err(e) => { want = Err(e); break } }
        }
        let same = match (&got, &want) { (Ok(a), Ok(b)) => { let f = |s: &str| s.replace(' ', ""); f(a) == f(b) } (Err(a), Err(b)) => a == b, _ => false };
        if !same { c.fail(format!("quotes of {quotes:?} with `{text}` in a function with {name}: {got:?}, by hand {want:?}")) }
        c.outcome(if got.is_ok() { "accepted" } else { "error returned" });
    })
}

fn main() {
    let q = !thorough();
    let some: Vec<Ty> = run_tys![
        Word, Kid, kw::Alpha, LitInt, LitUint, Lit, Eof, Maybe<Minus, Lit>, Maybe<Word, Eof>, Paren<Many<Word>>, Paren<Two<Lit, Word>>, Any<Lit>, Many<Either<Word, Lit>>,
        Punctuated<Lit, Comma>, Punctuated<Word, Minus>, Punctuated<Either<Word, Arrow>, Comma>, Separated<Lit, Minus>, Separated<Either<Lit, Word>, Either<Comma, Arrow>>, LeftAssoc<Minus, Either<LitUint, Word>>, RightAssoc<Arrow, Either<Word, Paren<Any<Word>>>>,
        Any<Either<Either<Word, Lit>, Either<Either<Arrow, Comma>, Either<Minus, Either<Paren<Any<Either<Word, Lit>>>, Bracket<Many<Either<Lit, Comma>>>>>>>>,
    ];
    let every: Vec<Ty> = zoo!(run_tys);
    let all: Vec<usize> = (0..envs()).collect();
    // every value and every list at least once
    let few: Vec<usize> = (0..VALUES).map(|v| v + VALUES * (v % XS.len())).chain((0..XS.len()).map(|s| (s * 5 % VALUES) + VALUES * s)).chain([VALUES * XS.len() + 3]).collect();
    let mut s = vec![
        all_of("all templates of up to three parts", templates, all.clone(), some.clone()),
        all_of("all templates of up to three parts, every type", templates, if q { few } else { all.clone() }, every.clone()),
        all_of("further templates", long_templates, all, every),
        uses(),
        forms(),
    ];
    s[0].must.push("located");
    main_("C27", s)
}
