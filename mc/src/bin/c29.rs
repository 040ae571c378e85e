//! C29: no call affects another.
//!
//! A history is a sequence of calls of the library in one process; every call in it must
//! give what it gives alone in a fresh process, and every value made on the way must look
//! the same at the end as it does alone.
use mc::{run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::util::*;
use parsel::ToTokens;
use proc_macro2::{Span, TokenStream};
use std::convert::TryFrom;
use std::fmt::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;
use syn::parse::{Parse, ParseStream};
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;

/// looks again at a value made earlier
type Look = Box<dyn Fn() -> String>;
type Keep = Vec<Look>;

fn at(ts: TokenStream) -> String { let mut v = vec![]; places(ts, &mut v); format!("{v:?}") }
fn error(e: &syn::Error) -> String { format!("error at {:?}: {}", e.clone().into_iter().map(|e| (Lc::of(e.span()), e.to_string())).collect::<Vec<_>>(), e) }
/// everything there is to see of a value
fn seen<T: Spec>(v: &T, src: &str) -> String {
    let mut t = String::new();
    v.tree(&mut t);
    let ts = v.to_token_stream();
    let (mut p, mut c) = (String::new(), String::new());
    let r = (format_ast_node_pretty(v, &mut p).is_ok(), format_ast_node_compact(v, &mut c).is_ok());
    format!("{t} | {ts} | {} | {r:?} {p:?} {c:?} | {:?}", at(ts.clone()), notes(v, src))
}
fn kept<T: Spec + 'static>(r: syn::Result<T>, src: &'static str, k: &mut Keep) -> String {
    match r { Err(e) => { let s = error(&e); k.push(Box::new(move || error(&e))); s } Ok(v) => { let s = seen(&v, src); k.push(Box::new(move || seen(&v, src))); s } }
}
fn parse<T: Spec + 'static>(src: &'static str, k: &mut Keep) -> String { kept(parsel::parse_str::<T>(src), src, k) }
/// parses tokens rather than text
fn parse_tokens<T: Spec + 'static>(src: &'static str, k: &mut Keep) -> String { kept(src.parse::<TokenStream>().map_err(Into::into).and_then(parsel::parse2::<T>), src, k) }
/// through FromStr
fn from_str<T: Spec + std::str::FromStr<Err = syn::Error> + 'static>(src: &'static str, k: &mut Keep) -> String { kept(src.parse::<T>(), src, k) }
/// display with flags
fn shown<T: Spec + fmt::Display + 'static>(src: &'static str, k: &mut Keep) -> String {
    let v: T = parsel::parse_str(src).unwrap();
    let f = move || format!("{v} | {v:#} | {v:?} | {v:#?}").replace(|c: char| c.is_ascii_digit(), "");
    let s = f();
    k.push(Box::new(f));
    s
}

/// A production that parses the text of a string with another parser, while it is parsed itself.
#[derive(PartialEq, Eq, Hash, Debug, Clone)]
struct Nest<T>(LitStr, T);
impl<T: Parse> Parse for Nest<T> { fn parse(i: ParseStream<'_>) -> syn::Result<Self> { let l: LitStr = i.parse()?; match parsel::parse_str(&l) { Ok(t) => Ok(Nest(l, t)), Err(e) => Err(syn::Error::new(l.span(), e)) } } }
impl<T: ToTokens> ToTokens for Nest<T> { fn to_tokens(&self, t: &mut TokenStream) { let mut s = String::new(); format_ast_node_compact(&self.1, &mut s).unwrap(); LitStr::new(s, self.0.span()).to_tokens(t) } }
impl<T: Spec> Spec for Nest<T> { fn g() -> mc::gram::G { unimplemented!() } fn tree(&self, o: &mut String) { o.push_str(" (nest"); self.1.tree(o); o.push(')') } fn rebuild(&self, h: u32) -> Self { Nest(self.0.rebuild(h), self.1.rebuild(h)) } }
/// A production that panics on one word.
#[derive(PartialEq, Eq, Hash, Debug, Clone)]
struct Boom(Word);
impl Parse for Boom { fn parse(i: ParseStream<'_>) -> syn::Result<Self> { let w: Word = i.parse()?; if w == "boom" { panic!("boom") } Ok(Boom(w)) } }
impl ToTokens for Boom { fn to_tokens(&self, t: &mut TokenStream) { if self.0 == "bang" { panic!("bang") } self.0.to_tokens(t) } }
impl Spec for Boom { fn g() -> mc::gram::G { unimplemented!() } fn tree(&self, o: &mut String) { self.0.tree(o) } fn rebuild(&self, h: u32) -> Self { Boom(self.0.rebuild(h)) } }
/// a call that may panic in code that is not Parsel's
fn panics(f: impl FnOnce() -> String) -> String { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| format!("panics: {:?}", p.downcast_ref::<&str>())) }

/// Every production around one that panics, while parsing and while printing.
fn panics_everywhere() -> String {
    fn p<T: Parse + ToTokens>(src: &str) -> String {
        let r = catch_unwind(|| parsel::parse_str::<T>(&src.replace('!', "boom")).map(|_| ()));
        let v: T = match parsel::parse_str(&src.replace('!', "bang")) { Ok(v) => v, Err(e) => return e.to_string() };
        let s = catch_unwind(AssertUnwindSafe(|| { let mut s = String::new(); (format_ast_node_pretty(&v, &mut s).is_ok(), s) }));
        let n = catch_unwind(AssertUnwindSafe(|| SpannedExt::span(&v).start().column));
        format!("{} {} {}; ", r.is_err(), s.is_err(), n.is_err())
    }
    [p::<Any<Boom>>("a !"), p::<Punctuated<Boom, Comma>>("a, !"), p::<Punctuated<Word, Boom>>("a ! b"), p::<Separated<Boom, Comma>>("a, !"), p::<Separated<Word, Boom>>("a ! b"), p::<LeftAssoc<Plus, Boom>>("a + !"), p::<LeftAssoc<Boom, Lit>>("1 ! 2"), p::<RightAssoc<Plus, Boom>>("a + !"), p::<RightAssoc<Boom, Lit>>("1 ! 2"),
        p::<Maybe<Boom, Empty>>("!"), p::<Maybe<Plus, Boom>>("+ !"), p::<Paren<Boom>>("(!)"), p::<Bracket<Boom>>("[!]"), p::<Brace<Boom>>("{!}"), p::<Either<Boom, Word>>("!"), p::<Either<Lit, Boom>>("!"), p::<Two<Word, Boom>>("a !"), p::<Alt<Lit, Boom>>("!"), p::<Many<Any<Boom>>>("!"), p::<Boom>("!")].concat()
}
/// Every production refused, and every one cut short by the writer.
fn fails_everywhere() -> String {
    fn p<T: Parse + ToTokens>(good: &str, bad: &str) -> String {
        let v: T = parsel::parse_str(good).unwrap();
        let mut w = Few(1, String::new());
        format!("{:?} {}; ", format_ast_node_pretty(&v, &mut w), parsel::parse_str::<T>(bad).is_err())
    }
    [p::<Any<Word>>("a b", "a 1"), p::<Punctuated<Word, Comma>>("a, b", "a, 1"), p::<Separated<Word, Comma>>("a, b", "a,"), p::<LeftAssoc<Plus, Word>>("a + b", "a +"), p::<RightAssoc<Plus, Word>>("a + b", "a +"), p::<Maybe<Plus, Word>>("+ a", "+"), p::<Paren<Word>>("(a)", "(1)"), p::<Bracket<Word>>("[a]", "[1]"), p::<Brace<Word>>("{a}", "{1}"),
        p::<Either<Two<Word, Word>, Two<Lit, Word>>>("1 a", "1 1"), p::<Two<Word, Lit>>("a 1", "a a"), p::<Alt<Two<Word, Word>, Two<Lit, Word>>>("1 a", "1 1"), p::<Lit>("\"a\"", "a"), p::<Two<kw::Alpha, Kid>>("alpha a", "alpha fn"), p::<Two<Word, Eof>>("a", "a a")].concat()
}

/// A writer that refuses the calls from some number on.
struct Few(usize, String);
impl Write for Few { fn write_str(&mut self, s: &str) -> fmt::Result { if self.0 == 0 { return Err(fmt::Error) } self.0 -= 1; self.1.push_str(s); Ok(()) } }
fn cut(n: usize, src: &str, pretty: bool) -> String {
    let ts: TokenStream = src.parse().unwrap();
    let mut w = Few(n, String::new());
    let r = if pretty { format_tokens_pretty(ts, &mut w) } else { format_tokens_compact(ts, &mut w) };
    format!("{r:?} {:?}", w.1)
}
fn formatted(indent: &str, src: &str) -> String {
    let mut s = String::new();
    let r = TokenStreamFormatter::with_indent(indent, &mut s).map(|mut f| (f.write(src.parse().unwrap()), f.write(src.parse().unwrap())));
    format!("{r:?} {s:?}")
}
/// one formatter kept and written to again later
fn kept_formatter(src: &'static str, k: &mut Keep) -> String {
    let f = std::cell::RefCell::new(TokenStreamFormatter::pretty(String::new()));
    f.borrow_mut().write(src.parse().unwrap()).unwrap();
    k.push(Box::new(move || { let mut f = f.borrow_mut(); let r = f.write(src.parse().unwrap()); format!("{r:?}") }));
    String::new()
}
fn quoted(k: &mut Keep) -> String {
    let x: Word = parsel::parse_str("  inner").unwrap();
    let r = (|| -> syn::Result<Two<Word, Paren<Any<Lit>>>> { Ok(parsel::try_parse_quote!(#x (1 "s" 2.5))) })();
    kept(r, "", k)
}
fn quoted_bad() -> String { let r = (|| -> syn::Result<Two<Word, Lit>> { Ok(parsel::try_parse_quote!(a b)) })(); match r { Ok(_) => "ok".into(), Err(e) => e.to_string() } }
fn quoted_spanned(k: &mut Keep) -> String {
    let x: Word = parsel::parse_str("\n\n  inner").unwrap();
    let at = x.span();
    let r = (|| -> syn::Result<Separated<Word, Comma>> { Ok(parsel::try_parse_quote_spanned!(at=> a, #x, b)) })();
    kept(r, "\n\n  inner", k)
}

struct Call { name: &'static str, f: fn(&mut Keep) -> String }
macro_rules! calls { ($($n:expr => |$k:ident| $e:expr;)*) => { vec![$(Call { name: $n, f: |$k| { let _ = &$k; $e } }),*] } }

/// Text in a buffer that is used again and again: always at the same address.
fn buffered<R>(text: &str, f: impl FnOnce(&str) -> R) -> R {
    thread_local! { static BUF: std::cell::RefCell<String> = std::cell::RefCell::new(String::with_capacity(1 << 12)); }
    BUF.with(|b| { let mut b = b.borrow_mut(); b.clear(); b.push_str(text); f(&b) })
}
/// what a type makes of a text in the buffer, and where in that text it says it is
fn in_buffer<T: Spec + std::str::FromStr<Err = syn::Error>>(text: &str) -> String {
    buffered(text, |t| match (parsel::parse_str::<T>(t), t.parse::<T>()) { (Ok(v), Ok(w)) => format!("{} {}", seen(&v, t), seen(&w, t)), (r, s) => format!("{:?} {:?}", r.as_ref().map_err(error).err(), s.as_ref().map_err(error).err()) })
}
/// where the pieces of a text are in it
fn ranges(text: &str) -> String {
    buffered(text, |t| {
        let v: Any<Word> = parsel::parse_str(t).unwrap();
        v.iter().map(|w| format!("{:?} {:?} {:?} {}; ", w.byte_range(t), w.char_range(t), w.source_substring(t), w.format_span())).collect::<String>()
    })
}
/// display given to a writer that refuses
fn refused<T: Spec + fmt::Display>(src: &str, n: usize) -> String {
    let v: T = parsel::parse_str(src).unwrap();
    let (mut a, mut b) = (Few(n, String::new()), Few(n, String::new()));
    format!("{:?} {:?} {:?} {:?}", write!(a, "{v}"), a.1, write!(b, "{v:#}"), b.1)
}
/// values made in code, at the place of another
fn made(name: &str, text: &str, number: i64) -> String {
    let at = parsel::parse_str::<Word>(name).unwrap().span();
    let v = (Word::new("made", at), LitStr::new(text.into(), at), LitInt::new(number, at), LitByteStr::new(text.into(), at), LitBool::new(number > 0, at), kw::Alpha::new(at));
    [seen(&v.0, name), seen(&v.1, name), seen(&v.2, name), seen(&v.3, name), seen(&v.4, name), seen(&v.5, name), seen(&Paren::from(v.0), name)].join(" | ")
}

fn calls() -> Vec<Call> {
    calls! {
        "indentation in a buffer" => |k| buffered("  ", |i| formatted(i, "a ( b )"));
        "letters for indentation, in the same buffer" => |k| buffered("ab", |i| formatted(i, "a ( b )"));
        "tabs for indentation, in the same buffer" => |k| buffered("\t\t", |i| formatted(i, "a ( b )"));
        "Expr in a buffer" => |k| in_buffer::<Expr>("aa + 1");
        "Expr in the same buffer, as long" => |k| in_buffer::<Expr>("a\n +2");
        "ranges in a buffer" => |k| ranges("a bb\nccc d\ne");
        "ranges in the same buffer, other lines" => |k| ranges("a\nbb ccc\nd e");
        "ranges in the same buffer, other widths" => |k| ranges("a é\nccc d\ne");
        "display to a writer that refuses at once" => |k| refused::<Paren<Any<Word>>>("(a b)", 0);
        "display to a writer that refuses later" => |k| refused::<Stmt>("a = ( 1 ) ;", 4);
        "display of Either to a writer that refuses" => |k| refused::<Either<Word, Brace<Either<Lit, Word>>>>("{ a }", 2);
        "values made at a place" => |k| made("x", "text", 7);
        "values made at another place" => |k| made("\n   yy", "text", 7);
        "other values made at a place" => |k| made("x", "other", -7);
        "Word from `a`" => |k| parse::<Word>("a", k);
        "Kid from `fn`, a keyword" => |k| parse::<Kid>("  fn", k);
        "Kid from `é`" => |k| parse::<Kid>("\u{feff}é", k);
        "Word from nothing" => |k| parse::<Word>("", k);
        "text that does not lex" => |k| parse::<Word>("a ( b", k);
        "Either fails on its first token" => |k| parse::<Either<Word, Paren<Word>>>("\n 1", k);
        "Either fails in a group" => |k| parse::<Either<Two<Word, Word>, Two<Word, Paren<Two<Word, Lit>>>>>("a (b c)", k);
        "Either takes its right side after a long attempt" => |k| parse::<Either<Two<Any<Word>, Plus>, Many<Word>>>("a b c d e f g h", k);
        "Prim from `f [ 1 ( x ) ]`" => |k| parse::<Prim>("f [ 1 ( x ) ]", k);
        "Shapes from `alpha 1`" => |k| parse::<Shapes>("alpha 1", k);
        "Shapes from `( ( alpha true ) )`" => |k| parse::<Shapes>("((alpha true))", k);
        "Shapes fails in a group" => |k| parse::<Shapes>("((alpha x))", k);
        "Shapes fails at the end" => |k| parse::<Shapes>("alpha", k);
        "Expr, nested" => |k| parse::<Expr>("1 - (a[2 3] + (x)) >= -4", k);
        "Expr fails deep down" => |k| parse::<Expr>("1 - (a[2 + ] + (x))", k);
        "Stmt" => |k| parse::<Stmt>("a : b :: c = 1 + 2 ;", k);
        "Stmt fails" => |k| parse::<Stmt>("a : b :: c = 1 + 2", k);
        "Block of several lines" => |k| parse::<Block>("{\n  a = 1;\r\n  [x, y,];\n  { é : b = 'c'; }\n}", k);
        "Block with a leftover in a group" => |k| parse::<Block>("{ a = 1; [x y]; }", k);
        "Json" => |k| parse::<Json>("{ \"a\" : [1, true, {}], \"b\" : -2 }", k);
        "Json fails" => |k| parse::<Json>("{ \"a\" : [1, true {}] }", k);
        "LeftAssoc" => |k| parse::<LeftAssoc<Either<Plus, Minus>, Either<LitInt, Word>>>("a + 1 - b - 2", k);
        "RightAssoc" => |k| parse::<RightAssoc<Arrow, Lit>>("1 -> 'c' -> \"s\"", k);
        "LeftAssoc stops, then more" => |k| parse::<Two<LeftAssoc<Plus, Word>, Maybe<Minus, Word>>>("a + b - c", k);
        "RightAssoc with a dangling operator" => |k| parse::<RightAssoc<Plus, Word>>("a + b +", k);
        "Separated" => |k| parse::<Separated<Word, Comma>>("a, b, c", k);
        "Separated with a trailing separator" => |k| parse::<Separated<Word, Comma>>("a, b,", k);
        "Punctuated with a trailing separator" => |k| parse::<Punctuated<Paren<Word>, Path2>>("(a)::(b)::", k);
        "Punctuated without a separator" => |k| parse::<Punctuated<Word, Comma>>("a b", k);
        "Any, empty" => |k| parse::<Two<Any<Arrow>, Word>>("a", k);
        "Maybe, prefix without tail" => |k| parse::<Maybe<Plus, Word>>("+ 1", k);
        "Maybe, absent" => |k| parse::<Three<Maybe<Plus>, Word, Maybe<Plus, Word>>>("a", k);
        "operators" => |k| parse::<Any<Ops>>("&& & ..= .. . == = << < |", k);
        "literals" => |k| parse::<Many<Lit>>("0x_ff -1 1.5e3 'c' b'x' \"é\\n\" br#\"x\"# true 18446744073709551615", k);
        "a literal too big" => |k| parse::<LitInt>("9223372036854775808", k);
        "LitStr from tokens" => |k| parse_tokens::<LitStr>("r\"漢\"", k);
        "Expr from tokens" => |k| parse_tokens::<Expr>("a + 1", k);
        "Expr from tokens fails" => |k| parse_tokens::<Expr>("a + ,", k);
        "Stmt through FromStr" => |k| from_str::<Stmt>("a = 1 ;", k);
        "Eof through FromStr" => |k| from_str::<Eof>(" ", k);
        "Empty through FromStr with leftovers" => |k| from_str::<Empty>(" x", k);
        "Wide" => |k| parse::<Any<Wide>>("a b c d e f g h i j k + l  a + b + c + d + e + f +", k);
        "Rec3" => |k| parse::<Rec3>("- a (+ b () + c ()) d ()", k);
        "nested parse" => |k| parse::<Either<Nest<Two<Word, Plus>>, Nest<Many<Word>>>>("\"a b\"", k);
        "nested parse fails" => |k| parse::<Either<Two<Word, Lit>, Nest<Either<Two<Word, Plus>, Two<Word, Two<Word, Lit>>>>>>("\"a b c\"", k);
        "nested parse, then a failure outside" => |k| parse::<Either<Two<Nest<Expr>, Lit>, Two<Nest<Any<Word>>, Plus>>>("\"a\" x", k);
        "a parser panics" => |k| panics(|| parse::<Either<Two<Paren<Boom>, Plus>, Paren<Word>>>("(boom)", k));
        "every production panics" => |k| panics_everywhere();
        "every production fails" => |k| fails_everywhere();
        "a printer panics" => |k| panics(|| { let v: Brace<Any<Boom>> = parsel::parse_str("{ a bang }").unwrap(); let mut s = String::new(); let r = format_ast_node_pretty(&v, &mut s); format!("{r:?}") });
        "writer refuses at once" => |k| cut(0, "a { b ; ( c ) }", true);
        "writer refuses in a group" => |k| cut(9, "a { b ; ( c , [ d ] ) }", true);
        "writer refuses within an operator" => |k| cut(1, "+= { a }", false);
        "custom whitespace" => |k| formatted("\t", "a ( b , { c ; } ) -> d");
        "custom whitespace that is none" => |k| formatted("x", "a ( b )");
        "a formatter used again" => |k| kept_formatter("a { b ; } >>= c", k);
        "display of Stmt" => |k| shown::<Stmt>("a = ( 1 ) ;", k);
        "display of Any<Word>" => |k| shown::<Any<Word>>("a b", k);
        "quotation" => |k| quoted(k);
        "quotation that does not parse" => |k| quoted_bad();
        "quotation with a location" => |k| quoted_spanned(k);
        "a list refused" => |k| { let p: syn::punctuated::Punctuated<Word, Comma> = Default::default(); match Separated::try_from(p) { Ok(_) => "ok".into(), Err(e) => error(&e) } };
        "a list changed later" => |k| { let s = std::cell::RefCell::new(parsel::parse_str::<Separated<Word, Comma>>("a, b").unwrap()); let w: Word = parsel::parse_str("c").unwrap(); k.push(Box::new(move || { s.borrow_mut().push_value(w.clone()); seen(&*s.borrow(), "") })); String::new() };
        "set_span" => |k| { let mut l: Lit = parsel::parse_str("   1").unwrap(); l.set_span(Span::call_site()); seen(&l, "") };
        "a word refused" => |k| match Kid::try_from(proc_macro2::Ident::new("alpha", Span::call_site())) { Ok(_) => "ok".into(), Err(e) => error(&e) };
    }
}

/// one type on one text, in every way
fn wide_call<T: Spec + fmt::Display + std::str::FromStr<Err = syn::Error> + 'static>(src: &'static str, k: &mut Keep) -> String {
    let a = parse::<T>(src, k);
    let b = match src.parse::<T>() {
        Err(e) => error(&e),
        Ok(v) => { let mut w = Few(1, String::new()); let r = write!(w, "{v}"); format!("{v} | {v:#} | {r:?} {:?}", w.1) }
    };
    format!("{a} || {b}")
}
macro_rules! wide_tys { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), wide_call::<$t> as fn(&'static str, &mut Keep) -> String)),*] } }
/// texts for every type
const TEXTS: &[&str] = &["", "a", "\n  a", "alpha 1", "1", "( a )", "a , b", "a + b - 1", "[ a ( x ) ]", "a = 1 ;", "{ a ; [ b ] }", "-> +"];
/// literals that are near one another, and are told apart late
const NEAR: &[&str] = &["1.2345678901234567e3", "1.2345678901234567e4", "1.2345678901234567", "1.23456789012345678", "1.0", "1.00", "1e0", "10.0", "1_0.0", "-1.0", "1.5", "1.5e0", "0.1", "0.10000000000000001", "1e308", "1e309", "123456789012345678", "123456789012345679", "-123456789012345678", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1", "-1", "01", "1_", "1u8", "1i64", "10", "0x10", "0o10", "0b10", "0x1_0", "100", "0", "-0",
    "'a'", "'b'", "'\\n'", "b'a'", "b'b'", "b'\\n'", "\"a\"", "\"b\"", "\"\"", "b\"a\"", "b\"\"", "r\"a\"", "br\"a\"", "r#\"a\"#", "\"\\x61\"", "\"A\"", "\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1\"", "\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2\"", "true", "false", "True"];
/// words that are near one another
const WORDS: &[&str] = &["a", "A", "r#a", "alpha", "r#alpha", "Alpha", "alph", "alphaa", "_", "_a", "fn", "r#fn", "aa", "é", "e\u{301}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2"];
type Wide0 = (String, &'static str, fn(&'static str, &mut Keep) -> String);
fn wide() -> Vec<Wide0> {
    let tys: Vec<(&'static str, fn(&'static str, &mut Keep) -> String)> = zoo!(wide_tys);
    let mut v: Vec<Wide0> = vec![];
    for (n, f) in &tys { for t in TEXTS { v.push((format!("{n} from {t:?}"), t, *f)) } }
    for (n, f) in wide_tys![Lit, Any<Lit>] { for t in NEAR { v.push((format!("{n} from {t:?}"), t, f)) } }
    for (n, f) in wide_tys![LitInt, LitUint, LitFloat] { for t in &NEAR[..36] { v.push((format!("{n} from {t:?}"), t, f)) } }
    for (n, f) in wide_tys![Word, Kid, kw::Alpha, Any<Either<kw::Alpha, Kid>>] { for t in WORDS { v.push((format!("{n} from {t:?}"), t, f)) } }
    v
}
/// what such a call gives alone in a fresh process
fn wide_alone() -> &'static Vec<String> {
    static A: OnceLock<Vec<String>> = OnceLock::new();
    A.get_or_init(|| {
        let n = wide().len();
        let parts: Vec<Vec<String>> = std::thread::scope(|s| {
            let ts: Vec<_> = (0..8).map(|t| s.spawn(move || (n * t / 8..n * (t + 1) / 8).map(|i| fresh("--wide", i)).collect())).collect();
            ts.into_iter().map(|t| t.join().unwrap()).collect()
        });
        parts.concat()
    })
}
fn fresh(flag: &str, i: usize) -> String {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args([flag, &i.to_string()]).output().unwrap();
    assert!(o.status.success(), "call {i} alone: {}", String::from_utf8_lossy(&o.stderr));
    String::from_utf8(o.stdout).unwrap()
}
fn looked(h: &[(&'static str, fn(&'static str, &mut Keep) -> String)]) -> Vec<String> {
    let mut keep = vec![];
    let out: Vec<(String, usize)> = h.iter().map(|(t, f)| { let s = f(t, &mut keep); (s, keep.len()) }).collect();
    let mut from = 0;
    out.into_iter().map(|(mut s, to)| { for l in &keep[from..to] { s.push_str("\nlater: "); s.push_str(&l()) } from = to; s }).collect()
}

/// what a call gives alone in a fresh process: the call itself, and a second look
fn alone() -> &'static Vec<String> {
    static A: OnceLock<Vec<String>> = OnceLock::new();
    A.get_or_init(|| (0..calls().len()).map(|i| fresh("--alone", i)).collect())
}
fn history(h: &[usize], cs: &[Call]) -> Vec<String> {
    let mut keep = vec![];
    let mut out: Vec<(String, usize)> = vec![];
    for i in h { let s = (cs[*i].f)(&mut keep); out.push((s, keep.len())) }
    let mut from = 0;
    out.into_iter().map(|(mut s, to)| { for l in &keep[from..to] { s.push_str("\nlater: "); s.push_str(&l()) } from = to; s }).collect()
}
fn judge(c: &mut Ctx, h: &[usize], cs: &[Call]) {
    c.states += 1;
    c.transitions += h.len() as u64;
    c.runs += h.len() as u64;
    let got = history(h, cs);
    c.outcome("run");
    for (k, i) in h.iter().enumerate() {
        let want = &alone()[*i];
        if got[k] != *want {
            let d = got[k].bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(40);
            let part = |s: &str| s.chars().collect::<Vec<_>>()[s[..s.floor_char_boundary(d.min(s.len()))].chars().count()..].iter().take(160).collect::<String>();
            c.fail(format!("call {} of the history [{}] gives ...{}..., alone ...{}...", k + 1, h.iter().take(12).map(|i| cs[*i].name).collect::<Vec<_>>().join("; "), part(&got[k]), part(want)))
        }
    }
    c.sample(|| h.iter().take(4).map(|i| cs[*i].name).collect::<Vec<_>>().join("; "));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "--alone" || a == "--wide") {
        std::panic::set_hook(Box::new(|_| {}));
        let i: usize = args[2].parse().unwrap();
        let many = args[1] == "--wide";
        let s = std::thread::Builder::new().stack_size(64 << 20).spawn(move || if many { let w = &wide()[i]; looked(&[(w.1, w.2)]) } else { history(&[i], &calls()) }).unwrap().join().unwrap();
        print!("{}", s[0]);
        return;
    }
    let q = !thorough();
    let n = calls().len() as u64;
    let mut v = vec![];
    for len in 1..=if q { 3 } else { 4 } {
        // four of them from every second one only
        let (m, step) = if len < 4 { (n, 1) } else { (n.div_ceil(2), 2) };
        v.push(suite(format!("all histories of {len} calls"), m.pow(len), &["run"], move |i, c| {
            let cs = calls();
            let h: Vec<usize> = (0..len).map(|k| (i / m.pow(k) % m) as usize * step).collect();
            judge(c, &h, &cs)
        }));
    }
    // a call, another one any number of times in between, and it again
    let reps: &'static [usize] = if q { &[4, 17, 70, 131] } else { &[3, 9, 17, 33, 65, 129, 300, 1100] };
    v.push(suite("a call repeated, then another", n * n * reps.len() as u64, &["run"], move |i, c| {
        let cs = calls();
        let (a, b, r) = ((i % n) as usize, (i / n % n) as usize, reps[(i / n / n) as usize]);
        let mut h = vec![a; r];
        h.push(b);
        judge(c, &h, &cs)
    }));
    // what goes wrong very often, then any call
    let wrong: Vec<usize> = calls().iter().enumerate().filter(|(_, c)| ["panics", "every production", "refuses", "fails"].iter().any(|w| c.name.contains(w))).map(|(i, _)| i).collect();
    let often: &'static [usize] = if q { &[1025, 5000] } else { &[257, 4097, 70000] };
    v.push(suite("what goes wrong, very often, then any call", (wrong.len() * often.len()) as u64, &["run"], move |i, c| {
        let cs = calls();
        let (w, r) = (wrong[i as usize % wrong.len()], often[i as usize / wrong.len()]);
        // the last runs of it are looked at, the others are forgotten at once
        for _ in 1..r { let _ = (cs[w].f)(&mut vec![]); }
        c.states += 1;
        c.runs += r as u64;
        c.transitions += r as u64;
        for b in 0..cs.len() { judge(c, &[w, b], &cs) }
    }));
    // every call once, from every start, with every stride
    v.push(suite("all calls in many orders", n * n, &["run"], move |i, c| {
        let cs = calls();
        let (s, d) = (i % n, i / n);
        let h: Vec<usize> = (0..n).map(|k| ((s + k * d + k * k * (d / 7)) % n) as usize).collect();
        judge(c, &h, &cs)
    }));
    // every type on every text, after every type on every text
    let ws: &'static Vec<Wide0> = Box::leak(Box::new(wide()));
    let m = ws.len() as u64;
    v.push(suite("every type on every text, after every other", m * m, &["run"], move |i, c| {
        let h = [&ws[(i % m) as usize], &ws[(i / m) as usize]];
        c.states += 1;
        c.transitions += 2;
        c.runs += 2;
        c.outcome("run");
        let got = looked(&[(h[0].1, h[0].2), (h[1].1, h[1].2)]);
        for (k, j) in [i % m, i / m].into_iter().enumerate() {
            let want = &wide_alone()[j as usize];
            if got[k] != *want { c.fail(format!("{} after {}: gives {:?}, alone {:?}", h[k].0, h[1 - k].0, got[k].chars().take(200).collect::<String>(), want.chars().take(200).collect::<String>())) }
        }
        c.sample(|| format!("{}; {}", h[0].0, h[1].0));
    }));
    // on a thread of its own, after another thread did something
    v.push(suite("a call on another thread", n * n, &["run"], move |i, c| {
        let (a, b) = ((i % n) as usize, (i / n) as usize);
        for (k, h) in [vec![a, b], vec![b]].into_iter().enumerate() {
            let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || { let mut c = Ctx::default(); judge(&mut c, &h, &calls()); c }).unwrap().join().unwrap());
            for f in r.fails { c.fail(format!("on thread {k}: {f}")) }
            c.states += r.states; c.transitions += r.transitions; c.runs += r.runs;
        }
        c.outcome("run");
    }));
    main_("C29", v)
}
