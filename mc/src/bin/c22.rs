//! C22: locations through parsing, printing, conversions and `set_span`.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::util::SpannedExt;
use parsel::ToTokens;
use proc_macro2::{Span, TokenStream, TokenTree};
use std::convert::TryFrom;
use syn::parse::{ParseStream, Parser};
use syn::token;
#[path = "../shared/layout.rs"]
mod layout;
#[path = "../shared/zoo.rs"]
mod zoo;
use layout::*;
use zoo::*;

fn prefix<T: Spec>(src: &str) -> Option<T> {
    let mut parsed = None;
    let _ = (|input: ParseStream| { parsed = T::parse(input).ok(); input.parse::<TokenStream>().map(|_| ()) }).parse_str(src);
    parsed
}

/// where each token of the source is, delimiters on their own; and, for the sign of a literal
/// and its digits, where the literal is
fn places_of(l: &[LTok], v: &mut Vec<(usize, Lc, Option<Lc>)>) {
    for (i, t) in l.iter().enumerate() {
        match &t.t {
            LT::G { open, close, inner, .. } => { v.push((open.lo.byte, open.lc(), None)); places_of(inner, v); v.push((close.lo.byte, close.lc(), None)) }
            LT::P('-', _) if matches!(l.get(i + 1), Some(LTok { t: LT::L(_), .. })) => v.push((t.sp.lo.byte, t.sp.lc(), Some(t.sp.to(l[i + 1].sp).lc()))),
            LT::L(_) if i > 0 && matches!(l[i - 1].t, LT::P('-', _)) => v.push((t.sp.lo.byte, t.sp.lc(), Some(l[i - 1].sp.to(t.sp).lc()))),
            _ => v.push((t.sp.lo.byte, t.sp.lc(), None)),
        }
    }
}
fn fits(got: &[Lc], want: &[(usize, Lc, Option<Lc>)]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(g, w)| *g == w.1 || Some(*g) == w.2) }

/// Every node and the tokens it prints, against the source.
fn nodes<T: Spec + std::str::FromStr<Err = syn::Error>>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    c.states += 1;
    let m = model(g, l, false);
    c.transitions += m.steps;
    let (Ok(_), 0) = (&m.res, m.left) else { c.outcome("not parsed"); return };
    c.runs += 1;
    let Some(v) = prefix::<T>(src) else { c.fail(format!("{} on {src:?}: not parsed", t.name)); return };
    let ns = notes(&v, src);
    assert_eq!(ns.len(), m.nodes.len(), "harness: {} on {src:?}", t.name);
    let mut all = vec![];
    places_of(l, &mut all);
    for (n, sp) in ns.iter().zip(&m.nodes) {
        let Some(sp) = sp else { c.outcome("node without tokens"); continue };
        if n.lc != sp.lc() { c.fail(format!("{} on {src:?}: the node {} is located at {:?}, should be at {:?}", t.name, n.what, n.lc, sp.lc())) }
        let want: Vec<_> = all.iter().filter(|p| p.0 >= sp.lo.byte && p.0 < sp.hi.byte).cloned().collect();
        if !fits(&n.printed, &want) { c.fail(format!("{} on {src:?}: the node {} prints tokens located at {:?}, should be at {:?}", t.name, n.what, n.printed, want)) }
        c.outcome("node");
    }
    // a source that is parsed as a whole, from its text, gives the same
    if matches!(&m.res, Ok((_, p)) if *p == l.len()) {
        for (how, w) in [("from_str", src.parse::<T>()), ("parse_str", parsel::parse_str::<T>(src)), ("syn's parse_str", syn::parse_str::<T>(src))] {
            c.runs += 1;
            let w = match w { Ok(w) => w, Err(e) => { c.fail(format!("{} on {src:?}: rejected by {how}: {e}", t.name)); continue } };
            for (a, b) in ns.iter().zip(&notes(&w, src)) { if (a.lc, &a.printed) != (b.lc, &b.printed) { c.fail(format!("{} on {src:?}, by {how}: the node {} is located at {:?} and prints at {:?}, should be at {:?} and {:?}", t.name, b.what, b.lc, b.printed, a.lc, a.printed)); break } }
        }
        c.outcome("whole text");
    }
    // into a delimiter: that has the location of the value
    let Some(Some(sp)) = m.nodes.last() else { return };
    c.outcome("put into delimiters");
    let mine = ns.last().unwrap().printed.clone();
    macro_rules! to { ($v:expr, $t:ident $tok:ident) => { delimited(c, t.name, src, $t::from($v), sp.lc(), &mine, |p| { let s = (p.$tok().span.join(), p.as_parts().0.span.join()); let (a, v) = p.into_parts(); (v, [s.0, s.1, a.span.join()]) }) } }
    let Some(v) = to!(v, Paren as_parens) else { return };
    let Some(v) = to!(v, Bracket as_brackets) else { return };
    let Some(v) = to!(v, Brace as_braces) else { return };
    // and with a location of another source
    let to = elsewhere();
    for (n, ts) in [("Paren", Paren::new(v.rebuild(0), to).to_token_stream()), ("Bracket", Bracket::new(v.rebuild(0), to).to_token_stream()), ("Brace", Brace::new(v.rebuild(0), to).to_token_stream())] { group_at(c, t.name, src, n, ts, to) }
    let p = Paren::from((token::Paren(to), v));
    group_at(c, t.name, src, "Paren", p.to_token_stream(), to);
    let b = Bracket::from((token::Bracket(to), p.into_inner()));
    group_at(c, t.name, src, "Bracket", b.to_token_stream(), to);
    let b = Brace::from((token::Brace(to), b.into_inner()));
    group_at(c, t.name, src, "Brace", b.to_token_stream(), to);
    c.sample(|| format!("{} on {src:?}: {} nodes, the tokens of the last at {:?}", t.name, ns.len(), mine));
}
/// a place in a source of its own
fn elsewhere() -> Span { "é\n  (字 elsewhere)".parse::<TokenStream>().unwrap().into_iter().last().unwrap().span() }

/// the parts of a delimited value made of `v`
fn delimited<T: Spec, P: ToTokens>(c: &mut Ctx, t: &str, src: &str, p: P, want: Lc, inside: &[Lc], parts: impl Fn(P) -> (T, [Span; 3])) -> Option<T> {
    let what = std::any::type_name::<P>().split('<').next().unwrap().rsplit(':').next().unwrap();
    let ts = p.to_token_stream();
    let g = match ts.into_iter().next() { Some(TokenTree::Group(g)) => g, x => { c.fail(format!("{t} on {src:?}: converted to {what}, prints {x:?}")); return None } };
    if Lc::of(g.span()) != want { c.fail(format!("{t} on {src:?}: converted to {what}, the delimiter prints at {:?}, should be at {want:?}", Lc::of(g.span()))) }
    let mut got = vec![];
    places(g.stream(), &mut got);
    if got != inside { c.fail(format!("{t} on {src:?}: converted to {what}, its content prints at {got:?}, should be at {inside:?}")) }
    if Lc::of(SpannedExt::span(&p)) != want { c.fail(format!("{t} on {src:?}: converted to {what}, the node is at {:?}, should be at {want:?}", Lc::of(SpannedExt::span(&p)))) }
    let (v, s) = parts(p);
    if s.iter().any(|s| Lc::of(*s) != want) { c.fail(format!("{t} on {src:?}: converted to {what}, the delimiter is at {:?}, should be at {want:?}", s.map(Lc::of))) }
    Some(v)
}
fn group_at(c: &mut Ctx, t: &str, src: &str, what: &str, ts: TokenStream, want: Span) {
    let want = (Lc::of(want), want.source_text());
    for g in ts { if (Lc::of(g.span()), g.span().source_text()) != want { c.fail(format!("{t} on {src:?}: {what} made with a location prints at {:?}, should be at {want:?}", Lc::of(g.span()))) } }
}
macro_rules! node_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: nodes::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }
fn layouts(c: &mut Ctx, t: &Ty, g: &G, _: &str, l: &[LTok]) {
    if model(g, l, false).res.is_err() { return }
    let ts = back(l);
    for k in 0..if thorough() { 16 } else { 4 } {
        let (src, l) = laid(&ts, k);
        (t.ext)(c, t, g, &src, &l);
    }
}

// ---- leaves: everything they offer

/// what is known of the location of a value: where, and on what text
type Where = (Lc, Option<String>);
fn at(s: Span) -> Where { (Lc::of(s), s.source_text()) }

/// A literal, identifier or keyword.
trait Located: Spec + Clone {
    fn at(&self) -> Span;
    fn put(&mut self, s: Span);
    /// through everything it converts to and from: name, and location of the result
    fn ways(&self) -> Vec<(&'static str, Where)>;
}
fn printed(ts: TokenStream) -> Vec<Where> { ts.into_iter().map(|t| at(t.span())).collect() }

macro_rules! lits { ($($t:ident |$x:ident| [$($name:literal $e:expr;)*];)*) => { $(
    impl Located for $t {
        fn at(&self) -> Span { self.span() }
        fn put(&mut self, s: Span) { self.set_span(s) }
        fn ways(&self) -> Vec<(&'static str, Where)> {
            let $x = self;
            vec![
                ("token()", at($x.token().span())), ("TokenTree", at(TokenTree::from($x.clone()).span())), ("Clone", at($x.clone().span())),
                ("Lit", at(Lit::from($x.clone()).span())), ("Lit's SpannedExt", at(SpannedExt::span(&Lit::from($x.clone())))), ("Lit to syn::Lit", at(syn::Lit::from(Lit::from($x.clone())).span())),
                ("Lit to syn::Lit and back", at(Lit::try_from(syn::Lit::from(Lit::from($x.clone()))).unwrap().span())),
                ("new", at($t::new($x.value(), $x.span()).span())),
                $(($name, at($e.span()))),*
            ]
        }
    }
)* } }
lits! {
    LitBool |x| ["syn" syn::LitBool::from(x.clone()); "syn and back" LitBool::from(syn::LitBool::from(x.clone()));];
    LitByte |x| ["syn" syn::LitByte::from(x.clone()); "syn and back" LitByte::from(syn::LitByte::from(x.clone())); "syn's token" syn::LitByte::from(x.clone()).token();];
    LitInt |x| ["syn" syn::LitInt::from(x.clone()); "syn and back" LitInt::try_from(syn::LitInt::from(x.clone())).unwrap(); "syn's token" syn::LitInt::from(x.clone()).token();];
    LitUint |x| ["syn" syn::LitInt::from(x.clone()); "syn and back" LitUint::try_from(syn::LitInt::from(x.clone())).unwrap(); "syn's token" syn::LitInt::from(x.clone()).token();];
    LitFloat |x| ["syn" syn::LitFloat::from(x.clone()); "syn and back" LitFloat::try_from(syn::LitFloat::from(x.clone())).unwrap(); "syn's token" syn::LitFloat::from(x.clone()).token();];
    LitChar |x| ["syn" syn::LitChar::from(x.clone()); "syn and back" LitChar::from(syn::LitChar::from(x.clone())); "syn's token" syn::LitChar::from(x.clone()).token();];
    LitStr |x| ["syn" syn::LitStr::from(x.clone()); "syn and back" LitStr::from(syn::LitStr::from(x.clone())); "syn's token" syn::LitStr::from(x.clone()).token();];
    LitByteStr |x| ["syn" syn::LitByteStr::from(x.clone()); "syn and back" LitByteStr::from(syn::LitByteStr::from(x.clone())); "syn's token" syn::LitByteStr::from(x.clone()).token();];
}
impl Located for Lit {
    fn at(&self) -> Span { self.span() }
    fn put(&mut self, s: Span) { self.set_span(s) }
    fn ways(&self) -> Vec<(&'static str, Where)> {
        let mut v = vec![("Clone", at(self.clone().span())), ("syn", at(syn::Lit::from(self.clone()).span())), ("syn and back", at(Lit::try_from(syn::Lit::from(self.clone())).unwrap().span()))];
        v.push(("the literal inside", match self { Lit::Bool(x) => at(x.span()), Lit::Byte(x) => at(x.span()), Lit::Int(x) => at(x.span()), Lit::Uint(x) => at(x.span()), Lit::Float(x) => at(x.span()), Lit::Char(x) => at(x.span()), Lit::Str(x) => at(x.span()), Lit::ByteStr(x) => at(x.span()) }));
        v
    }
}
macro_rules! words { ($($t:ty),*) => { $( impl Located for $t {
    fn at(&self) -> Span { self.span() }
    fn put(&mut self, s: Span) { self.set_span(s) }
    fn ways(&self) -> Vec<(&'static str, Where)> {
        vec![("token()", at(self.token().span())), ("Clone", at(self.clone().span())), ("Ident", at(Ident::from(self.clone()).span())), ("Ident and back", at(<$t>::try_from(Ident::from(self.clone())).unwrap().span())), ("token() and back", at(<$t>::try_from(self.token()).unwrap().span()))]
    }
} )* } }
words!(Word, Kid);
macro_rules! kws { ($($t:ty),*) => { $( impl Located for $t {
    fn at(&self) -> Span { self.span() }
    fn put(&mut self, s: Span) { self.set_span(s) }
    fn ways(&self) -> Vec<(&'static str, Where)> { vec![("token()", at(self.token().span())), ("Clone", at(self.clone().span())), ("new", at(<$t>::new(self.span()).span())), ("TokenTree", at(TokenTree::from(*self).span()))] }
} )* } }
parsel::define_keywords! { pub mod kw2 { r#match => Match; 字 => Zi; } }
mc::kw_spec! { kw2::Match => "r#match"; kw2::Zi => "字"; }
kws!(kw::Alpha, kw::Fn, kw::Alphabet, kw::Under, kw2::Match, kw2::Zi);
trait FromSyn: Sized { fn from_syn(src: &str) -> Vec<Where>; }
macro_rules! from_syn { ($($t:ident $s:ty, |$x:ident| $e:expr;)*) => { $(impl FromSyn for $t { fn from_syn(src: &str) -> Vec<Where> {
    let Ok($x) = (|i: ParseStream| { let x: syn::Result<$s> = i.parse(); i.parse::<TokenStream>()?; x }).parse_str(src) else { return vec![] };
    vec![at($e.span()), at(Lit::try_from(syn::Lit::from($x.clone())).map(|l| l.span()).unwrap_or(Span::call_site()))]
} })* } }
from_syn! {
    LitBool syn::LitBool, |x| LitBool::from(x.clone()); LitByte syn::LitByte, |x| LitByte::from(x.clone()); LitInt syn::LitInt, |x| LitInt::try_from(x.clone()).unwrap(); LitUint syn::LitInt, |x| LitUint::try_from(x.clone()).unwrap();
    LitFloat syn::LitFloat, |x| LitFloat::try_from(x.clone()).unwrap(); LitChar syn::LitChar, |x| LitChar::from(x.clone()); LitStr syn::LitStr, |x| LitStr::from(x.clone()); LitByteStr syn::LitByteStr, |x| LitByteStr::from(x.clone());
    Lit syn::Lit, |x| Lit::try_from(x.clone()).unwrap();
}
macro_rules! no_syn { ($($t:ty),*) => { $( impl FromSyn for $t { fn from_syn(_: &str) -> Vec<Where> { vec![] } } )* } }
no_syn!(Word, Kid, kw::Alpha, kw::Fn, kw::Alphabet, kw::Under, kw2::Match, kw2::Zi);

const BEFORE: &[&str] = &["", " ", "\n", "é\t", "\u{feff}", "\r\n\r\n  ", "/* é\n */", "(x) ", "\u{feff}\n字 "];
const AFTER: &[&str] = &["", "\n", " z", " // é", "(z)"];

/// A value parsed at a known place, in each of its forms, and then moved elsewhere.
fn leaf<T: Located + FromSyn>(c: &mut Ctx, texts: &[&str], before: &str, after: &str) {
    let name = std::any::type_name::<T>();
    for text in texts {
        c.states += 1;
        let src = format!("{before}{text}{after}");
        let (lo, hi) = (before.len(), before.len() + text.len());
        let lc = |b: usize| { let p = &src[..b]; (1 + p.matches('\n').count(), p.rsplit('\n').next().unwrap().chars().count()) };
        let want = Lc { sl: lc(lo).0, sc: lc(lo).1, el: lc(hi).0, ec: lc(hi).1 };
        // what stands before is not part of it
        let skip = before.parse::<TokenStream>().unwrap().into_iter().count();
        let mut x: Option<T> = None;
        let mut from = vec![];
        let toks: Vec<TokenTree> = src.parse::<TokenStream>().unwrap().into_iter().skip(skip).collect();
        let _ = (|i: ParseStream| { x = i.parse().ok(); i.parse::<TokenStream>().map(|_| ()) }).parse2(toks.iter().cloned().collect());
        if skip == 0 { from = T::from_syn(&src) }
        c.runs += 1;
        let Some(x) = x else { c.fail(format!("{name}: `{text}` in {src:?} not parsed")); continue };
        c.outcome("parsed");
        let show = |x: &T| { let (mut o, mut p) = (String::new(), String::new()); x.tree(&mut o); flat(x.to_token_stream(), &mut p); (o, p) };
        let all = |x: &T| { let mut v = x.ways(); v.extend([("span()", at(x.at())), ("SpannedExt", at(SpannedExt::span(x))), ("syn's Spanned", at(syn::spanned::Spanned::span(x)))]); v };
        let judge = |c: &mut Ctx, how: &str, x: &T, want: &dyn Fn(Lc) -> bool, w: &Where| {
            for (n, got) in all(x) { c.transitions += 1; if !want(got.0) || got.1 != w.1 { c.fail(format!("{name} from `{text}` in {src:?}{how}: {n} is located at {got:?}, should be at {w:?}")) } }
            for got in printed(x.to_token_stream()) { if !want(got.0) || got.1 != w.1 { c.fail(format!("{name} from `{text}` in {src:?}{how}: prints a token located at {got:?}, should be at {w:?}")) } }
        };
        let w = (want, Some(text.to_string()));
        judge(c, "", &x, &|l| l == want, &w);
        for f in from { c.transitions += 1; if f != w { c.fail(format!("{name} from syn's literal `{text}` in {src:?}: located at {f:?}, should be at {w:?}")) } }
        // moving
        let orig = show(&x);
        let targets = [Span::call_site(), Span::mixed_site(), elsewhere(), toks.last().unwrap().span(), "a".repeat(300).parse::<TokenStream>().unwrap().into_iter().next().unwrap().span()];
        for a in targets {
            for b in [None].into_iter().chain(targets.into_iter().map(Some)) {
                let mut y = x.clone();
                y.put(a);
                let mut to = a;
                if let Some(b) = b { y.put(b); to = b }
                c.runs += 1;
                c.outcome("moved");
                judge(c, " with another location", &y, &|l| l == Lc::of(to), &at(to));
                if show(&y) != orig || y != x { c.fail(format!("{name} from `{text}`: is {:?} after its location was set, was {orig:?}", show(&y))) }
            }
        }
        judge(c, " after copies of it were moved", &x, &|l| l == want, &w);
        // the same value at several places: equal, located each on its own
        let again = src.parse::<TokenStream>().unwrap();
        let _ = again;
        c.sample(|| format!("{name}: `{text}` in {src:?} located at {want:?} in each form; set_span moves it"));
    }
}

fn leaves() -> Suite {
    let n = (BEFORE.len() * AFTER.len()) as u64;
    let ints: &'static [&'static str] = &["0", "7", "1_000", "0xff", "9223372036854775807", "-1", "- 1", "-9223372036854775808", "-/* é */\n 0b11", "12u8"];
    suite("leaves, in each form", n, &["parsed", "moved"], move |i, c| {
        let (b, a) = (BEFORE[i as usize % BEFORE.len()], AFTER[i as usize / BEFORE.len()]);
        leaf::<LitBool>(c, &["true", "false"], b, a);
        leaf::<LitByte>(c, &["b'x'", "b'\\n'", "b'\\xff'"], b, a);
        leaf::<LitInt>(c, ints, b, a);
        leaf::<LitUint>(c, &["0", "7", "1_000", "0xff", "18446744073709551615", "12u8"], b, a);
        leaf::<LitFloat>(c, &["1.5", "0.0", "1e300", "-1.5", "- 2e-3", "-\n0.0", "1e999", "-1e999"], b, a);
        leaf::<LitChar>(c, &["'c'", "'é'", "'\\n'", "'\\u{1F600}'", "'𝄞'"], b, a);
        leaf::<LitStr>(c, &["\"\"", "\"s\"", "\"é\n𝄞\"", "r\"raw\"", "r#\"ra\nw\"#", "\"a\\\n   b\""], b, a);
        leaf::<LitByteStr>(c, &["b\"\"", "b\"s\"", "br\"raw\"", "b\"a\n\nb\""], b, a);
        leaf::<Lit>(c, &["true", "b'x'", "-7", "7", "- 7", "1.5", "-\n1.5", "'é'", "\"é\n𝄞\"", "b\"s\"", "r#\"ra\nw\"#", "-0", "1e999"], b, a);
        leaf::<Word>(c, &["a", "é1", "字", "_", "fn", "r#fn", "true", "self", "_1"], b, a);
        leaf::<Kid>(c, &["a", "é1", "字", "r#fn", "if", "alphabeta"], b, a);
        leaf::<kw::Alpha>(c, &["alpha"], b, a);
        leaf::<kw::Fn>(c, &["fn"], b, a);
        leaf::<kw::Alphabet>(c, &["alphabet"], b, a);
        leaf::<kw::Under>(c, &["_"], b, a);
        leaf::<kw2::Match>(c, &["r#match"], b, a);
        leaf::<kw2::Zi>(c, &["字"], b, a);
    })
}

// ---- lists: conversions keep every location

fn lists<T: Spec + Clone, P: Spec + Clone>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    let m = model(g, l, false);
    c.states += 1;
    c.transitions += m.steps;
    let (Ok((_, pos)), 0) = (&m.res, m.left) else { c.outcome("not parsed"); return };
    if *pos < l.len() { return }
    let Some(v) = prefix::<Punctuated<T, P>>(src) else { c.fail(format!("{} on {src:?}: not parsed", t.name)); return };
    let mut want = vec![];
    places_of(l, &mut want);
    let same = |c: &mut Ctx, how: &str, ts: TokenStream| {
        let mut got = vec![];
        places(ts, &mut got);
        c.runs += 1;
        if !fits(&got, &want) { c.fail(format!("{} on {src:?}: {how}, prints tokens located at {got:?}, should be at {want:?}", t.name)) }
    };
    c.outcome("list");
    let s = syn::punctuated::Punctuated::<T, P>::from(v.clone());
    same(c, "converted to syn's list", s.to_token_stream());
    same(c, "converted to syn's list and back", Punctuated::from(s.clone()).to_token_stream());
    same(c, "collected again", v.clone().into_pairs().collect::<Punctuated<T, P>>().to_token_stream());
    same(c, "cloned", v.clone().to_token_stream());
    if let Ok(x) = Separated::try_from(s) {
        same(c, "converted to Separated", x.to_token_stream());
        same(c, "converted to Separated and back", syn::punctuated::Punctuated::from(x.clone()).to_token_stream());
        let (first, rest) = x.clone().into_first_rest();
        let mut chain = LeftAssoc::Rhs(first.clone());
        let mut again = Separated::<T, P>::try_from({ let mut p = syn::punctuated::Punctuated::new(); p.push_value(first); p }).unwrap();
        let (mut items, mut ops) = (vec![], vec![]);
        for (op, t) in rest { again.push(op.clone(), t.clone()); items.push(t.clone()); ops.push(op.clone()); chain = LeftAssoc::Binary { lhs: Box::new(chain), op, rhs: t } }
        same(c, "assembled into Separated", again.to_token_stream());
        same(c, "assembled into LeftAssoc", chain.to_token_stream());
        items.insert(0, x.into_iter().next().unwrap());
        let mut r = RightAssoc::Lhs(items.pop().unwrap());
        while let Some(op) = ops.pop() { r = RightAssoc::Binary { lhs: items.pop().unwrap(), op, rhs: Box::new(r) } }
        same(c, "assembled into RightAssoc", r.to_token_stream());
        c.outcome("separated");
    }
    let ps: Vec<Pairs<T, P>> = v.clone().into_pairs().map(|p| { let (t, p) = p.into_tuple(); Pairs(t, p) }).collect();
    let a = Any::from(ps);
    same(c, "as Any", a.to_token_stream());
    let back: Vec<Pairs<T, P>> = a.into();
    same(c, "as Any and back", Any::from(back).to_token_stream());
}
struct Pairs<T, P>(T, Option<P>);
impl<T: ToTokens, P: ToTokens> ToTokens for Pairs<T, P> { fn to_tokens(&self, o: &mut TokenStream) { self.0.to_tokens(o); self.1.to_tokens(o) } }
macro_rules! list_tys { ($($a:ty, $b:ty);* $(;)?) => { vec![$(Ty { ext: lists::<$a, $b>, ..ty::<Punctuated<$a, $b>>(concat!("Punctuated<", stringify!($a), ", ", stringify!($b), ">")) }),*] } }

/// an identifier that is a keyword is refused at its own place
fn refused(c: &mut Ctx) {
    for b in BEFORE { for w in ["alpha", "fn", "alphabet", "_"] {
        let src = format!("{b} {w}");
        let id = match src.parse::<TokenStream>().unwrap().into_iter().last() { Some(TokenTree::Ident(i)) => i, _ => continue };
        c.runs += 1;
        match Kid::try_from(id.clone()) { Ok(_) => c.fail(format!("keyword {w} taken as an identifier")), Err(e) => if at(e.span()) != at(id.span()) { c.fail(format!("keyword {w} in {src:?} refused at {:?}, should be at {:?}", at(e.span()), at(id.span()))) } }
        c.outcome("refused");
    } }
}

fn main() {
    let q = !thorough();
    let tys: Vec<Ty> = zoo!(node_tys);
    let must = ["node", "put into delimiters", "not parsed", "whole text"];
    let mut s = explore("every type in several layouts", tys.clone(), "", &D::ALL, Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 2 } else { 3 } }, layouts, &must);
    s.extend(explore("every type", tys.clone(), SMALL, &[D::Par], Bounds { forest: if q { 4 } else { 6 }, sent: 0, sent2: 0 }, ext, &["not parsed"]));
    for p in PERIODS { s.push(long(&format!("repeated `{}`", p.join(" ")), tys.clone(), p, if q { vec![1, 2, 3, 9, 33, 65] } else { (1..34).chain([64, 65, 129, 257]).collect() }, &[], 0, layouts, &["node"])) }
    s.push(leaves());
    let ls: Vec<Ty> = list_tys![Word, Comma; Lit, Plus; Paren<Word>, Path2; Arrow, Semi; Kid, kw::Alpha; Two<LitInt, Maybe<Word>>, Minus];
    s.extend(explore("lists", ls, "", &D::ALL, Bounds { forest: 0, sent: if q { 8 } else { 11 }, sent2: if q { 2 } else { 4 } }, layouts, &["list", "separated", "not parsed"]));
    s.push(suite("refused identifiers", 1, &["refused"], |_, c| refused(c)));
    main_("C22", s)
}
