//! C14: a parsed tree prints exactly the tokens it was parsed from.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::ToTokens;
use proc_macro2::{Delimiter, Spacing, Span, TokenStream, TokenTree};
use std::borrow::Cow;
use std::cell::RefCell;
use syn::parse::{ParseStream, Parser};
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;

/// Compares printed tokens with source tokens; `joint` are the places that must be joint.
fn same(ts: TokenStream, l: &[LTok], joint: &[usize]) -> Result<(), String> {
    let mut it = ts.into_iter();
    let mut i = 0;
    while i < l.len() {
        let Some(t) = it.next() else { return Err(format!("printed tokens end before `{}`", text(&l[i]))) };
        let want = l[i].sp.lc();
        let at = |s: Span, what: &str| -> Result<(), String> { if Lc::of(s) == want { Ok(()) } else { Err(format!("{what} printed with location {:?}, which is at {:?} in the source", Lc::of(s), want)) } };
        match (&t, &l[i].t) {
            (TokenTree::Ident(a), LT::I(b)) if a.to_string() == **b => at(a.span(), b)?,
            (TokenTree::Literal(a), LT::L(b)) if lit_value(&a.to_string()) == lit_value(b) && kind(&a.to_string()) == kind(b) => at(a.span(), b)?,
            (TokenTree::Group(g), LT::G { d, open, close, inner }) if g.delimiter() == delim(*d) => {
                at(g.span(), "group")?;
                if Lc::of(g.span_open()) != open.lc() || Lc::of(g.span_close()) != close.lc() { return Err("location of a delimiter changed".into()) }
                same(g.stream(), inner, joint)?;
            }
            (TokenTree::Punct(p), LT::P('-', _)) if p.as_char() == '-' && matches!(l.get(i + 1), Some(LTok { t: LT::L(_), .. })) => {
                // either an operator, or the sign of a literal, which may share one location with the digits
                let LT::L(b) = &l[i + 1].t else { unreachable!() };
                let whole = l[i].sp.to(l[i + 1].sp).lc();
                let Some(TokenTree::Literal(a)) = it.next() else { return Err(format!("no literal printed after the `-` of `-{b}`")) };
                if lit_value(&a.to_string()) != lit_value(b) || kind(&a.to_string()) != kind(b) { return Err(format!("`-{b}` printed as `-{a}`")) }
                let (x, y) = (Lc::of(p.span()), Lc::of(a.span()));
                if (x != want && x != whole) || (y != l[i + 1].sp.lc() && y != whole) { return Err(format!("`-{b}` printed with locations {x:?}, {y:?}, which are {want:?}, {:?} in the source", l[i + 1].sp.lc())) }
                i += 1;
            }
            (TokenTree::Punct(p), LT::P(c, _)) if p.as_char() == *c => {
                at(p.span(), &c.to_string())?;
                let j = *c == '\'' || joint.contains(&l[i].sp.lo.byte);
                if (p.spacing() == Spacing::Joint) != j { return Err(format!("`{c}` printed {:?}", p.spacing())) }
            }
            _ => return Err(format!("printed `{t}` where the source has `{}`", text(&l[i]))),
        }
        i += 1;
    }
    match it.next() { Some(t) => Err(format!("printed `{t}` in addition")), None => Ok(()) }
}

fn text(t: &LTok) -> String { match &t.t { LT::I(s) | LT::L(s) => s.to_string(), LT::P(c, _) => c.to_string(), LT::G { d, .. } => format!("{}...{}", d.open(), d.close()) } }
fn delim(d: D) -> Delimiter { match d { D::Par => Delimiter::Parenthesis, D::Brk => Delimiter::Bracket, D::Brc => Delimiter::Brace } }
/// the kind of a literal, as far as its value does not tell
fn kind(s: &str) -> bool { s.contains(['.', 'e', '"', '\'']) }

fn print<T: Spec>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    c.states += 1;
    c.runs += 2;
    let m = model(g, l, false);
    c.transitions += m.steps;
    let (Ok((_, pos)), 0) = (&m.res, m.left) else { c.outcome("not parsed"); return };
    let ts: TokenStream = src.parse().unwrap();
    let mut parsed = None;
    let mut prefix = TokenStream::new();
    let _ = (|input: ParseStream| {
        if let Ok(v) = T::parse(input) {
            // printing appends to what is there already
            let mut p: TokenStream = "before (x)".parse().unwrap();
            v.to_tokens(&mut p);
            let mut p = p.into_iter().skip(2).collect::<TokenStream>();
            std::mem::swap(&mut p, &mut prefix);
            parsed = Some(v);
        }
        input.parse::<TokenStream>().map(|_| ())
    }).parse2(ts);
    let Some(v) = parsed else { c.fail(format!("{} on `{src}`: not parsed", t.name)); return };
    c.outcome(if *pos == l.len() { "whole input" } else { "prefix" });
    for p in [prefix, v.to_token_stream()] {
        if let Err(e) = same(p.clone(), &l[..*pos], &m.joint) { c.fail(format!("{} on `{src}`: parsed value prints as `{p}`: {e}", t.name)) }
    }
    c.sample(|| format!("{} on `{src}`: {} tokens printed with their locations", t.name, pos));
}

macro_rules! print_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: print::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

thread_local!(static GAP: RefCell<(usize, usize)> = const { RefCell::new((0, 0)) });
const GAPS: &[&str] = &[" ", "\n", "  ", "/*é*/", "\t", "\r\n", " // c\n", "\n\n "];
/// the same tokens, laid out in different ways
fn layouts(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    (t.ext)(c, t, g, src, l);
    let toks = back(l);
    if model(g, l, false).res.is_err() { return }
    for k in 1..4 {
        let mut n = k;
        let mut gap = |inside: bool| -> Str { n += 1; if inside && n % 3 == 0 { Cow::Borrowed("") } else { Cow::Borrowed(GAPS[n * k % GAPS.len()]) } };
        let mut r = Renderer::new(&mut gap);
        let l2 = r.toks(&toks, false);
        (t.ext)(c, t, g, &r.out, &l2);
    }
}
fn back(l: &[LTok]) -> Vec<Tok> { l.iter().map(|t| match &t.t { LT::I(s) => Tok::I(s.clone()), LT::L(s) => Tok::L(s.clone()), LT::P(c, j) => Tok::P(*c, *j), LT::G { d, inner, .. } => Tok::G(*d, back(inner)) }).collect() }

fn main() {
    let q = !thorough();
    let _ = GAP.with(|_| ());
    let tys: Vec<Ty> = zoo!(print_tys);
    let must = ["not parsed", "whole input", "prefix"];
    let mut s = explore("every type", tys.clone(), ALPHA, &[D::Par], Bounds { forest: if q { 4 } else { 5 }, sent: 0, sent2: 0 }, ext, &must);
    s.extend(explore("every type, fewer tokens", tys.clone(), SMALL, &D::ALL, Bounds { forest: if q { 5 } else { 6 }, sent: 0, sent2: 0 }, ext, &[]));
    s.extend(explore("every type in several layouts", tys.clone(), "", &D::ALL, Bounds { forest: 0, sent: if q { 7 } else { 9 }, sent2: if q { 2 } else { 4 } }, layouts, &must));
    for p in PERIODS { s.push(long(&format!("very often repeated `{}`", p.join(" ")), tys.clone(), p, if q { vec![4099, 4100] } else { vec![2050, 4095, 4096, 4097, 4098, 4099, 4100, 4101, 8194] }, &[], 0, ext, &[])) }
    for p in PERIODS { s.push(long(&format!("repeated `{}`", p.join(" ")), tys.clone(), p, if q { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 33, 64, 65, 129, 257] } else { (1..70).chain([127, 128, 129, 255, 256, 257, 511, 513, 1025]).collect() }, &[], 0, layouts, &["whole input"])) }
    // every operator, alone and next to others
    type T4<A, B, C, D> = Two<Two<A, B>, Two<C, D>>;
    macro_rules! opt { ($($t:tt)*) => { vec![$(Ty { ext: print::<Two<Any<Token![$t]>, Maybe<Word, Token![$t]>>>, ..ty::<Two<Any<Token![$t]>, Maybe<Word, Token![$t]>>>(concat!("Two<Any<", stringify!($t), ">, Maybe<Word, same>>")) }),*] } }
    let mut ops: Vec<Ty> = opt!(+ - * / , ; : :: = == += .. ..= ... . -> <- => && & | || < > <= >= << >> <<= >>= ! != # ? % ^ @ ~ $ -= *= /= %= ^= &= |=);
    ops.extend({ let v: Vec<Ty> = print_tys![Many<Ops>, T4<Token![+], Token![=], Token![+=], Token![+]>, T4<Token![.], Token![..], Token![...], Token![.]>, T4<Token![&], Token![&&], Token![&], Token![&]>, T4<Token![<], Token![<<=], Token![<=], Token![=]>, Two<Token![-], T4<Token![-], Token![->], Token![>], Lit>>, Two<syn::Lifetime, Any<syn::Lifetime>>]; v });
    s.extend(explore("operators", ops, "+ = - > . & <", &[], Bounds { forest: if q { 4 } else { 6 }, sent: if q { 5 } else { 7 }, sent2: if q { 4 } else { 5 } }, ext, &["whole input", "not parsed"]));
    main_("C14", s)
}
