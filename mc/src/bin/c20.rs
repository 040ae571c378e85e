//! C20: textual parsing and display agree with token parsing and printing.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::ToTokens;
use proc_macro2::TokenStream;
use std::fmt::Display;
use std::str::FromStr;
use syn::parse::{ParseStream, Parser};
#[path = "../shared/fmtgen.rs"]
mod fmtgen;
use fmtgen::{laid_out, read};
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;
#[path = "../shared/values.rs"]
mod values;

type Seen = Result<String, (PErr, String)>;
fn seen<T: Spec>(r: syn::Result<T>) -> Seen {
    r.map(|v| { let mut o = String::new(); v.tree(&mut o); o }).map_err(|e| (PErr::of(&e), e.to_compile_error().to_string()))
}

/// just the tokens, nothing in between
fn bare(ts: TokenStream) -> String { ts.into_iter().map(|t| t.to_string()).collect() }

/// Display of a value; `one`: its type is a single token's or a marker's, or (none) either
fn display<T: ToTokens + Display + ?Sized>(c: &mut Ctx, what: &dyn Fn() -> String, v: &T, one: Option<bool>) {
    c.runs += 2;
    c.transitions += 1;
    let ts = v.to_token_stream();
    let toks = read(ts.clone());
    let (p, q, b) = (laid_out(&toks, Some("    ")), laid_out(&toks, None), bare(ts));
    let one_ok = one != Some(false);
    let many_ok = one != Some(true);
    let mut all = vec![(format!("{v}"), &p), (format!("{v:#}"), &q), (v.to_string(), &p)];
    // flags that change nothing about a text that is long enough already
    if !b.is_empty() {
        c.runs += 8;
        all.extend([(format!("{v:1}"), &p), (format!("{v:#1}"), &q), (format!("{v:+}"), &p), (format!("{v:+#}"), &q), (format!("{v:01}"), &p), (format!("{v:#01}"), &q), (format!("{v:_^#1.65535}"), &q), (format!("{v:<.65535}"), &p)]);
    }
    for (got, want) in all {
        if !(many_ok && got == *want || one_ok && got == b) { c.fail(format!("{}: displayed as {got:?}, should be {:?}", what(), if many_ok { want } else { &b })) }
    }
}

fn is_one(g: &G) -> Option<bool> { match g { G::Leaf(_) => Some(true), G::Either(..) => None, _ => Some(false) } }

fn both<T: Spec + FromStr<Err = syn::Error> + Display>(c: &mut Ctx, t: &Ty, g: &G, src: &str) -> Seen {
    c.runs += 4;
    c.states += 1;
    let a = seen(src.parse::<T>());
    let alt = [("syn::parse_str", seen(syn::parse_str::<T>(src))), ("parsel::parse_str", seen(parsel::parse_str::<T>(src))), ("from_str", seen(T::from_str(src)))];
    for (how, b) in &alt { if *b != a { c.fail(format!("{} from text `{src}`: {a:?}, but through {how}: {b:?}", t.name)) } }
    // the parser itself, run on the tokens
    if let Ok(ts) = src.parse::<TokenStream>() {
        let mut rest = 0;
        let mut got = None;
        let r = (|i: ParseStream| { let v = T::parse(i)?; rest = i.cursor().token_stream().into_iter().count(); got = Some(v); i.parse::<TokenStream>()?; Ok(()) }).parse2(ts);
        let whole = r.is_ok() && rest == 0;
        if whole != a.is_ok() { c.fail(format!("{} from text `{src}`: accepted {}, but the parser consumes everything: {whole}", t.name, a.is_ok())) }
        if let (Ok(tree), Some(v)) = (&a, &got) {
            let mut o = String::new();
            v.tree(&mut o);
            if o != *tree { c.fail(format!("{} from text `{src}`: {tree}, but its parser gives{o}", t.name)) }
            display(c, &|| format!("{} of `{src}`", t.name), v, is_one(g));
            display(c, &|| format!("{} of `{src}`, assembled in code", t.name), &v.rebuild(0), is_one(g));
        }
        c.outcome(match (a.is_ok(), got.is_some()) { (true, _) => "accepted", (false, true) => "leftovers", (false, false) => "rejected" });
    } else {
        if a.is_ok() { c.fail(format!("{} from text `{src}`: accepted, but it is no sequence of tokens", t.name)) }
        c.outcome("not lexed");
    }
    c.sample(|| format!("{} from text `{src}`: {a:?}", t.name));
    a
}

fn text<T: Spec + FromStr<Err = syn::Error> + Display>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    let a = both::<T>(c, t, g, src);
    let m = model(g, l, false);
    c.transitions += m.steps;
    let whole = matches!(&m.res, Ok((_, p)) if *p == l.len()) && m.left == 0;
    match (&a, &m.res) {
        (Ok(x), Ok((tree, _))) if whole => if x != tree { c.fail(format!("{} from text `{src}`: {x}, should be{tree}", t.name)) },
        (Ok(x), _) => c.fail(format!("{} from text `{src}`: {x}, should be rejected", t.name)),
        (Err(e), _) => if whole { c.fail(format!("{} from text `{src}`: rejected: {e:?}", t.name)) },
    }
}
fn raw<T: Spec + FromStr<Err = syn::Error> + Display>(c: &mut Ctx, t: &Ty, g: &G, src: &str, _: &[LTok]) { let _ = both::<T>(c, t, g, src); }

macro_rules! text_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: text::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }
macro_rules! raw_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: raw::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

fn main() {
    let q = !thorough();
    let tys: Vec<Ty> = zoo!(text_tys);
    let raws: Vec<Ty> = zoo!(raw_tys);
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let must = ["accepted", "leftovers", "rejected"];
    let mut s = explore("every type", tys.clone(), ALPHA, &[D::Par], Bounds { forest: if q { 3 } else { 4 }, sent: 0, sent2: 0 }, ext, &must);
    s.extend(explore("every type, fewer tokens", tys.clone(), SMALL, &D::ALL, Bounds { forest: if q { 4 } else { 5 }, sent: 0, sent2: 0 }, ext, &[]));
    s.extend(explore("every type", tys.clone(), "a 1 + ,", &D::ALL, Bounds { forest: 0, sent: if q { 7 } else { 9 }, sent2: if q { 2 } else { 4 } }, ext, &must));
    for p in PERIODS { s.push(long(&format!("very often repeated `{}`", p.join(" ")), tys.clone(), p, if p.join(" ").len() > 4 { vec![800] } else if q { vec![4099] } else { vec![2050, 4095, 4096, 4097, 4098, 4099, 4100, 4101, 8194] }, &[], 0, ext, &[])) }
    for p in PERIODS {
        s.push(long(&format!("repeated `{}`", p.join(" ")), tys.clone(), p, if q { vec![1, 2, 3, 9, 33, 65, 129, 257] } else { (1..70).chain([127, 128, 129, 255, 256, 257, 511, 513, 1025]).collect() }, &[], 0, ext, &["accepted"]));
        s.push(long(&format!("repeated `{}` edited", p.join(" ")), tys.clone(), p, if q { vec![3, 9] } else { vec![2, 3, 4, 9, 17, 33] }, &["@"], 1, ext, &["rejected"]));
    }
    // any text at all
    let cs: Vec<char> = "a1+-,;()[]{}\"'/\\ \n_.#r\u{feff}é*\r\0".chars().collect();
    let (k, n) = (cs.len() as u64, if q { 3u32 } else { 4 });
    let (r2, g2) = (raws.clone(), gs.clone());
    s.push(suite(format!("all texts up to {n} characters"), (0..=n).map(|n| k.pow(n)).sum(), &["accepted", "leftovers", "rejected", "not lexed"], move |mut i, c| {
        let mut src = String::new();
        for m in 0..=n { let cnt = k.pow(m); if i < cnt { for _ in 0..m { src.push(cs[(i % k) as usize]); i /= k } break } i -= cnt }
        for (t, g) in r2.iter().zip(&g2) { ext(c, t, g, &src, &[]) }
    }));
    // accepted texts with something before, after or around them
    let lists = build_near(&gs, if q { 5 } else { 7 }, 0, &[]);
    let deco: [(&str, &str); 22] = [("", ""), (" ", " "), ("\n\n", "\n"), ("/* c */", "// d"), ("\u{feff}", ""), ("\t\r\n", "\r\n\t"), ("", " x"), ("", " ,"), ("", ";"), ("(", ")"), ("", "("), ("", ")"), ("", " 1"), ("#", ""), ("", "\""), ("{", "}"), ("", "()"), ("", "\u{3000}"), ("", "/*"), ("", "/* // */"), ("", "\u{0}"), ("///x\n", "")];
    let mut starts = vec![0u64];
    for l in &lists { starts.push(starts.last().unwrap() + l.len() as u64) }
    let n = *starts.last().unwrap();
    s.push(suite("accepted texts decorated", n, &["accepted", "leftovers", "rejected", "not lexed"], move |i, c| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        let (src, _) = render(&fresh_names(&lists[k][(i - starts[k]) as usize]));
        for (a, b) in deco { ext(c, &raws[k], &gs[k], &format!("{a}{src}{b}"), &[]) }
    }));
    // literals of all values
    let vs = values::values();
    s.push(suite("display of all literals", vs.len() as u64, &["shown"], move |i, c| {
        c.states += 1;
        let l = values::lit_of(&vs[i as usize]);
        let w = || format!("{l:?}");
        display(c, &w, &l, Some(true));
        match l.clone() {
            Lit::Bool(x) => display(c, &w, &x, Some(true)), Lit::Byte(x) => display(c, &w, &x, Some(true)), Lit::Int(x) => display(c, &w, &x, Some(true)), Lit::Uint(x) => display(c, &w, &x, Some(true)),
            Lit::Float(x) => display(c, &w, &x, Some(true)), Lit::Char(x) => display(c, &w, &x, Some(true)), Lit::Str(x) => display(c, &w, &x, Some(true)), Lit::ByteStr(x) => display(c, &w, &x, Some(true)),
        }
        let l = || l.clone();
        display(c, &w, &Paren::from(l()), Some(false));
        display(c, &w, &Bracket::from(Any::from(vec![l(), l()])), Some(false));
        display(c, &w, &Any::from(vec![l(), l()]), Some(false));
        display(c, &w, &Maybe::<Plus, Lit>::from((Default::default(), l())), Some(false));
        display(c, &w, &[l(), l()].into_iter().collect::<Punctuated<Lit, Comma>>(), Some(false));
        display(c, &w, &LeftAssoc::<Semi, Lit>::Binary { lhs: Box::new(l().into()), op: Default::default(), rhs: l() }, Some(false));
        display(c, &w, &Two(l(), Two(Semi::default(), l())), Some(false));
        display(c, &w, &Either::<Lit, Word>::Left(l()), None);
        display(c, &w, &Either::<Paren<Lit>, Word>::Left(Paren::from(l())), Some(false));
        c.outcome("shown");
    }));
    main_("C20", s)
}
