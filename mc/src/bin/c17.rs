//! C17: formatting a token stream never changes its tokens.
use mc::{explore::*, gram::V, run::*, tok::*};
use parsel::util::*;
use proc_macro2::{Literal, TokenStream};
use std::fmt::{self, Write};
#[path = "../shared/fmtgen.rs"]
mod fmtgen;
use fmtgen::*;
#[path = "../shared/values.rs"]
mod values;
#[path = "../shared/words.rs"]
mod words;

const INDENTS: &[&str] = &["", " ", "\t", "\n", "\r\n", "\u{3000}", "\u{a0} ", "\u{2028}", "\u{85}\u{b}\u{c}"];

fn relex(c: &mut Ctx, how: &str, ts: &TokenStream, text: &str, want: &[Tok]) {
    c.runs += 1;
    c.transitions += 1;
    match text.parse::<TokenStream>() {
        Err(e) => c.fail(format!("{how} of `{ts}` gives {text:?}, which is not lexed: {e}")),
        Ok(t) => { let got = read(t); if got != want { c.fail(format!("{how} of `{ts}` gives {text:?}, whose tokens are {got:?} instead of {want:?}")) } }
    }
}

/// every form of one stream
fn show(c: &mut Ctx, s: &TokenStream, want: &[Tok], indents: &[&str]) {
    c.states += 1;
    for (how, t) in pretty(s) { relex(c, how, s, &t, want) }
    for (how, t) in compact(s) { relex(c, how, s, &t, want) }
    for i in indents {
        relex(c, &format!("formatting with indentation {i:?}"), s, &indented(s, i), want);
        relex(c, &format!("formatting with indentation {i:?}"), s, &indented_owned(s, i), want);
    }
    c.outcome("formatted");
    c.sample(|| format!("`{s}` re-lexes to the same tokens from every form"));
}

/// as built by quote!, with groups of each kind made invisible in turn
fn quoted(c: &mut Ctx, ts: &[Tok], indents: &[&str]) {
    show(c, &build(ts, None), ts, indents);
    for d in D::ALL { if uses(ts, d) { show(c, &build(ts, Some(d)), &visible(ts, Some(d)), &indents[..1]); c.outcome("invisible groups") } }
}
fn uses(ts: &[Tok], d: D) -> bool { ts.iter().any(|t| matches!(t, Tok::G(e, i) if *e == d || uses(i, d))) }

fn forests(name: &str, alpha: &'static str, delims: &[D], n: usize) -> Suite {
    let f = Forests::new(alphabet(alpha), delims, n);
    suite(format!("{name}: all token trees up to {n} symbols"), f.len(), &["formatted"], move |i, c| {
        let mut v = f.get(i);
        normalise(&mut v);
        quoted(c, &v, INDENTS);
    })
}

/// A writer that refuses one call (counted from 0), and works otherwise.
struct Flaky { out: String, calls: usize, fail_at: usize }
impl Write for Flaky { fn write_str(&mut self, s: &str) -> fmt::Result { self.calls += 1; if self.calls - 1 == self.fail_at { return Err(fmt::Error) } self.out.push_str(s); Ok(()) } }

fn main() {
    let q = !thorough();
    let mut s = vec![];
    s.push(forests("everything", FORMS, &[D::Par, D::Brc], if q { 4 } else { 5 }));
    s.push(forests("operators and groups", "+ -= a ,", &[D::Par, D::Brk], if q { 6 } else { 7 }));
    s.push(forests("groups only", "a", &D::ALL, if q { 6 } else { 7 }));
    let m = menu();
    let b = Seqs { syms: m, max: if q { 3 } else { 4 } };
    s.push(suite("neighbours of every kind", b.len(), &["formatted", "invisible groups"], move |i, c| {
        let mut v = b.get(i);
        normalise(&mut v);
        quoted(c, &v, &INDENTS[..2]);
        if v.len() <= 2 { quoted(c, &[Tok::G(D::Brk, v.clone())], INDENTS); quoted(c, &[v.clone(), vec![Tok::G(D::Par, v.clone())], v].concat(), INDENTS) }
    }));
    // operator characters, glued as a lexer would see them
    let ops: Vec<char> = "+-*/%^!&|=<>@.,;:#$?~' ".chars().collect();
    let (k, n) = (ops.len() as u64, if q { 4u32 } else { 5 });
    s.push(suite("operators as lexed", (0..=n).map(|n| k.pow(n)).sum(), &["formatted", "not lexed"], move |mut i, c| {
        let mut src = String::new();
        for m in 0..=n { let cnt = k.pow(m); if i < cnt { for _ in 0..m { src.push(ops[(i % k) as usize]); i /= k } break } i -= cnt }
        for src in [src.clone(), format!("a{src}a"), format!("{src}1"), format!("({src})")] {
            let Ok(ts) = src.parse::<TokenStream>() else { c.outcome("not lexed"); continue };
            let want = read(ts.clone());
            show(c, &ts, &want, &INDENTS[..1]);
        }
    }));
    // words of every kind
    let ws = words::words(if q { 2 } else { 3 }, &[]);
    s.push(suite("words", ws.len() as u64, &["formatted"], move |i, c| {
        let w = || Tok::I(ws[i as usize].clone().into());
        let around = [vec![], vec![w()], vec![Tok::P('+', true), Tok::P('=', false)], vec![Tok::L("1".into())], vec![Tok::P('-', false)], vec![Tok::G(D::Par, vec![w()])], vec![Tok::P(',', false)]];
        for a in &around { for b in &around { quoted(c, &[&a[..], &[w()], b].concat(), &INDENTS[..2]) } }
        quoted(c, &[Tok::G(D::Brc, vec![w(), Tok::P(';', false), w()])], INDENTS);
    }));
    // literals of all values
    let vs = values::values();
    s.push(suite("all literals", vs.len() as u64, &["formatted"], move |i, c| {
        let ls = match &vs[i as usize] {
            V::Bool(_) => vec![], V::Byte(b) => vec![Literal::byte_character(*b), Literal::u8_suffixed(*b)], V::Char(x) => vec![Literal::character(*x)], V::Str(s) => vec![Literal::string(s)], V::ByteStr(b) => vec![Literal::byte_string(b)],
            V::Int(i) => vec![Literal::i128_unsuffixed(*i), Literal::i128_suffixed(*i)], V::Float(f) => if f.is_finite() { vec![Literal::f64_unsuffixed(*f), Literal::f64_suffixed(*f)] } else { vec![] },
        };
        for l in ls {
            let src = quote::quote!(a #l, (#l #l) . #l; #l b -#l);
            let want = read(src.clone());
            show(c, &src, &want, INDENTS);
        }
    }));
    let texts = ["/// doc\nfn f() {}", "//! inner\n", "/** block\n doc */ struct S;", "#![allow(x)] #[a = \"b\"] mod m { }", "a /* c */ + // d\n = b", "'a 'b 'c' + 'd", "x.0.1 1.0.2 1..2 0..=1", "r#\"multi\n  line \"# b\"x\\\n  y\"", "a<<b >>= c>> =d", "&&'a mut & &b", "r#fn r#type", "1e-5 - -1 -1.5 --1", "match x { _ => (), y if y => { ; } }", "\u{feff}a", "macro_rules! m { ($($x:tt)*) => { $crate::n!($($x),*) } }", "|| | |a| b||c", "::<'a>::b..", "#!/bin/sh", "# ! [x]", "a;;b,,c;,d", "+'a +'b,'c;'d"];
    s.push(suite("source texts", texts.len() as u64, &["formatted"], move |i, c| if let Ok(ts) = texts[i as usize].parse::<TokenStream>() { let want = read(ts.clone()); show(c, &ts, &want, INDENTS) }));
    s.push(suite("streams of many lengths", 8 * if q { 400 } else { 1400 }, &["formatted"], |i, c| quoted(c, &stretch(i as usize / 8, i as usize % 8), &["", " ", "\t"])));
    s.push(suite("very long streams", 8 * 4, &["formatted"], |i, c| quoted(c, &stretch([2048, 4097, 16385, 65537][i as usize / 8], i as usize % 8), &["", " "])));
    // indentations
    let ws: Vec<char> = (0..=0x10ffff).filter_map(char::from_u32).filter(|c| c.is_whitespace()).collect();
    let ins: Vec<String> = { let mut v: Vec<String> = ws.iter().map(|c| c.to_string()).collect(); for a in &ws { for b in &ws { v.push(format!("{a}{b}")); if !q { for d in &ws { v.push(format!("{a}{b}{d}")) } } } } v.extend((0..80).map(|n| " ".repeat(n))); v };
    let samples: Vec<Vec<Tok>> = ["a", "(a)", "(a, b; (c, [d]) e)", "{ x += 1; { y -> z } } 'a . \"s\n t\" , ", "[[[]]] ((),) + +="].iter().map(|s| { let mut v = toks(s); normalise(&mut v); v }).collect();
    let n = samples.len();
    s.push(suite("every indentation of whitespace", (ins.len() * n) as u64, &["formatted"], move |i, c| {
        let v = &samples[i as usize % n];
        quoted(c, v, &[&ins[i as usize / n], "", " "])
    }));
    // several writes with one formatter
    let menu: Vec<Vec<Tok>> = ["", "a", "(a)", "()", "a, b", "a;", "(a; [b])", "{ (x) + y, } z", "+ =", "[[[a]]]", "'a", "-1", "((a, b), (c)) d;", "{a} {b}"].iter().map(|s| { let mut v = toks(s); normalise(&mut v); v }).collect();
    let k = menu.len() as u64;
    let depth = if q { 4u32 } else { 5 };
    let m2 = menu.clone();
    s.push(suite(format!("all sequences of {depth} writes"), k.pow(depth), &["written"], move |mut i, c| {
        c.states += 1;
        let mut pick = vec![];
        for _ in 0..depth { pick.push(&m2[(i % k) as usize]); i /= k }
        for mode in 0..4 {
            let ind = [None, Some("    "), Some("\t"), Some("")][mode];
            let mut out = String::new();
            let (mut ends, mut want) = (vec![], String::new());
            {
                macro_rules! go { ($f:expr) => { { let mut f = $f; for (j, t) in pick.iter().enumerate() {
                    c.runs += 1; c.transitions += 1;
                    let s = build(t, if j % 2 == 1 { Some(D::Par) } else { None });
                    (if j % 2 == 0 { f.write(s) } else { f.write_ast_node(&s) }).expect("formatting into a string");
                } } } }
                match mode { 0 => go!(TokenStreamFormatter::compact(&mut out)), 1 => go!(TokenStreamFormatter::pretty(&mut out)), _ => go!(TokenStreamFormatter::with_indent(ind.unwrap(), &mut out).unwrap()) }
            }
            for (j, t) in pick.iter().enumerate() {
                let s = build(t, if j % 2 == 1 { Some(D::Par) } else { None });
                let mut o = String::new();
                match ind { None => format_tokens_compact(s, &mut o).unwrap(), Some(x) => TokenStreamFormatter::with_indent(x, &mut o).unwrap().write(s).unwrap() }
                want.push_str(&o);
                ends.push(want.len());
            }
            if out != want { c.fail(format!("writing {pick:?} with one formatter gives {out:?}, with fresh ones {want:?}")) }
        }
        c.outcome("written");
        c.sample(|| format!("{pick:?} written with one formatter"));
    }));
    // writes that fail in between
    s.push(suite("all sequences of 3 writes with a refused call", k * k * k * 40, &["refused", "not reached"], move |i, c| {
        let (at, i) = ((i % 40) as usize, i / 40);
        let pick = [&menu[(i % k) as usize], &menu[(i / k % k) as usize], &menu[(i / k / k) as usize]];
        c.states += 1;
        for ind in [None, Some("    "), Some("\t")] {
            let mut w = Flaky { out: String::new(), calls: 0, fail_at: at };
            let mut res = vec![];
            {
                macro_rules! go { ($f:expr) => { { let mut f = $f; for t in pick { c.runs += 1; c.transitions += 1; res.push(f.write(build(t, None)).is_ok()) } } } }
                match ind { None => go!(TokenStreamFormatter::compact(&mut w)), Some("    ") => go!(TokenStreamFormatter::pretty(&mut w)), Some(x) => go!(TokenStreamFormatter::with_indent(x, &mut w).unwrap()) }
            }
            if w.calls <= at { c.outcome("not reached"); continue }
            c.outcome("refused");
            // what was written by each write: all of it, or for the one that failed a prefix
            let full: Vec<String> = pick.iter().map(|t| { let mut o = String::new(); match ind { None => format_tokens_compact(build(t, None), &mut o).unwrap(), Some(x) => TokenStreamFormatter::with_indent(x, &mut o).unwrap().write(build(t, None)).unwrap() } o }).collect();
            let bad = res.iter().position(|r| !r);
            let ok = bad.is_some_and(|b| {
                let (pre, post): (String, String) = (full[..b].concat(), full[b + 1..].concat());
                w.out.strip_prefix(&pre[..]).and_then(|r| r.strip_suffix(&post[..])).is_some_and(|r| full[b].starts_with(r)) && res.iter().filter(|r| !**r).count() == 1
            });
            if !ok { c.fail(format!("writing {pick:?} with one formatter (indentation {ind:?}), when call {at} to the writer fails, gives {:?} with results {res:?}, fresh formatters give {full:?}", w.out)) }
        }
    }));
    main_("C17", s)
}
