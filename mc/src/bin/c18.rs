//! C18: formatted layout is canonical.
use mc::{explore::*, run::*, tok::*};
#[path = "../shared/fmtgen.rs"]
mod fmtgen;
use fmtgen::*;
#[path = "../shared/values.rs"]
mod values;
#[path = "../shared/words.rs"]
mod words;

const INDENTS: &[&str] = &["", " ", "  ", "\t", "   ", "\t ", "        ", "\n", "\r\n", "\u{3000}", "\u{a0}", "\u{2003}\t"];

fn show(c: &mut Ctx, ts: &[Tok]) {
    c.states += 1;
    let s = build(ts, None);
    let p = laid_out(ts, Some("    "));
    for (how, got) in pretty(&s) { c.runs += 1; c.transitions += 1; if got != p { c.fail(format!("{how} of `{s}` gives {got:?}, the layout is {p:?}")) } }
    let q = laid_out(ts, None);
    for (how, got) in compact(&s) { c.runs += 1; c.transitions += 1; if got != q { c.fail(format!("{how} of `{s}` gives {got:?}, the layout is {q:?}")) } }
    // an invisible group that stands alone is laid out as its content
    if !ts.is_empty() {
        let s = alone(ts);
        for (how, got) in pretty(&s) { c.runs += 1; c.transitions += 1; if got != p { c.fail(format!("{how} of `{s}` in invisible groups gives {got:?}, the layout is {p:?}")) } }
        for (how, got) in compact(&s) { c.runs += 1; c.transitions += 1; if got != q { c.fail(format!("{how} of `{s}` in invisible groups gives {got:?}, the layout is {q:?}")) } }
        for i in &INDENTS[..2] { c.runs += 1; let w = laid_out(ts, Some(i)); let got = indented(&s, i); if got != w { c.fail(format!("`{s}` in invisible groups indented by {i:?} gives {got:?}, the layout is {w:?}")) } }
    }
    if q.contains('\n') && !ts_has_newline(ts) { c.fail(format!("harness: the compact layout {q:?} has a line break")) }
    for i in INDENTS {
        c.runs += 1; c.transitions += 1;
        let w = laid_out(ts, Some(i));
        let got = indented(&s, i);
        if got != w { c.fail(format!("`{s}` indented by {i:?} gives {got:?}, the layout is {w:?}")) }
    }
    c.outcome(if p.contains('\n') { "several lines" } else { "one line" });
    c.sample(|| format!("`{s}` is laid out as {p:?} and {q:?}"));
}
/// everything, and the content of every group, in an invisible group of its own
fn alone(ts: &[Tok]) -> proc_macro2::TokenStream {
    use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
    if ts.is_empty() { return TokenStream::new() }
    let inner: TokenStream = ts.iter().flat_map(|t| match t { Tok::G(d, i) => TokenTree::from(Group::new(delim(*d), alone(i))).into(), t => build(std::slice::from_ref(t), None) }).collect();
    TokenTree::from(Group::new(Delimiter::None, inner)).into()
}
fn ts_has_newline(ts: &[Tok]) -> bool { ts.iter().any(|t| match t { Tok::L(s) => s.contains('\n'), Tok::G(_, i) => ts_has_newline(i), _ => false }) }

fn forests(name: &str, alpha: &'static str, delims: &[D], n: usize) -> Suite {
    let f = Forests::new(alphabet(alpha), delims, n);
    suite(format!("{name}: all token trees up to {n} symbols"), f.len(), &["several lines", "one line"], move |i, c| {
        let mut v = f.get(i);
        normalise(&mut v);
        show(c, &v)
    })
}

fn main() {
    let q = !thorough();
    let mut s = vec![];
    s.push(forests("everything", FORMS, &[D::Par, D::Brc], if q { 5 } else { 6 }));
    s.push(forests("lists and groups", "a , ;", &D::ALL, if q { 6 } else { 7 }));
    s.push(forests("commas and groups", ", a", &[D::Brk], if q { 9 } else { 11 }));
    s.push(forests("operators", "+ +- ,, ,+ +, ;, , ;", &[D::Par], if q { 5 } else { 6 }));
    s.push(forests("groups only", "", &D::ALL, if q { 7 } else { 9 }));
    let m = menu();
    let b = Seqs { syms: m.clone(), max: if q { 3 } else { 4 } };
    s.push(suite("neighbours of every kind", b.len(), &["several lines", "one line"], move |i, c| {
        let mut v = b.get(i);
        normalise(&mut v);
        show(c, &v);
        if v.len() <= 2 { show(c, &[Tok::G(D::Brk, v.clone())]); show(c, &[Tok::G(D::Par, vec![Tok::G(D::Brc, v.clone()), Tok::P(';', false)])]); show(c, &[v.clone(), vec![Tok::G(D::Par, v.clone())], v].concat()) }
    }));
    let ws = words::words(if q { 2 } else { 3 }, &[]);
    s.push(suite("words", ws.len() as u64, &["several lines", "one line"], move |i, c| {
        let w = || Tok::I(ws[i as usize].clone().into());
        let around = [vec![], vec![w()], vec![Tok::P('+', true), Tok::P('=', false)], vec![Tok::L("1".into())], vec![Tok::P('-', false)], vec![Tok::G(D::Par, vec![w()])], vec![Tok::P(',', false)]];
        for a in &around { for b in &around { show(c, &[&a[..], &[w()], b].concat()) } }
    }));
    s.push(suite("deep nesting", 3 * 8 * 100, &["several lines"], |i, c| {
        let (d, k, n) = (D::ALL[i as usize % 3], i as usize / 3 % 8, i as usize / 24 + 1);
        let mut v: Vec<Tok> = if k & 1 > 0 { vec![Tok::I("a".into())] } else { vec![] };
        for _ in 0..n {
            v = vec![Tok::G(d, v)];
            if k & 2 > 0 { v.push(Tok::P(',', false)) }
            if k & 4 > 0 { v.insert(0, Tok::I("b".into())); v.push(Tok::I("c".into())) }
        }
        show(c, &v)
    }));
    s.push(suite("wide content", 8 * 60, &["several lines"], |i, c| {
        let (k, n) = (i as usize % 8, i as usize / 8 + 1);
        let unit: &[&str] = [&["a,"][..], &["a;"], &["()"], &["a +"], &["[a],"], &["{a;}"], &["a", ",", ";", "(b)"], &["::"]][k];
        let v: Vec<Tok> = (0..n * 5).flat_map(|u| toks(unit[u % unit.len()])).collect();
        let mut v2 = vec![Tok::G(D::Brc, v.clone())];
        normalise(&mut v2);
        show(c, &v2);
        let mut v = v;
        normalise(&mut v);
        show(c, &v);
    }));
    // lines and streams of every length
    s.push(suite("streams of many lengths", 8 * if q { 400 } else { 1400 }, &["several lines", "one line"], |i, c| show(c, &stretch(i as usize / 8, i as usize % 8))));
    s.push(suite("very long streams", 8 * 4, &["several lines", "one line"], |i, c| show(c, &stretch([2048, 4097, 16385, 65537][i as usize / 8], i as usize % 8))));
    main_("C18", s)
}
