//! C19: the formatter reports writer failures and refuses non-whitespace indentation.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::util::*;
use parsel::ast::*;
use proc_macro2::TokenStream;
use std::fmt::{self, Display, Write};
use std::str::FromStr;
#[path = "../shared/fmtgen.rs"]
mod fmtgen;
use fmtgen::*;
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;

/// What a writer does when its turn comes: refuse one call, or every call from then on, or run out
/// of room within a call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault { Never, Once(usize), From(usize), Full(usize) }

struct W { out: String, calls: usize, fault: Fault, failed: bool, after: usize }
impl W {
    fn new(fault: Fault) -> W { W { out: String::new(), calls: 0, fault, failed: false, after: 0 } }
}
impl Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed && !s.is_empty() { self.after += 1 }
        let n = self.calls;
        self.calls += 1;
        let bad = match self.fault {
            Fault::Never => false, Fault::Once(k) => n == k, Fault::From(k) => n >= k,
            Fault::Full(cap) => {
                if self.out.len() + s.len() <= cap { false } else {
                    let mut room = cap - self.out.len();
                    while !s.is_char_boundary(room) { room -= 1 }
                    self.out.push_str(&s[..room]);
                    true
                }
            }
        };
        if bad { self.failed = true; return Err(fmt::Error) }
        self.out.push_str(s);
        Ok(())
    }
}

/// Runs one way of writing under every fault.
fn faults(c: &mut Ctx, what: &dyn Fn() -> String, every_cap: bool, f: &mut dyn FnMut(&mut W) -> fmt::Result) {
    let mut full = W::new(Fault::Never);
    c.runs += 1;
    c.states += 1;
    if f(&mut full).is_err() { c.fail(format!("{}: an error, although the writer never failed", what())); return }
    let n = full.calls;
    let mut plan: Vec<Fault> = (0..n).flat_map(|k| [Fault::Once(k), Fault::From(k)]).collect();
    let len = full.out.len();
    plan.extend((0..len).filter(|k| every_cap || k % 7 == 3 || *k + 3 > len).map(Fault::Full));
    plan.push(Fault::Once(n));
    plan.push(Fault::Full(len));
    for p in plan {
        c.runs += 1;
        c.transitions += 1;
        let mut w = W::new(p);
        let r = f(&mut w);
        c.outcome(if w.failed { "refused" } else { "not reached" });
        if r.is_err() != w.failed { c.fail(format!("{}: writer with {p:?} failed: {}, but the result is {r:?}", what(), w.failed)) }
        if !full.out.starts_with(&w.out) || (!w.failed && w.out != full.out) { c.fail(format!("{}: writer with {p:?} got {:?}, of the full output {:?}", what(), w.out, full.out)) }
        if w.after > 0 { c.fail(format!("{}: {} more pieces were written after writer with {p:?} had failed", what(), w.after)) }
    }
    c.sample(|| format!("{}: {n} calls to the writer, each refused in turn", what()));
}

fn stream(c: &mut Ctx, v: &[Tok], none: Option<D>) {
    let s: TokenStream = build(v, none);
    let every = s.to_string().len() < 60;
    faults(c, &|| format!("pretty form of `{s}`"), every, &mut |w| format_tokens_pretty(s.clone(), w));
    faults(c, &|| format!("compact form of `{s}`"), every, &mut |w| format_tokens_compact(s.clone(), w));
    faults(c, &|| format!("pretty form of the node `{s}`"), every, &mut |w| format_ast_node_pretty(&s, w));
    faults(c, &|| format!("compact form of the node `{s}`"), every, &mut |w| format_ast_node_compact(&s, w));
    faults(c, &|| format!("`{s}` with indentation"), every, &mut |w| TokenStreamFormatter::with_indent("\t ", w).unwrap().write(s.clone()));
    faults(c, &|| format!("the node `{s}` without indentation"), every, &mut |w| TokenStreamFormatter::with_indent("", w).unwrap().write_ast_node(&s));
    faults(c, &|| format!("`{s}` displayed"), every, &mut |w| write!(w, "{}", Shown(s.clone(), true)));
    faults(c, &|| format!("`{s}` displayed as a node"), every, &mut |w| write!(w, "{}", Shown(s.clone(), false)));
    faults(c, &|| format!("`{s}` displayed alternately"), every, &mut |w| write!(w, "{:#}", Shown(s.clone(), true)));
    faults(c, &|| format!("`{s}` displayed alternately as a node"), every, &mut |w| write!(w, "{:#}", Shown(s.clone(), false)));
}

fn shown<T: Spec + FromStr<Err = syn::Error> + Display>(c: &mut Ctx, t: &Ty, _: &G, src: &str, _: &[LTok]) {
    let Ok(v) = parsel::parse_str::<T>(src) else { c.outcome("not parsed"); return };
    faults(c, &|| format!("{} of `{src}` displayed", t.name), true, &mut |w| write!(w, "{v}"));
    faults(c, &|| format!("{} of `{src}` displayed alternately", t.name), true, &mut |w| write!(w, "{v:#}"));
}
macro_rules! shown_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: shown::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

/// White_Space, from the Unicode character database
const WHITE: &[u32] = &[0x9, 0xa, 0xb, 0xc, 0xd, 0x20, 0x85, 0xa0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000];

fn indent(c: &mut Ctx, s: &str) {
    let want = s.chars().all(|x| WHITE.contains(&(x as u32)));
    c.states += 1;
    c.transitions += 1;
    c.runs += 3;
    let mut o = String::new();
    let got = [TokenStreamFormatter::with_indent(s, &mut o).is_ok(), TokenStreamFormatter::with_indent(s.to_string(), &mut o).is_ok(), TokenStreamFormatter::with_indent(Box::<str>::from(s), &mut o).is_ok()];
    if got != [want; 3] || !o.is_empty() { c.fail(format!("the indentation {s:?} is accepted: {got:?}, consists of whitespace: {want}")) }
    c.outcome(if want { "accepted" } else { "refused" });
}

fn main() {
    let q = !thorough();
    let mut s = vec![];
    let f = Forests::new(alphabet("a + , ; -> \"s\""), &[D::Par, D::Brc], if q { 4 } else { 5 });
    s.push(suite("all streams, all failures", f.len(), &["refused", "not reached"], move |i, c| { let mut v = f.get(i); normalise(&mut v); stream(c, &v, if i % 3 == 1 { Some(D::Brc) } else { None }) }));
    let f = Forests::new(alphabet(", a"), &[D::Par], if q { 7 } else { 8 });
    s.push(suite("all lists and groups, all failures", f.len(), &["refused"], move |i, c| { let v = f.get(i); stream(c, &v, None) }));
    s.push(suite("larger streams, all failures", 3 * 4 * 40, &["refused"], |i, c| {
        let (d, k, n) = (D::ALL[i as usize % 3], i as usize / 3 % 4, i as usize / 12 + 1);
        let mut v: Vec<Tok> = toks(["a", "a, b;", "'x' + é", "[(a)] 1.5"][k]);
        for j in 0..n.min(12) { v = vec![Tok::G(D::ALL[(i as usize + j) % 3], v)]; if k % 2 == 0 { v.push(Tok::P(';', false)); v.push(Tok::I("z".into())) } }
        let v: Vec<Tok> = if n > 12 { (0..n - 12).flat_map(|_| toks(["a ;", "() ,", "b -> c", "{ x , y }"][k])).collect() } else { v };
        stream(c, &[Tok::G(d, v)], None)
    }));
    let tys: Vec<Ty> = zoo!(shown_tys);
    s.extend(explore("display of every type, all failures", tys, "", &D::ALL, Bounds { forest: 0, sent: if q { 7 } else { 9 }, sent2: 0 }, ext, &["refused", "not reached", "not parsed"]));
    s.push(suite("every character as indentation", 0x110000, &["accepted", "refused"], |i, c| if let Some(x) = char::from_u32(i as u32) { indent(c, &x.to_string()) }));
    let near = [' ', '\t', '\n', '\r', '\u{b}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2003}', '\u{2028}', '\u{202f}', '\u{205f}', '\u{3000}', 'a', '/', '_', '0', '\0', '\u{1f}', '\u{7f}', '\u{180e}', '\u{200b}', '\u{200e}', '\u{2060}', '\u{feff}', '\u{301}', 'é'];
    let b = near.len() as u64;
    let max = if q { 4u32 } else { 5 };
    s.push(suite("all short indentations", (0..=max).map(|n| b.pow(n)).sum(), &["accepted", "refused"], move |mut i, c| {
        let mut t = String::new();
        for n in 0..=max { let k = b.pow(n); if i < k { for _ in 0..n { t.push(near[(i % b) as usize]); i /= b } break } i -= k }
        indent(c, &t)
    }));
    s.push(suite("long indentations", 300 * 4, &["accepted", "refused"], |i, c| {
        let (k, n) = (i % 4, i as usize / 4);
        let w = " \t\u{3000}".chars().cycle().take(n).collect::<String>();
        match k { 0 => indent(c, &w), 1 => indent(c, &format!("{w}x")), 2 => indent(c, &format!("x{w}")), _ => indent(c, &format!("{w}.{w}")) }
    }));
    main_("C19", s)
}
