//! C21: source ranges of every node of a parsed tree, for every layout.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::util::{SpanDisplay, SpannedExt};
use parsel::ToTokens;
use proc_macro2::TokenStream;
use syn::parse::{ParseStream, Parser};
#[path = "../shared/layout.rs"]
mod layout;
#[path = "../shared/zoo.rs"]
mod zoo;
use layout::*;
use zoo::*;

fn prefix<T: Spec>(src: &str) -> Option<T> {
    let mut parsed = None;
    let _ = (|input: ParseStream| { parsed = T::parse(input).ok(); input.parse::<TokenStream>().map(|_| ()) }).parse_str(src);
    parsed
}

/// What is reported about a node against where it is.
fn judge(c: &mut Ctx, t: &str, src: &str, n: &Note, want: Option<Sp>) {
    let Some(sp) = want else { c.check(n.empty, || format!("{t} on {src:?}: the node {} has no tokens, but prints some", n.what)); return };
    if n.empty { c.fail(format!("{t} on {src:?}: the node {} prints nothing", n.what)); return }
    let (b, h) = (sp.lo.byte..sp.hi.byte, sp.lo.chr..sp.hi.chr);
    let shown = format!("{}:{}..{}:{}", sp.lo.line, sp.lo.col + 1, sp.hi.line, sp.hi.col);
    let e = |what: &str, got: String, want: String| format!("{t} on {src:?}: {what} of the node {} is {got}, should be {want}", n.what);
    if n.bytes != b { c.fail(e("byte range", format!("{:?}", n.bytes), format!("{b:?}"))) }
    if n.chars != h { c.fail(e("character range", format!("{:?}", n.chars), format!("{h:?}"))) }
    if n.text != src[b.clone()] { c.fail(e("source substring", format!("{:?}", n.text), format!("{:?}", &src[b]))) }
    if n.shown != shown { c.fail(e("formatted span", n.shown.clone(), shown)) }
    if n.lc != sp.lc() { c.fail(e("location", format!("{:?}", n.lc), format!("{:?}", sp.lc()))) }
}

fn spans<T: Spec>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    c.states += 1;
    let m = model(g, l, false);
    c.transitions += m.steps;
    let (Ok(_), 0) = (&m.res, m.left) else { c.outcome("not parsed"); return };
    c.runs += 1;
    let Some(v) = prefix::<T>(src) else { c.fail(format!("{} on {src:?}: not parsed", t.name)); return };
    let ns = notes(&v, src);
    assert_eq!(ns.len(), m.nodes.len(), "harness: {} on {src:?}: {ns:?} {:?}", t.name, m.nodes);
    for (n, sp) in ns.iter().zip(&m.nodes) {
        judge(c, t.name, src, n, *sp);
        c.outcome(match sp { None => "node without tokens", Some(sp) if sp.lo.line < sp.hi.line => "node on several lines", Some(sp) if sp.lo.byte != sp.lo.chr => "node after multi-byte text", Some(_) => "node" });
    }
    if src.starts_with(BOM) { c.outcome("byte order mark") }
    c.sample(|| format!("{} on {src:?}: {} nodes, the last at {}", t.name, ns.len(), ns.last().unwrap().shown));
}
macro_rules! span_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: spans::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

/// several layouts of each accepted input
fn layouts(c: &mut Ctx, t: &Ty, g: &G, _: &str, l: &[LTok]) {
    if model(g, l, false).res.is_err() { return }
    let ts = back(l);
    for k in 0..if thorough() { 24 } else { 6 } {
        let (src, l) = laid(&ts, k);
        (t.ext)(c, t, g, &src, &l);
    }
}

/// token sequences every gap of which takes every form
const FIXED: &[&str] = &["a", "\"s\"", "- 1", "a + a", "-1 'c'", "(a)", "[ \"s\" ]", "a :: a", "a = \"s\" ;", "(a (a))", "{ a ; }", "'c' a 1.5"];
fn every_gap(tys: Vec<Ty>, max: usize) -> Suite {
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    // all assignments of gaps, for each sequence; the first gap may also have the mark
    let mut cases: Vec<(Vec<Tok>, usize)> = vec![];
    for f in FIXED {
        let ts = toks(f);
        let mut places = 0;
        lay(&ts, &mut |_| { places += 1; "".into() });
        if places <= max { cases.push((ts, places)) }
    }
    let b = GAPS.len() as u64 + 1;
    let starts: Vec<u64> = cases.iter().scan(0, |a, (_, n)| { let s = *a; *a += 2 * b.pow(*n as u32); Some(s) }).collect();
    let n = starts.last().unwrap() + 2 * b.pow(cases.last().unwrap().1 as u32);
    suite(format!("every gap in every form, up to {max} gaps"), n, &["node", "node on several lines", "node after multi-byte text", "byte order mark"], move |i, c| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        let mut i = i - starts[k];
        let mark = i % 2 == 1;
        i /= 2;
        let ts = dress(&cases[k].0, &mut { i as usize });
        let mut first = true;
        let mut bad = false;
        let (src, l) = lay(&ts, &mut |at| {
            let x = (i % b) as usize;
            i /= b;
            let g = if x == 0 { "" } else { GAPS[x - 1] };
            if at == At::Between && g.is_empty() { bad = true }
            if std::mem::take(&mut first) && mark { format!("{BOM}{g}").into() } else { g.into() }
        });
        if bad { return }
        for (t, g) in tys.iter().zip(&gs) { (t.ext)(c, t, g, &src, &l) }
    })
}

/// What may be parsed before: sources of all sorts, good and bad ones.
const BEFORE: &[&str] = &["", "a", "\u{feff}é", "\"x\ny\"\n", "/* é", "a (b", "字\r\n'é'", "\n\n"];
const NOW: &[&str] = &["é", "\u{feff} \"s\"", " \n (a 字) ", "'𝄞'\r\n1 2", "{\"é\n\" : a}"];

/// Nodes of several sources alive at the same time, asked after all have been parsed.
fn histories(depth: usize) -> Suite {
    let b = (BEFORE.len() + NOW.len()) as u64;
    let n: u64 = (1..=depth as u32).map(|d| b.pow(d)).sum();
    suite(format!("histories of up to {depth} sources"), n, &["node", "rejected source"], move |mut i, c| {
        let mut d = 1;
        while i >= b.pow(d) { i -= b.pow(d); d += 1 }
        let mut alive = vec![];
        for _ in 0..d {
            let x = (i % b) as usize;
            i /= b;
            let src = if x < BEFORE.len() { BEFORE[x] } else { NOW[x - BEFORE.len()] };
            c.runs += 1;
            c.transitions += 1;
            match src.parse::<TokenStream>() { Ok(ts) => alive.push((src, ts)), Err(_) => c.outcome("rejected source") }
        }
        c.states += 1;
        for (src, ts) in alive {
            whole(c, src, ts.clone());
            if ts.is_empty() { continue }
            // the same in forms of other types
            let r = &ts;
            let o = Some(ts.clone());
            let b: Box<dyn ToTokens> = Box::new(ts.clone());
            let want = note_of(&ts, src);
            for (n, how) in [(note_of(&r, src), "a reference"), (note_of(&o, src), "an option"), (note_of(&*b, src), "a trait object"), (note_of(&SomeTokens(ts.clone()), src), "a user's type")] {
                c.check(Note { what: want.what, ..n.clone() } == want, || format!("{src:?}: the tokens as {how} are at {n:?}, as a stream at {want:?}"));
            }
            let sp = SpannedExt::span(&ts);
            for (s, how) in [(SpanDisplay::new(sp).to_string(), "new"), (SpanDisplay::from(sp).to_string(), "from")] {
                c.check(s == want.shown, || format!("{src:?}: SpanDisplay::{how} shows {s}, should show {}", want.shown));
            }
        }
    })
}
struct SomeTokens(TokenStream);
impl ToTokens for SomeTokens { fn to_tokens(&self, t: &mut TokenStream) { self.0.to_tokens(t) } }

/// A stream is located at the text from its first to its last token, found here by trimming.
fn whole(c: &mut Ctx, src: &str, ts: TokenStream) {
    if ts.is_empty() { return }
    let start = src.len() - src.trim_start_matches(|c: char| c.is_whitespace() || c == '\u{feff}').len();
    let end = src.trim_end().len();
    let pos = |b: usize| { let p = &src[..b]; Pos { byte: b, chr: p.chars().count(), line: 1 + p.matches('\n').count(), col: p.rsplit('\n').next().unwrap().chars().count() } };
    c.outcome("node");
    judge(c, "TokenStream", src, &note_of(&ts, src), Some(Sp { lo: pos(start), hi: pos(end) }));
}

/// The same question after more and more sources.
fn many(t: Vec<Ty>, upto: usize) -> Suite {
    let gs: Vec<G> = t.iter().map(|t| (t.g)()).collect();
    suite("after many sources", (2 * BEFORE.len()) as u64, &["node"], move |i, c| {
        let b = BEFORE[i as usize / 2];
        for n in 0..upto {
            let _ = b.parse::<TokenStream>();
            if i % 2 == 1 { let _ = format!("{b}\n{}", "é\n".repeat(n % 50)).parse::<TokenStream>(); }
            if n % 97 == 0 {
                for (t, g) in t.iter().zip(&gs) {
                    let (src, l) = laid(&toks("a 1 - 1 (a) \"s\""), n);
                    (t.ext)(c, t, g, &src, &l);
                }
            }
        }
    })
}

/// Sources with very much text before, between and after the tokens.
fn far(t: Vec<Ty>) -> Suite {
    let gs: Vec<G> = t.iter().map(|t| (t.g)()).collect();
    const PADS: [&str; 6] = ["\n", " ", "é\n", "é", "\r\n", "x y"];
    let ns: Vec<usize> = [255, 256, 257, 4095, 4096, 4097, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131072, 131073].into();
    suite("far from the start of the source", (ns.len() * PADS.len() * 4) as u64, &["node", "node after multi-byte text"], move |i, c| {
        let (n, pad, place) = (ns[i as usize / 4 / PADS.len()], PADS[i as usize / 4 % PADS.len()], i as usize % 4);
        let mut text = pad.repeat(n);
        if pad == "é" || pad == "x y" { text = format!("/*{text}*/") }
        if pad == "é\n" { text = text.replace("é\n", "//é\n") }
        for ts in ["a", "a + 1", "(a \"s\")"] {
            let mut at = 0;
            let (src, l) = lay(&toks(ts), &mut |_| { at += 1; if at == place + 1 { text.clone().into() } else { " ".into() } });
            for (t, g) in t.iter().zip(&gs) { (t.ext)(c, t, g, &src, &l) }
        }
        // one long token
        if place < 2 && matches!(pad, "\n" | "é\n" | "é" | " ") {
            let lit = format!("\"{}\"", pad.repeat(n));
            let (src, l) = lay(&[Tok::I("a".into()), Tok::P('+', false), Tok::L(lit.into()), Tok::I("b".into())], &mut |_| " ".into());
            for (t, g) in t.iter().zip(&gs) { (t.ext)(c, t, g, &src, &l) }
        }
    })
}

fn main() {
    let q = !thorough();
    let tys: Vec<Ty> = zoo!(span_tys);
    let any: Vec<Ty> = span_tys![Any<Either<Either<Word, Lit>, Either<Minus, Either<Plus, Either<Paren<Any<Either<Word, Lit>>>, Either<Semi, Path2>>>>>>];
    let more: Vec<Ty> = span_tys![Word, LitStr, Lit, LeftAssoc<Plus, Word>, Two<Lit, LitChar>, Paren<Any<Either<Word, Paren<Word>>>>, Bracket<LitStr>, Separated<Word, Path2>, Stmt, Brace<Punctuated<Word, Semi>>, Three<LitChar, Word, LitFloat>];
    let more2: Vec<Ty> = span_tys![Word, LeftAssoc<Lit, Plus>, Paren<Any<Either<Word, Lit>>>];
    let must = ["node", "node on several lines", "node after multi-byte text", "byte order mark"];
    let mut s = explore("every type in several layouts", tys.clone(), "", &D::ALL, Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 2 } else { 3 } }, layouts, &must);
    s.push(every_gap([any.clone(), more].concat(), if q { 4 } else { 5 }));
    s.push(histories(if q { 4 } else { 5 }));
    s.push(many(any.clone(), if q { 2000 } else { 20000 }));
    for p in PERIODS { s.push(long(&format!("repeated `{}`", p.join(" ")), [tys.clone(), any.clone()].concat(), p, if q { vec![1, 2, 3, 9, 33, 129] } else { (1..34).chain([64, 65, 129, 255, 256, 257]).collect() }, &[], 0, layouts, &["node"])) }
    s.push(far([any.clone(), more2].concat()));
    main_("C21", s)
}
